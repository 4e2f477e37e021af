"""Write MANIFEST.json: every property with a check in checks/ is claimed."""
import json
import os

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))

OPTN = ("Random networks are optimised by PyPSA (HiGHS) and compared with an independently written reference model of the documented "
        "problem: every documented constraint is evaluated on the reported results and the optimal cost must agree. Trusts HiGHS for both sides; "
        "explores small systems (1-4 buses, 2-6 snapshots).")
NOTES = {
    "C13": "Prices are checked by weak duality of an independently built model and by finite re-optimisation of perturbed loads and limits. Small networks; trusts HiGHS.",
    "C14": "Subset optimisations are compared with the reference problem on the subset, rolling runs window by window with a reference handed the state the previous window left.",
    "C15": "Every outage is recomputed by an independent DC power flow on the reported results, and the optimum compared with an independently built security-constrained LP.",
    "C16": "Budget and constraints are evaluated on the alternative and its objective compared with an independently built budgeted LP.",
    "C17": "Metamorphic: the same system in two representations is optimised by PyPSA and costs (and unique results) compared.",
    "C18": "Differential against an independently written dense linear power flow over random networks.",
    "C19": "The AC power flow equations of independently written branch models are evaluated on the reported results.",
    "C20": "Differential against an independent transcription of the documented formulas.",
    "C21": "Factors are compared with independently recomputed power flows, branch by branch and outage by outage.",
    "C22": "Differential against an independent union-find / cycle space computation, over edit histories.",
    "C23": "Stateful generated histories of edits compared after each step with a dictionary model.",
    "C24": "Stateful generated histories of snapshot changes compared with a dictionary model.",
    "C25": "Generated networks; one-cell differences, edits after copying, slices and merges compared with the specification data.",
    "C26": "Round trip over generated networks in every format, compared cell by cell, also over dirty targets.",
    "C27": "Each statistic is recomputed from the component tables of optimised or synthetic-result networks by independent code.",
    "C28": "Metamorphic relations between groupings, filters and aggregations over generated networks with results.",
    "C29": "Clustered networks are compared with independently aggregated specification data.",
    "C30": "Random PYPOWER cases are solved by PYPOWER and by PyPSA and compared; random pandapower grids are compared element by element and by their power flow.",
    "C31": "Valid generated networks must be silent; single injected inconsistencies must be flagged.",
    "C32": "Generated networks run through pairs of workflows whose outcomes must agree.",
    "C33": "Expressions evaluated at the solution are compared with the statistics and with independent recomputation.",
    "C34": "Generated networks and name mappings; tables compared with renamed specification data, optimisation and power flow repeated.",
    "C35": "Generated operation histories against a dictionary model; formula comparison for geographic helpers.",
}
TECH = {
    "opt": "property-based testing: differential against an independent reference optimiser (Hypothesis, shrinking)",
    "def": "property-based testing over generated networks with an independent oracle (Hypothesis, shrinking)",
    "state": "stateful property-based testing against a reference model (Hypothesis, shrinking)",
}
KIND = {f"C{i:02d}": "opt" for i in range(1, 17)} | {"C23": "state", "C24": "state", "C35": "state"}
NOT = {}

props = [json.loads(x) for x in open(os.path.join(HERE, "properties.jsonl"))]
checks, na = [], []
for p in props:
    i = p["id"]
    if os.path.exists(os.path.join(HERE, "checks", i.lower() + ".py")):
        checks.append({
            "property": i,
            "quick_cmd": f"python3 run.py {i} --tier quick",
            "thorough_cmd": f"python3 run.py {i} --tier thorough",
            "evidence_file": f"evidence/{i}.json",
            "technique": TECH[KIND.get(i, "def")],
            "level": "exploration",
            "level_note": NOTES.get(i, OPTN),
        })
    else:
        na.append({"property": i, "reason": NOT.get(i, "the check is not built yet; property-based testing applies")})
m = {"version": 1, "setup_cmd": "python3 tools/setup.py", "checks": checks, "not_applicable": na,
     "notes": "No hooks in /repo. known_findings.json lists findings and repaired defects; see DESIGN.md."}
with open(os.path.join(HERE, "MANIFEST.json"), "w") as f:
    json.dump(m, f, indent=1)
    f.write("\n")
print(len(checks), "checks", len(na), "not claimed")
