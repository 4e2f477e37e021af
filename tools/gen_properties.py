"""Writes /verif/properties.jsonl (single source for the property texts)."""
import json, os

P = []


def prop(id, title, statement, over, text, why, files, mech, state=(), observe=()):
    assert len(title) <= 80, (id, len(title))
    P.append(
        {
            "id": id,
            "title": title,
            "statement": statement,
            "quantifier": {"over": over, "text": text},
            "why_tests_cant": why,
            "anchors": {
                "files": files,
                "mechanism": [{"name": a, "where": b} for a, b in mech],
                **({"state": [{"name": a, "meaning": b, "where": c} for a, b, c in state]} if state else {}),
                **({"observe_at": list(observe)} if observe else {}),
            },
        }
    )


OPT = "pypsa/optimization/optimize.py"
CON = "pypsa/optimization/constraints.py"
VAR = "pypsa/optimization/variables.py"
GLO = "pypsa/optimization/global_constraints.py"
ABS = "pypsa/optimization/abstract.py"
NETW = "pypsa/networks.py"
PF = "pypsa/pf.py"

prop("C01", "Nodal energy balance in every optimised dispatch",
     "After every successful optimisation, at every bus and snapshot the signed dispatch of all attached active one-port components (generators, storage, stores, loads, with their signs) plus the power arriving over every active line, transformer and every port of every active link (with that port's, possibly time-dependent, efficiency) sums to zero. The reported net injection of each bus, the terminal powers of each branch and the dispatch of each load agree with that balance. An unservable load makes the optimisation report infeasibility or raise an error, never a result that silently drops energy.",
     ["inputs", "configurations"],
     "all networks mixing any number of generators, loads, stores, storage units, lines, transformers and multi-port links with signs, efficiencies, time series, inactive components and snapshot selections",
     "Tests optimise a few fixed example networks; the balance has to hold for every combination of component type, sign, port, efficiency and activity, several of which (multi-port links on the same bus, negative signs, inactive assets) appear in no test.",
     [CON, OPT, NETW], [("define_nodal_balance_constraints", CON), ("assign_solution/post_processing", OPT)],
     [("buses_t.p, *_t.p, *_t.p0..pN", "reported injections and flows", OPT)], ["component time series after n.optimize()"])

prop("C02", "Dispatch and flows respect operational limits and activity",
     "After every successful optimisation each component's dispatch, flow, energy level or status lies within its (possibly time-dependent) per-unit limits multiplied by its fixed or optimised capacity, a dispatch or energy series prescribed by the user is followed exactly, and a minimum or maximum total energy of a generator is respected with snapshot weightings. A component switched off by its active flag or outside its build year and lifetime takes no part in dispatch in those periods.",
     ["inputs", "configurations"],
     "all capacities, static or per-snapshot limits, prescribed dispatch series, activity flags and energy sums, for fixed and extendable components of every class",
     "Tests compare objective values of fixed examples; limits must hold for every mixture of static and time-varying attribute, prescribed value and inactive component.",
     [CON, VAR, "pypsa/descriptors.py"], [("define_operational_constraints_*", CON), ("define_fixed_operation_constraints, define_total_supply_constraints", CON), ("get_bounds_pu, get_activity_mask", "pypsa/descriptors.py")])

prop("C03", "The optimisation finds the true least-cost solution",
     "For every network, the total system cost found by the optimisation (linear, mixed-integer or quadratic) equals the minimum of the mathematical problem that the documentation states for the same data, and the optimisation is reported as infeasible exactly if that problem has no solution. The reported objective together with the reported constant equals the cost recomputed from the reported dispatch, status and capacities and the user's cost data and snapshot weightings.",
     ["inputs", "configurations"],
     "all small networks with any mixture of component types, cost terms (marginal, quadratic, storage, spill, stand-by, start-up, shut-down, capital), weightings and limits",
     "Unit tests know the optimum of a handful of instances; equality with an independently formulated problem must hold for all data and all mixtures of features.",
     [OPT, CON, VAR], [("define_objective", OPT), ("create_model/solve_model", OPT)], (), ["n.objective", "n.objective_constant", "status, condition"])

prop("C04", "Storage unit energy accounting",
     "After every optimisation the state of charge of every storage unit follows, snapshot by snapshot, from the previous one by standing losses over the elapsed hours, charging and discharging with their efficiencies, inflow and spillage, starting at the given initial value or, if cyclic, at the final value (per investment period when so configured). It stays between zero and the capacity times the storage duration, spillage never exceeds inflow, prescribed states of charge are met, and cost-optimal dispatch exploits exactly this freedom.",
     ["inputs", "configurations", "histories"],
     "all parameter combinations (efficiencies, standing loss, inflow, cyclic or initial, per period or not, prescribed levels, weightings, extendable or fixed) and horizons",
     "Tests cover few parameter combinations with unit weightings; recursion, wrap-around and weighting interplay must hold for all.",
     [CON], [("define_storage_unit_constraints", CON)], [("storage_units_t.state_of_charge", "stored energy", CON)])

prop("C05", "Store energy accounting",
     "After every optimisation the energy in every store follows, snapshot by snapshot, from the previous one by standing losses over the elapsed hours minus the power delivered times the elapsed hours, starting at the given initial value or, if cyclic, at the final value (per investment period when so configured). It stays within its per-unit energy limits times the fixed or optimised capacity, prescribed values are met, and cost-optimal dispatch exploits exactly this freedom.",
     ["inputs", "configurations", "histories"],
     "all parameter combinations (standing loss, cyclic or initial, per period or not, negative minimum levels, weightings, signs, extendable or fixed) and horizons",
     "Same as for storage units: the tests fix a few combinations, the recursion has to hold for all.",
     [CON], [("define_store_constraints", CON)], [("stores_t.e", "stored energy", CON)])

prop("C06", "Optimised passive flows are the linear power flow",
     "In every optimised network the flows on lines and transformers obey Kirchhoff's voltage law for their impedances (reactance in AC parts, resistance in DC parts, in consistent per-unit across voltage levels and including tap ratios), so that a subsequent linear power flow with the optimised injections reproduces the same flows when there are no phase shifts. This holds for every meshed, parallel, radial or disconnected topology, independently of the order in which components were added and with the reported voltage angles consistent with the flows.",
     ["inputs", "configurations"],
     "all topologies with cycles, parallel branches, several sub-networks, AC and DC parts, several voltage levels, inactive branches, investment periods",
     "Tests use a few meshed grids; cycle bases and impedance scaling depend on the topology and on set ordering.",
     [CON, NETW, "pypsa/graph.py"], [("define_kirchhoff_voltage_constraints", CON), ("find_cycles", NETW)])

prop("C07", "Unit commitment logic",
     "For every committable generator and link the optimised status is binary, dispatch lies between the minimum and maximum output of a unit that is on and is zero when off, every change of status (including against the status before the horizon) is recorded as a start-up or shut-down and charged, and nothing else is charged as one, and minimum up and down times hold, including the part inherited from the time before the horizon. The resulting cost is the optimum of the documented unit-commitment problem, also in the linearised relaxation which never costs more than the integer problem.",
     ["inputs", "histories", "configurations"],
     "all status histories over a horizon, all combinations of up/down times, previous status, start-up/shut-down/stand-by cost, ramp limits and minimum loading",
     "Tests fix seven or so small instances; the window constraints and boundary conditions depend on every combination of times, horizon lengths and history.",
     [CON, OPT], [("define_operational_constraints_for_committables", CON)], [("generators_t.status/start_up/shut_down", "commitment", VAR)])

prop("C08", "Ramp limits",
     "After every optimisation the change of dispatch of a generator or link between consecutive snapshots never exceeds its ramp-up or ramp-down limit (static, or per snapshot where supported) times its fixed or optimised capacity, with the start-up and shut-down limits applying to committable units at status changes, also across the border between consecutive rolling windows. Ramp limits restrict nothing else: the optimum equals that of the documented problem.",
     ["inputs", "histories", "configurations"],
     "all mixtures of up/down limits on fixed, extendable and committable components, static and time-varying, in single and rolling optimisations",
     "Tests cover single limits on one or two generators; the limits interact with commitment, extendability, missing values and window borders.",
     [CON], [("define_ramp_limit_constraints", CON)])

prop("C09", "Capacity expansion respects bounds, modules and capital cost",
     "The optimised capacity of every extendable component lies within its bounds, is an integer number of modules where modular, equals a prescribed capacity where given, limits the operation of that component, and equals the given capacity for components that are not extendable. The cost counts capital cost exactly once per unit of optimised capacity, relative to the reported constant for existing capacity, and the resulting plan is the true optimum.",
     ["inputs", "configurations"],
     "all extendable classes with bounds, modules, prescribed capacities, existing capacity, inactive assets and negative or zero costs",
     "Tests check some classes singly; every class has its own naming and code path.",
     [CON, VAR, OPT], [("define_nominal_constraints_for_extendables, define_modular_constraints, define_fixed_nominal_constraints", CON)], [("*_nom_opt", "optimised capacity", OPT)])

prop("C10", "Global constraints hold with the documented meaning",
     "Every global constraint (primary energy or emission budgets, operational limits, transmission volume or cost limits, technology capacity limits) and every bus-level or carrier growth capacity limit holds in the optimised result when evaluated from dispatch, weightings, efficiencies, storage depletion and capacities as documented, with its sense and its investment period. The optimum equals that of the problem with exactly these constraints, so that slack constraints change nothing.",
     ["inputs", "configurations"],
     "all types, senses, carriers, investment periods and component mixtures including storage depletion and inactive or non-extendable assets",
     "Tests check one or two instances for each type.",
     [GLO], [("define_primary_energy_limit, define_operational_limit, define_transmission_volume_expansion_limit, define_tech_capacity_expansion_limit, define_nominal_constraints_per_bus_carrier, define_growth_limit", GLO)], [("global_constraints.mu", "shadow price", GLO)])

prop("C11", "Multi-investment-period planning",
     "In an optimisation over several investment periods a component is available exactly in the periods between its build year and the end of its lifetime, its capacity is one number for all of these periods, and its capital and operating costs enter with the weighting of the periods in which it is active. Energy balance, storage rules and limits hold in each period, and the optimum equals that of the documented pathway problem.",
     ["inputs", "configurations"],
     "all choices of periods, period weightings, build years, lifetimes, extendable and fixed assets of all classes",
     "Tests use one network with three periods; activity and weighting combinations are unbounded.",
     [OPT, CON, "pypsa/descriptors.py", "pypsa/components/components.py"], [("get_active_assets / get_activity_mask", "pypsa/descriptors.py"), ("define_objective", OPT)])

prop("C12", "Transmission loss approximation",
     "When losses are enabled with a number of tangents, each passive branch has a non-negative loss that is at least every tangent of the quadratic loss curve at the equally spaced points documented and at most the loss at full loading, flow plus loss stays within the rating, and the loss is drawn in equal halves from both end buses. The reported powers at the two ends of each branch differ by exactly the loss, and the optimum equals that of this problem.",
     ["inputs", "configurations"],
     "all tangent numbers, resistances, ratings, fixed and extendable lines and transformers, snapshot subsets",
     "Tests compare one network's losses; transformers, extendable ratings and subsets of snapshots are not covered.",
     [CON, OPT], [("define_loss_constraints", CON), ("post_processing", OPT)])

prop("C13", "Marginal prices and shadow prices are true duals",
     "For every linear problem the reported nodal price is, per weighted hour, a subgradient of optimal total cost with respect to load at that bus and snapshot, and the shadow price of each global constraint is one with respect to its right-hand side. Prices support the dispatch: no active component could earn more at the reported prices within its own limits.",
     ["inputs", "configurations"],
     "all linear networks, snapshot weightings, investment periods and perturbations of load or right-hand sides",
     "Tests compare prices in single examples with unit weights; the duality relation must hold at every bus, snapshot and weighting.",
     [OPT, GLO], [("assign_duals", OPT)], [("buses_t.marginal_price, global_constraints.mu", "dual values", OPT)])

prop("C14", "Snapshot subsets and rolling-horizon optimisation",
     "Optimising a subset of snapshots gives the optimum of the problem restricted to them and leaves every result of other snapshots as it was. A rolling-horizon run optimises consecutive windows, each covering its documented snapshots and starting from the storage levels, unit status and dispatch that the previous windows left, so that stitched results respect energy accounting, commitment and ramping across window borders.",
     ["inputs", "histories", "configurations"],
     "all window lengths, overlaps, horizon sizes and component mixtures, and sequences of optimisations on one network",
     "Tests try a few window sizes on one or two networks; state hand-over depends on histories.",
     [ABS, OPT, CON], [("optimize_with_rolling_horizon", ABS), ("assign_solution/set_from_frame", OPT)])

prop("C15", "Security-constrained optimisation survives every listed outage",
     "A security-constrained optimisation finds a dispatch whose flows stay within the limits of each monitored passive branch both without and with any single listed branch outage, as re-computed by an independent linear power flow with that branch removed and injections unchanged. Its cost equals the minimum over all such dispatches and is never below the cost without security constraints.",
     ["inputs", "fault_sequences"],
     "all meshed networks, outage lists (lines, transformers, several sub-networks), fixed and extendable capacities",
     "Tests check one network; outage factors depend on every topology and impedance.",
     [ABS, "pypsa/contingency.py", PF], [("optimize_security_constrained", ABS), ("calculate_BODF", "pypsa/contingency.py")])

prop("C16", "Near-optimal alternatives stay within the cost budget",
     "A near-optimal alternative minimises or maximises the user's weighted sum of variables subject to all original constraints and to total system cost of at most one plus the slack times the optimal cost. The alternative's weighted sum is at least as good as at the cost optimum and equals the true optimum of that budgeted problem, and all results satisfy the network's constraints.",
     ["inputs", "configurations"],
     "all networks, slacks, senses and weights over capacities and dispatch",
     "Tests check that some capacity decreases in one example.",
     [ABS], [("optimize_mga", ABS)])

prop("C17", "Results do not depend on representation of the same system",
     "Renaming components, adding them in another order, expressing a constant as static value or as time series, swapping a line's end points, or splitting a component into equal parallel parts leaves the optimal cost unchanged and transforms the results accordingly. Scaling all costs scales the optimal cost, and inactive components give the same result as if they were absent.",
     ["inputs", "configurations"],
     "all networks and all such symmetries of representation",
     "Tests never run one system in two representations; the relation quantifies over pairs of inputs.",
     [OPT, CON, VAR, NETW], [("variable/constraint alignment by component index", OPT)])

prop("C18", "Linear power flow solves the linearised network equations",
     "For every network the linear power flow returns voltage angles and branch flows that satisfy the linear power flow equations (including phase shifts, tap ratios, shunt conductances, and DC parts by resistance), balances power at each bus of each connected part with the mismatch taken up by the slack bus alone, and leaves given set points of other components untouched. Inactive branches carry nothing and the result of each snapshot depends on that snapshot only.",
     ["inputs", "configurations"],
     "all topologies, impedances, set points, slack choices, sub-networks, controllable links and snapshot selections",
     "Tests check fixed grids; the equations must hold for all topologies and set points.",
     [PF, NETW], [("SubNetwork.lpf, calculate_B_H, network_lpf", PF)], [("lines_t.p0, buses_t.v_ang", "flows and angles", PF)])

prop("C19", "Non-linear power flow solves the AC power flow equations",
     "Whenever the non-linear power flow reports convergence, bus voltages, injections and branch powers satisfy the AC power flow equations of the documented line and transformer models (pi or T model, taps, phase shifts, shunts), set points are met at PQ buses, active power and voltage magnitude at PV buses, and voltage at the slack bus. With a distributed slack the mismatch is shared in the requested proportion, and the reported powers of generators, storage, loads and links are consistent with bus injections.",
     ["inputs", "configurations"],
     "all networks with transformers, tap sides, models, phase shifts, shunts, control types, slack distributions and snapshots",
     "Tests compare a few grids with reference data; every combination of transformer model, tap side, control and slack matters.",
     [PF], [("newton_raphson_sparse, SubNetwork.pf, calculate_Y, apply_transformer_t_model", PF)])

prop("C20", "Derived electrical parameters follow the documented formulas",
     "For every line, transformer and shunt impedance the effective and per-unit parameters follow the documented formulas from physical values, voltage levels, ratings, standard types, length, number of parallel circuits and tap positions. Components without a type keep the user's values.",
     ["inputs"],
     "all standard and user-defined line and transformer types, lengths, parallel counts, tap positions, voltages and ratings",
     "Tests check three or four types by hand.",
     [PF, "pypsa/components/types.py"], [("calculate_dependent_values, apply_line_types, apply_transformer_types", PF)])

prop("C21", "Sensitivity and outage factors predict re-computed power flows",
     "The power transfer distribution factors times bus injections equal linear power flow results for every connected network, and the branch outage factors predict the flows after any non-islanding single branch outage as obtained by removing that branch and re-computing the linear power flow. The contingency power flow reports exactly these post-outage flows.",
     ["inputs", "fault_sequences"],
     "all connected meshed networks, injections and single-branch outages",
     "Tests check one network and a few outages.",
     [PF, "pypsa/contingency.py"], [("calculate_PTDF", PF), ("calculate_BODF, network_lpf_contingency", "pypsa/contingency.py")])

prop("C22", "Topology determination matches graph connectivity",
     "The sub-networks found are exactly the connected components of the graph of active passive branches; every bus, line and transformer belongs to the right one, and controllable links never connect sub-networks. Incidence, adjacency and cycle matrices describe the same graph: cycles form a basis of the cycle space and every listed cycle is closed.",
     ["inputs", "configurations", "histories"],
     "all graphs including parallel branches, isolated buses, inactive branches and investment periods, and repeated determination after edits",
     "Tests check two small graphs.",
     [NETW, "pypsa/graph.py"], [("determine_network_topology, find_cycles", NETW), ("adjacency_matrix, incidence_matrix, graph", "pypsa/graph.py")])

prop("C23", "Adding, removing and editing components is like editing tables",
     "After any sequence of additions (single or many, with static values, series or frames), removals, overwrites and attribute edits, a network contains exactly the components added and not removed, each with the values given or the documented defaults and types, with time series aligned to the snapshots and no leftovers of removed components. Rejected operations (duplicate names in one call, data of the wrong shape or labels) leave the network as it was.",
     ["histories", "inputs"],
     "all sequences of add, remove, overwrite and edit operations with any argument form, for every component class",
     "Tests run single operations; the store's state must agree with a model over all histories.",
     [NETW, "pypsa/components/components.py", "pypsa/components/store.py"], [("Network.add/remove/_import_components_from_df/_import_series_from_df", NETW)], [("n.<list_name>, n.<list_name>_t", "static and dynamic tables", NETW)])

prop("C24", "Changing snapshots keeps data aligned",
     "Setting snapshots, investment periods or weightings keeps all existing values of retained snapshots, gives documented defaults for new ones, keeps all time-dependent tables and weightings on the same index, and rejects invalid settings. For every attribute the time-dependent view of a component returns its series where one exists and its static value otherwise, for every selection of snapshots and components.",
     ["histories", "inputs"],
     "all sequences of snapshot, period and weighting changes and all mixtures of static and dynamic attributes",
     "Tests cover a few transitions between index kinds.",
     [NETW, "pypsa/descriptors.py", "pypsa/components/components.py"], [("set_snapshots, investment_periods setter", NETW), ("get_switchable_as_dense", "pypsa/descriptors.py")])

prop("C25", "Copies, slices and merges are faithful and independent",
     "A copy equals the original and shares no mutable state with it, equality holds exactly between networks with the same data, and selecting snapshots or buses gives the restriction of the data to them. Merging two networks with disjoint components gives their union with all attributes and series and rejects overlaps or mismatched snapshots.",
     ["inputs", "histories"],
     "all networks, selections, copies followed by edits on either side, and pairs of networks",
     "Tests copy example networks without edits on both sides; single-cell differences across all tables are not sampled.",
     [NETW], [("copy, __getitem__, __eq__/equals, merge", NETW)])

prop("C26", "Saved networks load back unchanged",
     "Writing any network to CSV, NetCDF, HDF5 or Excel and reading it back gives an equal network: the same components, values, types, series, snapshots, weightings, periods, custom attributes, meta data, coordinate system and optimisation results. Writing over an existing target leaves no trace of the network that was there before, and no format changes the network being written.",
     ["inputs", "histories"],
     "all networks including unusual names, missing values, infinite values, investment periods, stochastic typing of custom columns, empty tables, and repeated export to one target",
     "Tests round-trip one or two example networks; type and emptiness corner cases and stale files are not covered.",
     ["pypsa/io.py"], [("Exporter*/Importer* classes, _export_to_exporter, _import_from_importer", "pypsa/io.py")])

prop("C27", "Statistics agree with the results they summarise",
     "For every solved network each statistic (capacities, expenditures, supply, withdrawal, transmission, energy balance, curtailment, capacity factor, revenue, market value, expanded and installed values) equals the value recomputed directly from component tables with the documented weightings and signs, for each component and in total. Energy balance sums to zero per bus carrier, and capital plus operational expenditure equal total system cost.",
     ["inputs", "configurations"],
     "all solved networks with mixtures of components, weightings, investment periods, inactive components and bus carriers",
     "Tests mostly check that statistics run or that one number matches.",
     ["pypsa/statistics/expressions.py", "pypsa/statistics/abstract.py"], [("StatisticsAccessor methods", "pypsa/statistics/expressions.py")])

prop("C28", "Grouping, filtering and aggregating statistics is consistent",
     "For each statistic, the grouped values add up to the ungrouped total under every grouping, filtering by carrier, bus carrier or component returns exactly the matching part, time-resolved values aggregate to the time-aggregated ones, and branch ports are attributed to their own bus. Options such as nice names, rounding and dropping zeros change only presentation.",
     ["inputs", "configurations"],
     "all groupers, filters, aggregation choices, ports and options on all networks",
     "Tests sample few grouper/filter combinations.",
     ["pypsa/statistics/abstract.py", "pypsa/statistics/expressions.py", "pypsa/statistics/grouping.py"], [("_aggregate_components, filter_bus_carrier", "pypsa/statistics/abstract.py"), ("Groupers", "pypsa/statistics/grouping.py")])

prop("C29", "Spatial clustering conserves the system",
     "Clustering by any bus mapping yields one bus per cluster, maps every component to the cluster of its bus, and conserves total load, generation and storage capacity, potentials, capacity-weighted availability and cost, per carrier and cluster, and transmission capacity between clusters; connections inside a cluster vanish and none are invented. The identity mapping changes nothing essential, and clustering algorithms return a valid mapping with the requested number of clusters.",
     ["inputs", "configurations"],
     "all networks, bus maps, strategies, weightings and algorithms",
     "Tests check sizes or two examples.",
     ["pypsa/clustering/spatial.py"], [("get_clustering_from_busmap, aggregateoneport, aggregatelines, aggregatebuses", "pypsa/clustering/spatial.py")])

prop("C30", "Imported grid cases solve to the same power flow as their source",
     "A PYPOWER case imported into a network gives the same voltages, angles and branch flows as solving the case with PYPOWER itself, for all bus types, taps, phase shifts and shunts (the status of equipment is documented as not supported). A pandapower grid without switches and with neutral taps imported into a network has the same components and set points and the same power flow, with its own or with standard types.",
     ["inputs"],
     "all valid small PYPOWER cases and pandapower grids",
     "Tests import one or two library cases.",
     ["pypsa/io.py", PF], [("import_from_pypower_ppc, import_from_pandapower_net", "pypsa/io.py")])

prop("C31", "Consistency checks flag exactly the inconsistent networks",
     "A network with valid data passes the consistency check silently, and each documented inconsistency (unknown buses or carriers, missing impedances, contradictory bounds, misaligned time series, missing shapes, disconnected buses, infeasible ramp or energy limits) is reported, as a warning or, when requested as strict, as an error. Checking changes nothing in the network except values derived from other inputs (per-unit impedances, type parameters, default carriers).",
     ["inputs", "configurations"],
     "all networks with any single injected inconsistency in any component and attribute, and all strictness selections",
     "Tests inject one instance per check.",
     ["pypsa/consistency.py"], [("consistency_check and check_for_* functions", "pypsa/consistency.py")])

prop("C32", "Model-building workflows are equivalent to direct optimisation",
     "Building a model, optionally adding user constraints, and solving it separately gives the same outcome as direct optimisation with those constraints; repeated optimisation of one network gives the same outcome as the first. Fixing optimal capacities or optimal dispatch and re-optimising reproduces the cost, adding load shedding makes every such network feasible at the stated price without changing it otherwise, and exporting does not alter results.",
     ["histories", "inputs"],
     "all networks and all sequences of build, solve, fix, extend and re-solve operations",
     "Tests run each workflow once on one network.",
     [OPT, ABS], [("create_model, solve_model, fix_optimal_capacities, fix_optimal_dispatch, add_load_shedding, optimize_transmission_expansion_iteratively", ABS)])

prop("C33", "Model expressions agree with statistics of the solution",
     "For every network the symbolic expressions offered for building constraints (capacities, expenditures, supply, withdrawal, energy balance, transmission, operation, curtailment) evaluate, at the optimal solution, to the statistic of the same name for the same grouping, filter and aggregation. A constraint placed on an expression therefore bounds the reported statistic.",
     ["inputs", "configurations"],
     "all networks, groupings and filters supported by both accessors",
     "Tests check few expressions on one network.",
     ["pypsa/optimization/expressions.py", "pypsa/statistics/expressions.py"], [("StatisticExpressionsAccessor", "pypsa/optimization/expressions.py")])

prop("C34", "Renaming components keeps all references",
     "Renaming buses keeps every attached component, port, static attribute and time series connected to the renamed bus, changes nothing else, and leaves power flow and optimisation results the same up to the new names. Renaming other components changes only their own identity in static data, time series and references to them.",
     ["inputs", "histories"],
     "all networks, all component classes, all partial or complete name mappings including swaps",
     "Tests rename one bus in one network.",
     [NETW, "pypsa/components/components.py"], [("rename_component_names", NETW)])

prop("C35", "Options and geographic helpers",
     "Options behave as a nested store: setting, reading, resetting and temporarily overriding an option affects exactly that option, and leaving a temporary override restores the previous values, also after exceptions and when overrides nest. Great-circle distances are symmetric, zero only for identical points, and agree with the spherical formula for single points and for arrays, and a bounding box encloses exactly all located buses plus its margin.",
     ["inputs", "histories"],
     "all sequences of option operations and all coordinate arrays",
     "Tests sample single calls.",
     ["pypsa/_options.py", "pypsa/geo.py"], [("OptionsNode, option_context", "pypsa/_options.py"), ("haversine, haversine_pts, compute_bbox", "pypsa/geo.py")])

if __name__ == "__main__":
    here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
    with open(os.path.join(here, "properties.jsonl"), "w") as f:
        for p in P:
            f.write(json.dumps(p) + "\n")
    print(len(P))
