From b82c92e8c6f8954549daff666d122b0e5dbb3019 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:55:48 +0000
Subject: [PATCH 001/103] fix: initialise static efficiency of additional link
 ports when ports are first added

---
 pypsa/descriptors.py | 2 +-
 pypsa/io.py          | 6 +++---
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/pypsa/descriptors.py b/pypsa/descriptors.py
index c8a3188..51efae7 100644
--- a/pypsa/descriptors.py
+++ b/pypsa/descriptors.py
@@ -456,7 +456,7 @@ def update_linkports_component_attrs(
             df = pd.DataFrame(index=n.snapshots, columns=[], dtype=float)
             df.columns.name = c
             n.dynamic(c)[target] = df
-        elif attr == "bus" and target not in n.static(c).columns:
+        if attr in ["bus", "efficiency"] and target not in n.static(c).columns:
             n.static(c)[target] = n.components[c]["attrs"].loc[target, "default"]
 
 
diff --git a/pypsa/io.py b/pypsa/io.py
index b6c9b9b..861098d 100644
--- a/pypsa/io.py
+++ b/pypsa/io.py
@@ -1414,14 +1414,14 @@ def _import_components_from_df(
     cls_name : string
         Name of class of component, e.g. ``"Line", "Bus", "Generator", "StorageUnit"``
     """
+    if cls_name == "Link":
+        update_linkports_component_attrs(n, where=df)
+
     attrs = n.components[cls_name]["attrs"]
 
     static_attrs = attrs[attrs.static].drop("name")
     non_static_attrs = attrs[~attrs.static]
 
-    if cls_name == "Link":
-        update_linkports_component_attrs(n, where=df)
-
     # Clean dataframe and ensure correct types
     df = pd.DataFrame(df)
     df.index = df.index.astype(str)
-- 
2.43.0


From c6942fd1e68978baeefd2a09d884eff0f57de0df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:56:03 +0000
Subject: [PATCH 002/103] fix: report zero power for inactive loads after
 optimisation

---
 pypsa/optimization/optimize.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pypsa/optimization/optimize.py b/pypsa/optimization/optimize.py
index d42280a..ce56a79 100644
--- a/pypsa/optimization/optimize.py
+++ b/pypsa/optimization/optimize.py
@@ -467,7 +467,8 @@ def post_processing(n: Network) -> None:
 
     # load
     if len(n.loads):
-        set_from_frame(n, "Load", "p", get_as_dense(n, "Load", "p_set", sns))
+        p_set = get_as_dense(n, "Load", "p_set", sns)
+        set_from_frame(n, "Load", "p", p_set * n.loads.active)
 
     # line losses
     if "Line-loss" in n.model.variables:
-- 
2.43.0


From f089b06961b7e3764467811a6a84abd31c97e69a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:56:03 +0000
Subject: [PATCH 003/103] fix: add losses of all passive branches for the
 optimised snapshots only

---
 pypsa/optimization/optimize.py | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/pypsa/optimization/optimize.py b/pypsa/optimization/optimize.py
index ce56a79..63a7fcf 100644
--- a/pypsa/optimization/optimize.py
+++ b/pypsa/optimization/optimize.py
@@ -470,11 +470,12 @@ def post_processing(n: Network) -> None:
         p_set = get_as_dense(n, "Load", "p_set", sns)
         set_from_frame(n, "Load", "p", p_set * n.loads.active)
 
-    # line losses
-    if "Line-loss" in n.model.variables:
-        losses = n.model["Line-loss"].solution.to_pandas()
-        n.lines_t.p0 += losses / 2
-        n.lines_t.p1 += losses / 2
+    # transmission losses
+    for c in n.passive_branch_components:
+        if f"{c}-loss" in n.model.variables:
+            losses = n.model[f"{c}-loss"].solution.to_pandas().fillna(0.0)
+            for attr in ["p0", "p1"]:
+                n.dynamic(c)[attr].loc[sns, losses.columns] += losses / 2
 
     # recalculate injection
     ca = [
-- 
2.43.0


From a5d9eb425252f06d921ab7c431084d2196015883 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:58:47 +0000
Subject: [PATCH 004/103] fix: keep all branches in adjacency matrix if one
 component has no active branches

---
 pypsa/graph.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/pypsa/graph.py b/pypsa/graph.py
index a3c85f2..a367077 100644
--- a/pypsa/graph.py
+++ b/pypsa/graph.py
@@ -137,7 +137,6 @@ def adjacency_matrix(
         raise TypeError(" must be called with a Network or a SubNetwork")
 
     no_buses = len(busorder)
-    no_branches = 0
     bus0_inds = []
     bus1_inds = []
     weight_vals = []
@@ -152,7 +151,7 @@ def adjacency_matrix(
             np.ones(no_branches) if weights is None else weights[c.name][sel].values
         )
 
-    if no_branches == 0:
+    if not bus0_inds:
         return sp.sparse.coo_matrix((no_buses, no_buses))
 
     bus0_inds = np.concatenate(bus0_inds)
-- 
2.43.0


From 790c4260e3703ace155c87df967d710e476fa447 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:58:47 +0000
Subject: [PATCH 005/103] fix: allow spill cost in networks without any inflow

---
 pypsa/optimization/optimize.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pypsa/optimization/optimize.py b/pypsa/optimization/optimize.py
index 63a7fcf..c1fa675 100644
--- a/pypsa/optimization/optimize.py
+++ b/pypsa/optimization/optimize.py
@@ -131,7 +131,7 @@ def define_objective(n: Network, sns: pd.Index) -> None:
                 .loc[:, lambda ds: (ds != 0).any()]
                 .mul(weighting, axis=0)
             )
-            if cost.empty:
+            if cost.empty or f"{c}-{attr}" not in m.variables:
                 continue
             operation = m[f"{c}-{attr}"].sel({"snapshot": sns, c: cost.columns})
             objective.append((operation * cost).sum())
-- 
2.43.0


From b94873f3f4dded4e0968ea89f196bd09e17ec7eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:03:21 +0000
Subject: [PATCH 006/103] fix: ignore inactive branches when determining cycles

---
 pypsa/pf.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pypsa/pf.py b/pypsa/pf.py
index 850e69f..fc8c8d8 100644
--- a/pypsa/pf.py
+++ b/pypsa/pf.py
@@ -1381,13 +1381,13 @@ def find_cycles(sub_network: SubNetwork, weight: str = "x_pu") -> None:
     cycles from the MultiGraph must be collected separately (for cases
     where there are multiple lines between the same pairs of buses).
 
-    Cycles with infinite impedance are skipped.
+    Cycles with infinite impedance or inactive branches are skipped.
     """
     branches_bus0 = sub_network.branches()["bus0"]
     branches_i = branches_bus0.index
 
     # reduce to a non-multi-graph for cycles with > 2 edges
-    mgraph = sub_network.graph(weight=weight, inf_weight=False)
+    mgraph = sub_network.graph(weight=weight, inf_weight=False, include_inactive=False)
     graph = nx.Graph(mgraph)
 
     cycles = nx.cycle_basis(graph)
-- 
2.43.0


From fad833ff86b4d0c6a57953a66b2f6b763a133760 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:03:30 +0000
Subject: [PATCH 007/103] fix: skip voltage angles if no sub-network has any
 active branch

---
 pypsa/optimization/optimize.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pypsa/optimization/optimize.py b/pypsa/optimization/optimize.py
index c1fa675..3644b16 100644
--- a/pypsa/optimization/optimize.py
+++ b/pypsa/optimization/optimize.py
@@ -517,7 +517,7 @@ def post_processing(n: Network) -> None:
     # TODO: if multi investment optimization, the network topology is not the necessarily the same,
     # i.e. one has to iterate over the periods in order to get the correct angles.
     # Determine_network_topology is not necessarily called (only if KVL was assigned)
-    if "obj" in n.sub_networks:
+    if "obj" in n.sub_networks and not n.sub_networks.empty:
         n.buses_t.v_ang = pd.concat(
             [v_ang_for_(sub) for sub in n.sub_networks.obj], axis=1
         ).reindex(columns=n.buses.index, fill_value=0.0)
-- 
2.43.0


From ff52014c26f834aaa9c13e8b715d245799d5cc7a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:46:29 +0000
Subject: [PATCH 008/103] fix: apply start-up, shut-down and time-dependent
 ramp limits of committable units

---
 pypsa/optimization/constraints.py | 35 +++++++++++++++++++------------
 1 file changed, 22 insertions(+), 13 deletions(-)

diff --git a/pypsa/optimization/constraints.py b/pypsa/optimization/constraints.py
index 1050442..e1a440a 100644
--- a/pypsa/optimization/constraints.py
+++ b/pypsa/optimization/constraints.py
@@ -408,10 +408,15 @@ def define_ramp_limit_constraints(n: Network, sns: pd.Index, c: str, attr: str)
     ramp_limit_up = get_as_dense(n, c, "ramp_limit_up", sns)
     ramp_limit_down = get_as_dense(n, c, "ramp_limit_down", sns)
 
-    if (ramp_limit_up.isnull().all() & ramp_limit_down.isnull().all()).all():
-        return
-    if (ramp_limit_up.eq(1).all() & ramp_limit_down.eq(1).all()).all():
-        return
+    com_i = n.get_committable_i(c)
+    has_start_up_limit = n.static(c).ramp_limit_start_up[com_i].ne(1)
+    has_shut_down_limit = n.static(c).ramp_limit_shut_down[com_i].ne(1)
+
+    if not (has_start_up_limit.any() or has_shut_down_limit.any()):
+        if (ramp_limit_up.isnull().all() & ramp_limit_down.isnull().all()).all():
+            return
+        if (ramp_limit_up.eq(1).all() & ramp_limit_down.eq(1).all()).all():
+            return
 
     # ---------------- Check if ramping is at start of n.snapshots --------------- #
 
@@ -447,7 +452,6 @@ def define_ramp_limit_constraints(n: Network, sns: pd.Index, c: str, attr: str)
         def p_previous(idx: pd.Index) -> DataArray:
             return reindex(p, c, idx).shift(snapshot=1).sel(snapshot=sns[1:])
 
-    com_i = n.get_committable_i(c)
     fix_i = n.get_non_extendable_i(c)
     fix_i = fix_i.difference(com_i).rename(fix_i.name)
     ext_i = n.get_extendable_i(c)
@@ -519,9 +523,11 @@ def define_ramp_limit_constraints(n: Network, sns: pd.Index, c: str, attr: str)
     assets = n.static(c).reindex(com_i)
 
     # com up
-    if not assets.ramp_limit_up.isnull().all():
+    ramp_up_com = ramp_limit_up.reindex(active.index, columns=com_i)
+    mask = active.reindex(columns=com_i) & (ramp_up_com.notnull() | has_start_up_limit)
+    if mask.any(axis=None):
         limit_start = assets.eval("ramp_limit_start_up * p_nom").to_xarray()
-        limit_up = assets.eval("ramp_limit_up * p_nom").to_xarray()
+        limit_up = DataArray(ramp_up_com.fillna(1) * assets.p_nom)
 
         status = m[f"{c}-status"].sel(snapshot=active.index)
         status_prev = m[f"{c}-status"].shift(snapshot=1).sel(snapshot=active.index)
@@ -536,17 +542,22 @@ def define_ramp_limit_constraints(n: Network, sns: pd.Index, c: str, attr: str)
         rhs = rhs_start.reindex(columns=com_i)
         if is_rolling_horizon:
             status_start = n.dynamic(c)["status"][com_i].iloc[start_i]
-            rhs.loc[sns[0]] += (limit_up - limit_start) * status_start
+            rhs.loc[sns[0]] += (
+                limit_up.sel(snapshot=sns[0]) - limit_start
+            ) * status_start
 
-        mask = active.reindex(columns=com_i) & assets.ramp_limit_up.notnull()
         m.add_constraints(
             lhs_tuple, "<=", rhs, name=f"{c}-com-{attr}-ramp_limit_up", mask=mask
         )
 
     # com down
-    if not assets.ramp_limit_down.isnull().all():
+    ramp_down_com = ramp_limit_down.reindex(active.index, columns=com_i)
+    mask = active.reindex(columns=com_i) & (
+        ramp_down_com.notnull() | has_shut_down_limit
+    )
+    if mask.any(axis=None):
         limit_shut = assets.eval("ramp_limit_shut_down * p_nom").to_xarray()
-        limit_down = assets.eval("ramp_limit_down * p_nom").to_xarray()
+        limit_down = DataArray(ramp_down_com.fillna(1) * assets.p_nom)
 
         status = m[f"{c}-status"].sel(snapshot=active.index)
         status_prev = m[f"{c}-status"].shift(snapshot=1).sel(snapshot=active.index)
@@ -563,8 +574,6 @@ def define_ramp_limit_constraints(n: Network, sns: pd.Index, c: str, attr: str)
             status_start = n.dynamic(c)["status"][com_i].iloc[start_i]
             rhs.loc[sns[0]] += -limit_shut * status_start
 
-        mask = active.reindex(columns=com_i) & assets.ramp_limit_down.notnull()
-
         m.add_constraints(
             lhs_tuple, ">=", rhs, name=f"{c}-com-{attr}-ramp_limit_down", mask=mask
         )
-- 
2.43.0


From dd52e2697d282f22788402981dc1eab37da17eca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:48:57 +0000
Subject: [PATCH 009/103] fix: correct tightening constraints of the linearised
 unit commitment

---
 pypsa/optimization/constraints.py | 15 +++++++++------
 1 file changed, 9 insertions(+), 6 deletions(-)

diff --git a/pypsa/optimization/constraints.py b/pypsa/optimization/constraints.py
index e1a440a..7cf75d9 100644
--- a/pypsa/optimization/constraints.py
+++ b/pypsa/optimization/constraints.py
@@ -13,7 +13,7 @@ import linopy
 import pandas as pd
 from deprecation import deprecated
 from linopy import LinearExpression, merge
-from numpy import inf, isfinite
+from numpy import inf, isfinite, minimum
 from scipy import sparse
 from xarray import DataArray, Dataset, concat
 
@@ -291,6 +291,9 @@ def define_operational_constraints_for_committables(
         # parameters
         upper_p_ce = upper_p.loc[:, cost_equal]
         lower_p_ce = lower_p.loc[:, cost_equal]
+        # limits may differ between the previous and the current snapshot
+        upper_p_before_ce = upper_p_ce.shift(snapshot=1)
+        lower_p_min_ce = minimum(lower_p_ce, lower_p_ce.shift(snapshot=1))
         ramp_shut_down_ce = ramp_shut_down.loc[cost_equal]
         ramp_start_up_ce = ramp_start_up.loc[cost_equal]
         ramp_up_limit_ce = ramp_up_limit.loc[cost_equal]
@@ -299,7 +302,7 @@ def define_operational_constraints_for_committables(
         lhs = (
             p_ce.shift(snapshot=1)
             - ramp_shut_down_ce * status_ce.shift(snapshot=1)
-            - (upper_p_ce - ramp_shut_down_ce) * (status_ce - start_up_ce)
+            - (upper_p_before_ce - ramp_shut_down_ce) * (status_ce - start_up_ce)
         )
         lhs = lhs.sel(snapshot=sns[1:])
         n.model.add_constraints(
@@ -329,9 +332,9 @@ def define_operational_constraints_for_committables(
         lhs = (
             p_ce
             - p_ce.shift(snapshot=1)
-            - (lower_p_ce + ramp_up_limit_ce) * status_ce
-            + lower_p_ce * status_ce.shift(snapshot=1)
-            + (lower_p_ce + ramp_up_limit_ce - ramp_start_up_ce) * start_up_ce
+            - (lower_p_min_ce + ramp_up_limit_ce) * status_ce
+            + lower_p_min_ce * status_ce.shift(snapshot=1)
+            + (lower_p_min_ce + ramp_up_limit_ce - ramp_start_up_ce) * start_up_ce
         )
         lhs = lhs.sel(snapshot=sns[1:])
         n.model.add_constraints(
@@ -348,7 +351,7 @@ def define_operational_constraints_for_committables(
             - p_ce
             - ramp_shut_down_ce * status_ce.shift(snapshot=1)
             + (ramp_shut_down_ce - ramp_down_limit_ce) * status_ce
-            - (lower_p_ce + ramp_down_limit_ce - ramp_shut_down_ce) * start_up_ce
+            + (lower_p_ce + ramp_down_limit_ce - ramp_shut_down_ce) * start_up_ce
         )
         lhs = lhs.sel(snapshot=sns[1:])
         n.model.add_constraints(
-- 
2.43.0


From 66029dff06039470f1275fee36b6523be2614f32 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:49:41 +0000
Subject: [PATCH 010/103] fix: carry over the commitment before a rolling
 window independent of minimum times

---
 pypsa/optimization/constraints.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/pypsa/optimization/constraints.py b/pypsa/optimization/constraints.py
index 7cf75d9..bb66c37 100644
--- a/pypsa/optimization/constraints.py
+++ b/pypsa/optimization/constraints.py
@@ -182,16 +182,22 @@ def define_operational_constraints_for_committables(
         until_start_up = n.dynamic(c).status.iloc[:start_i][::-1].reindex(columns=com_i)
         ref = range(1, len(until_start_up) + 1)
         up_time_before = until_start_up[until_start_up.cumsum().eq(ref, axis=0)].sum()
+        # online since the first snapshot, add the time before
+        since_start = up_time_before == start_i
+        up_time_before += up_time_before_set.where(since_start, 0)
+        initially_up = up_time_before.astype(bool)
         up_time_before_set = up_time_before.clip(upper=min_up_time_set)
-        initially_up = up_time_before_set.astype(bool)
         # get number of snapshots for generators which are offline before the first regarded snapshot
         until_start_down = ~until_start_up.astype(bool)
         ref = range(1, len(until_start_down) + 1)
         down_time_before = until_start_down[
             until_start_down.cumsum().eq(ref, axis=0)
         ].sum()
+        # offline since the first snapshot, add the time before
+        since_start = down_time_before == start_i
+        down_time_before += down_time_before_set.where(since_start, 0)
+        initially_down = down_time_before.astype(bool)
         down_time_before_set = down_time_before.clip(upper=min_down_time_set)
-        initially_down = down_time_before_set.astype(bool)
 
     # lower dispatch level limit
     lhs_tuple = (1, p), (-lower_p, status)
-- 
2.43.0


From b91b70db01caff95d4c43293964e9367cd2c0871 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:01:46 +0000
Subject: [PATCH 011/103] fix: run power flow if all branches of one component
 in a sub-network are inactive

---
 pypsa/pf.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/pypsa/pf.py b/pypsa/pf.py
index fc8c8d8..063710b 100644
--- a/pypsa/pf.py
+++ b/pypsa/pf.py
@@ -734,6 +734,8 @@ def sub_network_pf(
     s0 = pd.DataFrame(v0 * np.conj(i0), columns=branches_i, index=sns)
     s1 = pd.DataFrame(v1 * np.conj(i1), columns=branches_i, index=sns)
     for c in sub_network.iterate_components(n.passive_branch_components):
+        if c.name not in s0.columns:  # no active branches
+            continue
         s0t = s0.loc[:, c.name]
         s1t = s1.loc[:, c.name]
         n.dynamic(c.name).p0.loc[sns, s0t.columns] = s0t.values.real
@@ -1512,6 +1514,8 @@ def sub_network_lpf(
         )
 
         for c in sub_network.iterate_components(n.passive_branch_components):
+            if c.name not in flows.columns:  # no active branches
+                continue
             f = flows.loc[:, c.name]
             n.dynamic(c.name).p0.loc[sns, f.columns] = f
             n.dynamic(c.name).p1.loc[sns, f.columns] = -f
-- 
2.43.0


From e97a025ea4edf9fda73b77799f0209177366e99b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:01:46 +0000
Subject: [PATCH 012/103] fix: treat bus of a global constraint as optional

---
 pypsa/consistency.py                     | 3 +++
 pypsa/optimization/global_constraints.py | 2 +-
 2 files changed, 4 insertions(+), 1 deletion(-)

diff --git a/pypsa/consistency.py b/pypsa/consistency.py
index 35f5309..1e63704 100644
--- a/pypsa/consistency.py
+++ b/pypsa/consistency.py
@@ -68,6 +68,9 @@ def check_for_unknown_buses(
         # if bus2, bus3... contain empty strings do not warn
         if component.name in n.branch_components and int(attr[-1]) > 1:
             missing &= component.static[attr] != ""
+        # the bus of a global constraint is optional
+        if component.name == "GlobalConstraint":
+            missing &= component.static[attr].notna() & (component.static[attr] != "")
         if missing.any():
             _log_or_raise(
                 strict,
diff --git a/pypsa/optimization/global_constraints.py b/pypsa/optimization/global_constraints.py
index d63b650..d6ea7cb 100644
--- a/pypsa/optimization/global_constraints.py
+++ b/pypsa/optimization/global_constraints.py
@@ -81,7 +81,7 @@ def define_tech_capacity_expansion_limit(n: Network, sns: Sequence) -> None:
 
         for name, glc in glcs_group.iterrows():
             bus = glc.get("bus")
-            if bus is None:
+            if pd.isna(bus) or bus == "":
                 lhs = lhs_per_bus.sum(busdim)
             else:
                 lhs = lhs_per_bus.sel(**{busdim: str(bus)}, drop=True)
-- 
2.43.0


From dfe90c56d7391a6dde46ca6dd54982355736e46a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:15:08 +0000
Subject: [PATCH 013/103] fix: apply technology capacity limits without an
 investment period

---
 pypsa/optimization/global_constraints.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pypsa/optimization/global_constraints.py b/pypsa/optimization/global_constraints.py
index d6ea7cb..b65b22c 100644
--- a/pypsa/optimization/global_constraints.py
+++ b/pypsa/optimization/global_constraints.py
@@ -43,7 +43,8 @@ def define_tech_capacity_expansion_limit(n: Network, sns: Sequence) -> None:
     ]
 
     for (carrier, sense, period), glcs_group in glcs.groupby(
-        ["carrier_attribute", "sense", "investment_period"]
+        ["carrier_attribute", "sense", "investment_period"],
+        dropna=False,
     ):
         period = None if isnan(period) else int(period)
         sign = "=" if sense == "==" else sense
-- 
2.43.0


From 3a6d5b730b9a08f2aa4c87e683fa44f6fadd1f51 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:24:38 +0000
Subject: [PATCH 014/103] fix: align capacity and growth limits of different
 components by bus and carrier

---
 pypsa/optimization/global_constraints.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/pypsa/optimization/global_constraints.py b/pypsa/optimization/global_constraints.py
index b65b22c..fa6982d 100644
--- a/pypsa/optimization/global_constraints.py
+++ b/pypsa/optimization/global_constraints.py
@@ -73,6 +73,8 @@ def define_tech_capacity_expansion_limit(n: Network, sns: Sequence) -> None:
             bus = "bus0" if c in n.branch_components else "bus"
             busmap = static.loc[ext_i, bus].rename(busdim).to_xarray()
             expr = m[var].loc[ext_i].groupby(busmap).sum()
+            # same buses for all components, otherwise aligned by position
+            expr = expr.reindex({busdim: n.buses.index.rename(busdim)})
             lhs_per_bus_list.append(expr)
 
         if not lhs_per_bus_list:
@@ -224,6 +226,8 @@ def define_growth_limit(n: Network, sns: pd.Index) -> None:
 
         vars = m[var].sel({dim: limited_i}).where(first_active)
         expr = vars.groupby(carriers.to_xarray()).sum()
+        # same carriers for all components, otherwise aligned by position
+        expr = expr.reindex({carrier_i.name: carrier_i})
 
         if (max_relative_growth.loc[carriers.unique()] > 0).any():
             expr = expr - expr.shift(periods=1) * max_relative_growth
-- 
2.43.0


From 4bc3579edf7e3a27ad82f41ae32153352f91b6af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:40:59 +0000
Subject: [PATCH 015/103] fix: keep series of custom attributes when adding
 further components

---
 pypsa/io.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/pypsa/io.py b/pypsa/io.py
index 861098d..38413b2 100644
--- a/pypsa/io.py
+++ b/pypsa/io.py
@@ -1561,8 +1561,12 @@ def _import_series_from_df(
     # Add all unknown attributes to the dataframe without any checks
     expected_attrs = attrs[lambda ds: ds.type.str.contains("series")].index
     if attr not in expected_attrs:
-        if overwrite or attr not in dynamic:
-            dynamic[attr] = df
+        if attr in dynamic:  # keep the series of other components
+            others = dynamic[attr].columns.difference(df.columns, sort=False)
+            df = pd.concat([dynamic[attr][others], df], axis=1)
+            df.columns.name = cls_name
+            df.index.name = "snapshot"
+        dynamic[attr] = df
         return
 
     # Check if any snapshots are missing
-- 
2.43.0


From 7ab6d2054d18bc9961603c404eaee3abc8e7dafe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:42:42 +0000
Subject: [PATCH 016/103] fix: round commitment status before counting the time
 in operation

---
 pypsa/optimization/constraints.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/pypsa/optimization/constraints.py b/pypsa/optimization/constraints.py
index bb66c37..675c631 100644
--- a/pypsa/optimization/constraints.py
+++ b/pypsa/optimization/constraints.py
@@ -179,7 +179,9 @@ def define_operational_constraints_for_committables(
     if sns[0] != n.snapshots[0]:
         start_i = n.snapshots.get_loc(sns[0])
         # get generators which are online until the first regarded snapshot
-        until_start_up = n.dynamic(c).status.iloc[:start_i][::-1].reindex(columns=com_i)
+        until_start_up = (
+            n.dynamic(c).status.iloc[:start_i][::-1].reindex(columns=com_i).round()
+        )
         ref = range(1, len(until_start_up) + 1)
         up_time_before = until_start_up[until_start_up.cumsum().eq(ref, axis=0)].sum()
         # online since the first snapshot, add the time before
-- 
2.43.0


From 2a2182f0788c2ccb6e0b400986e477ba045a8f3e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:52:23 +0000
Subject: [PATCH 017/103] fix: accept MultiIndex of branch outages in
 security-constrained optimisation

---
 pypsa/optimization/abstract.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/pypsa/optimization/abstract.py b/pypsa/optimization/abstract.py
index c4c6487..c1b6185 100644
--- a/pypsa/optimization/abstract.py
+++ b/pypsa/optimization/abstract.py
@@ -393,8 +393,9 @@ def optimize_security_constrained(
 
     if branch_outages is None:
         branch_outages = all_passive_branches
-    elif isinstance(branch_outages, (list | pd.Index)):
-        branch_outages = pd.MultiIndex.from_product([("Line",), branch_outages])
+    else:
+        if not isinstance(branch_outages, pd.MultiIndex):
+            branch_outages = pd.MultiIndex.from_product([("Line",), branch_outages])
 
         if diff := set(branch_outages) - set(all_passive_branches):
             raise ValueError(
-- 
2.43.0


From ab9c3946f748d38d1fa5cd924f0251ef7e960125 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:54:11 +0000
Subject: [PATCH 018/103] fix: security-constrained optimisation with inactive
 branches or several sub-networks

---
 pypsa/optimization/abstract.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/pypsa/optimization/abstract.py b/pypsa/optimization/abstract.py
index c1b6185..9b5bfdb 100644
--- a/pypsa/optimization/abstract.py
+++ b/pypsa/optimization/abstract.py
@@ -417,7 +417,7 @@ def optimize_security_constrained(
     )
 
     for sub_network in n.sub_networks.obj:
-        branches_i = sub_network.branches_i()
+        branches_i = sub_network.branches_i(active_only=True)
         outages = branches_i.intersection(branch_outages)
 
         if outages.empty:
@@ -447,6 +447,8 @@ def optimize_security_constrained(
                 con = m.constraints[constraint]  # use this as a template
                 # idx now contains fixed/extendable for the sub-network
                 idx = con.lhs.indexes[coord].intersection(added_flow.indexes[coord])
+                if idx.empty:
+                    continue
                 sel = {coord: idx}
                 lhs = con.lhs.sel(sel) + added_flow.sel(sel)
                 name = constraint + f"-security-for-{c_outage_}-in-{sub_network}"
-- 
2.43.0


From 8d2bcf15f6a4c54c00f21188839c234672b1f652 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:10:49 +0000
Subject: [PATCH 019/103] fix: run non-linear power flow for sub-networks
 without generators

---
 pypsa/pf.py | 18 ++++++++++--------
 1 file changed, 10 insertions(+), 8 deletions(-)

diff --git a/pypsa/pf.py b/pypsa/pf.py
index 063710b..aa18d5a 100644
--- a/pypsa/pf.py
+++ b/pypsa/pf.py
@@ -405,14 +405,15 @@ def sub_network_pf_singlebus(
                     -n.buses_t.p.loc[sns, bus], axis=0
                 )
             )  # fmt: skip
-    else:
+    elif sub_network.slack_generator is not None:
         n.generators_t.p.loc[sns, sub_network.slack_generator] -= (
             n.buses_t.p.loc[sns, sub_network.slack_bus]
         )  # fmt: skip
 
-    n.generators_t.q.loc[sns, sub_network.slack_generator] -= (
-        n.buses_t.q.loc[sns, sub_network.slack_bus]
-    )  # fmt: skip
+    if sub_network.slack_generator is not None:
+        n.generators_t.q.loc[sns, sub_network.slack_generator] -= (
+            n.buses_t.q.loc[sns, sub_network.slack_bus]
+        )  # fmt: skip
 
     n.buses_t.p.loc[sns, sub_network.slack_bus] = 0.0
     n.buses_t.q.loc[sns, sub_network.slack_bus] = 0.0
@@ -804,15 +805,16 @@ def sub_network_pf(
                         sns, bus
                     ].apply(lambda row: row * bus_generator_shares)
                 )  # fmt: skip
-    else:
+    elif sub_network.slack_generator is not None:
         n.generators_t.p.loc[sns, sub_network.slack_generator] += (
             n.buses_t.p.loc[sns, sub_network.slack_bus] - ss[:, slack_index].real
         )
 
     # set the Q of the slack and PV generators
-    n.generators_t.q.loc[sns, sub_network.slack_generator] += (
-        n.buses_t.q.loc[sns, sub_network.slack_bus] - ss[:, slack_index].imag
-    )
+    if sub_network.slack_generator is not None:
+        n.generators_t.q.loc[sns, sub_network.slack_generator] += (
+            n.buses_t.q.loc[sns, sub_network.slack_bus] - ss[:, slack_index].imag
+        )
 
     n.generators_t.q.loc[sns, n.buses.loc[sub_network.pvs, "generator"]] += np.asarray(
         n.buses_t.q.loc[sns, sub_network.pvs]
-- 
2.43.0


From a23730eddc844b8990ae6a71700c9b31b2ba48b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:10:49 +0000
Subject: [PATCH 020/103] fix: respect sign of generators taking up the slack
 in power flow

---
 pypsa/pf.py | 18 ++++++++++++------
 1 file changed, 12 insertions(+), 6 deletions(-)

diff --git a/pypsa/pf.py b/pypsa/pf.py
index aa18d5a..8396f83 100644
--- a/pypsa/pf.py
+++ b/pypsa/pf.py
@@ -408,11 +408,13 @@ def sub_network_pf_singlebus(
     elif sub_network.slack_generator is not None:
         n.generators_t.p.loc[sns, sub_network.slack_generator] -= (
             n.buses_t.p.loc[sns, sub_network.slack_bus]
+            / n.generators.at[sub_network.slack_generator, "sign"]
         )  # fmt: skip
 
     if sub_network.slack_generator is not None:
         n.generators_t.q.loc[sns, sub_network.slack_generator] -= (
             n.buses_t.q.loc[sns, sub_network.slack_bus]
+            / n.generators.at[sub_network.slack_generator, "sign"]
         )  # fmt: skip
 
     n.buses_t.p.loc[sns, sub_network.slack_bus] = 0.0
@@ -808,17 +810,21 @@ def sub_network_pf(
     elif sub_network.slack_generator is not None:
         n.generators_t.p.loc[sns, sub_network.slack_generator] += (
             n.buses_t.p.loc[sns, sub_network.slack_bus] - ss[:, slack_index].real
-        )
+        ) / n.generators.at[sub_network.slack_generator, "sign"]
 
     # set the Q of the slack and PV generators
     if sub_network.slack_generator is not None:
         n.generators_t.q.loc[sns, sub_network.slack_generator] += (
             n.buses_t.q.loc[sns, sub_network.slack_bus] - ss[:, slack_index].imag
-        )
+        ) / n.generators.at[sub_network.slack_generator, "sign"]
 
-    n.generators_t.q.loc[sns, n.buses.loc[sub_network.pvs, "generator"]] += np.asarray(
-        n.buses_t.q.loc[sns, sub_network.pvs]
-        - ss[:, buses_indexer(sub_network.pvs)].imag
+    pv_generators = n.buses.loc[sub_network.pvs, "generator"]
+    n.generators_t.q.loc[sns, pv_generators] += (
+        np.asarray(
+            n.buses_t.q.loc[sns, sub_network.pvs]
+            - ss[:, buses_indexer(sub_network.pvs)].imag
+        )
+        / n.generators.loc[pv_generators, "sign"].values
     )
 
     return iters, diffs, convs
@@ -1539,7 +1545,7 @@ def sub_network_lpf(
     # let slack generator take up the slack
     if sub_network.slack_generator is not None:
         n.generators_t.p.loc[sns, sub_network.slack_generator] += (
-            slack_adjustment
+            slack_adjustment / n.generators.at[sub_network.slack_generator, "sign"]
         )  # fmt: skip
 
 
-- 
2.43.0


From 5e8083ae2049bb988109db5910182277a3638ddb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:10:49 +0000
Subject: [PATCH 021/103] fix: let only active generators control buses in
 power flow

---
 pypsa/pf.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pypsa/pf.py b/pypsa/pf.py
index 8396f83..9ea0da4 100644
--- a/pypsa/pf.py
+++ b/pypsa/pf.py
@@ -1041,6 +1041,7 @@ def find_slack_bus(sub_network: SubNetwork) -> None:
     Find the slack bus in a connected sub-network.
     """
     gens = sub_network.generators()
+    gens = gens[gens.active]
 
     if len(gens) == 0:
         #        logger.warning("No generators in sub-network {}, better hope power is already balanced".format(sub_network.name))
@@ -1090,6 +1091,7 @@ def find_bus_controls(sub_network: SubNetwork) -> None:
     find_slack_bus(sub_network)
 
     gens = sub_network.generators()
+    gens = gens[gens.active]
     buses_i = sub_network.buses_i()
 
     # default bus control is PQ
-- 
2.43.0


From 4e564f85932d188b87b7af490724b742a5e314fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:10:49 +0000
Subject: [PATCH 022/103] fix: inactive links carry no power in power flow

---
 pypsa/pf.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pypsa/pf.py b/pypsa/pf.py
index 9ea0da4..416862e 100644
--- a/pypsa/pf.py
+++ b/pypsa/pf.py
@@ -150,7 +150,7 @@ def _network_prepare_and_run_pf(
 
     # deal with links
     if not n.links.empty:
-        p_set = get_as_dense(n, "Link", "p_set", sns)
+        p_set = get_as_dense(n, "Link", "p_set", sns) * n.links.active
         n.links_t.p0.loc[sns] = p_set.loc[sns]
         for i in ["1"] + additional_linkports(n):
             eff_name = "efficiency" if i == "1" else f"efficiency{i}"
-- 
2.43.0


From c6b5b80ed56ebc08139f36c3af6b8e9f06ec440c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:10:49 +0000
Subject: [PATCH 023/103] fix: ignore inactive shunt impedances in power flow

---
 pypsa/pf.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/pypsa/pf.py b/pypsa/pf.py
index 416862e..43b9765 100644
--- a/pypsa/pf.py
+++ b/pypsa/pf.py
@@ -760,7 +760,7 @@ def sub_network_pf(
     ].imag
 
     # set shunt impedance powers
-    shunt_impedances_i = sub_network.shunt_impedances_i()
+    shunt_impedances_i = sub_network.shunt_impedances().query("active").index
     if len(shunt_impedances_i):
         # add voltages
         shunt_impedances_v_mag_pu = v_mag_pu[
@@ -1265,13 +1265,14 @@ def calculate_Y(
     Y00 = (y_se + 0.5 * y_sh) / tau_hv**2
 
     # bus shunt impedances
+    shunt_impedances = n.shunt_impedances.query("active")
     b_sh = (
-        n.shunt_impedances.b_pu.groupby(n.shunt_impedances.bus)
+        shunt_impedances.b_pu.groupby(shunt_impedances.bus)
         .sum()
         .reindex(buses_o, fill_value=0.0)
     )
     g_sh = (
-        n.shunt_impedances.g_pu.groupby(n.shunt_impedances.bus)
+        shunt_impedances.g_pu.groupby(shunt_impedances.bus)
         .sum()
         .reindex(buses_o, fill_value=0.0)
     )
@@ -1476,7 +1477,7 @@ def sub_network_lpf(
     branches_i = sub_network.branches_i(active_only=True)
 
     # allow all shunt impedances to dispatch as set
-    shunt_impedances_i = sub_network.shunt_impedances_i()
+    shunt_impedances_i = sub_network.shunt_impedances().query("active").index
     n.shunt_impedances_t.p.loc[sns, shunt_impedances_i] = n.shunt_impedances.g_pu.loc[
         shunt_impedances_i
     ].values
-- 
2.43.0


From 71718fe4d726b53a745d8365d6568fbdda698a43 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:10:49 +0000
Subject: [PATCH 024/103] fix: reset power of inactive components in power flow

---
 pypsa/pf.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/pypsa/pf.py b/pypsa/pf.py
index 43b9765..9cc0b8f 100644
--- a/pypsa/pf.py
+++ b/pypsa/pf.py
@@ -148,6 +148,13 @@ def _network_prepare_and_run_pf(
 
     sns = as_index(n, snapshots, "snapshots")
 
+    # inactive components do not take part, also if they did in a previous run
+    for c in n.iterate_components(n.one_port_components | n.branch_components):
+        inactive_i = c.static.index[~c.static.active]
+        for attr, df in c.dynamic.items():
+            if attr[0] in "pq" and (attr[1:] == "" or attr[1:].isdigit()):
+                df.loc[sns, inactive_i.intersection(df.columns)] = 0.0
+
     # deal with links
     if not n.links.empty:
         p_set = get_as_dense(n, "Link", "p_set", sns) * n.links.active
-- 
2.43.0


From fe9479586fe69e9dfbf8311bde5aea3001374e85 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:14:22 +0000
Subject: [PATCH 025/103] fix: supply shunt impedances in power flow of
 single-bus sub-networks

---
 pypsa/pf.py | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/pypsa/pf.py b/pypsa/pf.py
index 9cc0b8f..cb5dcb8 100644
--- a/pypsa/pf.py
+++ b/pypsa/pf.py
@@ -376,6 +376,16 @@ def sub_network_pf_singlebus(
     ]
     n.buses_t.v_ang.loc[sns, sub_network.slack_bus] = 0.0
 
+    # power drawn by shunt impedances is left to be balanced
+    shunts = sub_network.shunt_impedances().query("active")
+    v_sq = n.buses_t.v_mag_pu.loc[sns, [sub_network.slack_bus]].values ** 2
+    n.shunt_impedances_t.p.loc[sns, shunts.index] = v_sq * shunts.g_pu.values
+    n.shunt_impedances_t.q.loc[sns, shunts.index] = v_sq * shunts.b_pu.values
+    p_shunt = n.shunt_impedances_t.p.loc[sns, shunts.index].sum(axis=1)
+    q_shunt = -n.shunt_impedances_t.q.loc[sns, shunts.index].sum(axis=1)
+    n.buses_t.p.loc[sns, sub_network.slack_bus] -= p_shunt
+    n.buses_t.q.loc[sns, sub_network.slack_bus] -= q_shunt
+
     if distribute_slack:
         for bus, group in sub_network.generators().groupby("bus"):
             if slack_weights in ["p_nom", "p_nom_opt"]:
@@ -424,8 +434,8 @@ def sub_network_pf_singlebus(
             / n.generators.at[sub_network.slack_generator, "sign"]
         )  # fmt: skip
 
-    n.buses_t.p.loc[sns, sub_network.slack_bus] = 0.0
-    n.buses_t.q.loc[sns, sub_network.slack_bus] = 0.0
+    n.buses_t.p.loc[sns, sub_network.slack_bus] = p_shunt
+    n.buses_t.q.loc[sns, sub_network.slack_bus] = q_shunt
 
     return 0, 0.0, True  # dummy substitute for newton raphson output
 
-- 
2.43.0


From 47da982b4ead4ac1dc2c0892a245cd37b4ebcee4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:15:56 +0000
Subject: [PATCH 026/103] fix: accept single or listed snapshots of several
 investment periods

---
 pypsa/common.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/pypsa/common.py b/pypsa/common.py
index f6ca82c..8d0f888 100644
--- a/pypsa/common.py
+++ b/pypsa/common.py
@@ -153,10 +153,14 @@ def as_index(
         # If only timestep level is given for multiindex snapshots
         # TODO: This ambiguity should be resolved
         values_.names = n_attr.names[:1]
+    elif isinstance(values, tuple) and values in n_attr:
+        # single entry of a MultiIndex
+        values_ = pd.MultiIndex.from_tuples([values], names=n_attr.names)
     elif not is_list_like(values):
         values_ = pd.Index([values], name=n_attr.names[0])
     else:
-        values_ = pd.Index(values, name=n_attr.names[0])
+        values_ = pd.Index(values)
+        values_.names = n_attr.names[: values_.nlevels]
 
     # if n_attr.nlevels != values_.nlevels:
     #     raise ValueError(
-- 
2.43.0


From 0ba5626ad070f39c304652ff2ecbfac8299fe431 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:17:06 +0000
Subject: [PATCH 027/103] fix: accept all documented forms of custom slack
 weights

---
 pypsa/pf.py | 20 ++++++++++++++------
 1 file changed, 14 insertions(+), 6 deletions(-)

diff --git a/pypsa/pf.py b/pypsa/pf.py
index cb5dcb8..222ffb2 100644
--- a/pypsa/pf.py
+++ b/pypsa/pf.py
@@ -388,7 +388,15 @@ def sub_network_pf_singlebus(
 
     if distribute_slack:
         for bus, group in sub_network.generators().groupby("bus"):
-            if slack_weights in ["p_nom", "p_nom_opt"]:
+            if isinstance(slack_weights, pd.Series):
+                if bus in slack_weights.index and not any(
+                    slack_weights.index.isin(group.index)
+                ):
+                    weights = group.p_nom if group.p_nom.any() else group.p_nom + 1
+                else:
+                    weights = slack_weights.reindex(group.index).fillna(0)
+                bus_generator_shares = weights.pipe(normed).fillna(0)
+            elif slack_weights in ["p_nom", "p_nom_opt"]:
                 if all(n.generators[slack_weights] == 0):
                     msg = f"Invalid slack weights! Generator attribute {slack_weights} is always zero."
                     raise ValueError(msg)
@@ -415,8 +423,6 @@ def sub_network_pf_singlebus(
                     .apply(normed, axis=1)
                     .fillna(0)
                 )
-            else:
-                bus_generator_shares = slack_weights.pipe(normed).fillna(0)
             n.generators_t.p.loc[sns, group.index] += (
                 bus_generator_shares.multiply(
                     -n.buses_t.p.loc[sns, bus], axis=0
@@ -664,8 +670,7 @@ def sub_network_pf(
         elif generator_slack_weights_b:
             # convert generator-based slack weights to bus-based slack weights
             slack_weights_calc = (
-                slack_weights.rename(n.generators.bus)
-                .groupby(slack_weights.index.name)
+                slack_weights.groupby(n.generators.bus.reindex(slack_weights.index))
                 .sum()
                 .reindex(buses_o)
                 .pipe(normed)
@@ -811,7 +816,10 @@ def sub_network_pf(
             else:
                 if generator_slack_weights_b:
                     bus_generator_shares = (
-                        slack_weights.loc[group.index].pipe(normed).fillna(0)  # type: ignore
+                        slack_weights.reindex(group.index)
+                        .fillna(0)
+                        .pipe(normed)
+                        .fillna(0)
                     )
                 else:
                     bus_generators_p_nom = n.generators.p_nom.loc[group.index]
-- 
2.43.0


From 3eb87701da8fc8ee425ab422764a26b43897a78b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:17:06 +0000
Subject: [PATCH 028/103] fix: share slack power of a bus by the requested
 capacity or evenly

---
 pypsa/pf.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/pypsa/pf.py b/pypsa/pf.py
index 222ffb2..14eb3d5 100644
--- a/pypsa/pf.py
+++ b/pypsa/pf.py
@@ -822,10 +822,11 @@ def sub_network_pf(
                         .fillna(0)
                     )
                 else:
-                    bus_generators_p_nom = n.generators.p_nom.loc[group.index]
+                    attr = slack_weights if isinstance(slack_weights, str) else "p_nom"
+                    bus_generators_p_nom = n.generators[attr].loc[group.index]
                     # distribute evenly if no p_nom given
-                    if all(bus_generators_p_nom) == 0:
-                        bus_generators_p_nom = 1
+                    if (bus_generators_p_nom == 0).all():
+                        bus_generators_p_nom = bus_generators_p_nom + 1
                     bus_generator_shares = bus_generators_p_nom.pipe(normed).fillna(0)
                 n.generators_t.p.loc[sns, group.index] += (
                     distributed_slack_power.loc[
-- 
2.43.0


From af5a9d07ee10fc6f5ac1c7c9032887b9c825e399 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:18:02 +0000
Subject: [PATCH 029/103] fix: distribute slack of single-bus sub-networks by
 static weights

---
 pypsa/pf.py | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/pypsa/pf.py b/pypsa/pf.py
index 14eb3d5..b1b357d 100644
--- a/pypsa/pf.py
+++ b/pypsa/pf.py
@@ -423,11 +423,12 @@ def sub_network_pf_singlebus(
                     .apply(normed, axis=1)
                     .fillna(0)
                 )
-            n.generators_t.p.loc[sns, group.index] += (
-                bus_generator_shares.multiply(
-                    -n.buses_t.p.loc[sns, bus], axis=0
-                )
-            )  # fmt: skip
+            slack_power = -n.buses_t.p.loc[sns, bus]
+            if isinstance(bus_generator_shares, pd.Series):
+                slack_power = slack_power.apply(lambda row: row * bus_generator_shares)
+            else:
+                slack_power = bus_generator_shares.multiply(slack_power, axis=0)
+            n.generators_t.p.loc[sns, group.index] += slack_power
     elif sub_network.slack_generator is not None:
         n.generators_t.p.loc[sns, sub_network.slack_generator] -= (
             n.buses_t.p.loc[sns, sub_network.slack_bus]
-- 
2.43.0


From 003d17e2071dabfccc361778d691a43a8aaf7225 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:18:02 +0000
Subject: [PATCH 030/103] fix: distribute slack among active generators only

---
 pypsa/pf.py | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/pypsa/pf.py b/pypsa/pf.py
index b1b357d..55b2b54 100644
--- a/pypsa/pf.py
+++ b/pypsa/pf.py
@@ -387,7 +387,7 @@ def sub_network_pf_singlebus(
     n.buses_t.q.loc[sns, sub_network.slack_bus] -= q_shunt
 
     if distribute_slack:
-        for bus, group in sub_network.generators().groupby("bus"):
+        for bus, group in sub_network.generators().query("active").groupby("bus"):
             if isinstance(slack_weights, pd.Series):
                 if bus in slack_weights.index and not any(
                     slack_weights.index.isin(group.index)
@@ -642,6 +642,7 @@ def sub_network_pf(
     if distribute_slack:
         if isinstance(slack_weights, str) and slack_weights == "p_set":
             generators_t_p_choice = get_as_dense(n, "Generator", slack_weights, sns)
+            generators_t_p_choice = generators_t_p_choice.loc[:, n.generators.active]
             bus_generation = generators_t_p_choice.rename(columns=n.generators.bus)
             slack_weights_calc = (
                 pd.DataFrame(
@@ -661,7 +662,8 @@ def sub_network_pf(
                 raise ValueError(msg)
 
             slack_weights_calc = (
-                n.generators.groupby("bus")[slack_weights]
+                n.generators.query("active")
+                .groupby("bus")[slack_weights]
                 .sum()
                 .reindex(buses_o)
                 .pipe(normed)
@@ -671,7 +673,8 @@ def sub_network_pf(
         elif generator_slack_weights_b:
             # convert generator-based slack weights to bus-based slack weights
             slack_weights_calc = (
-                slack_weights.groupby(n.generators.bus.reindex(slack_weights.index))
+                slack_weights[n.generators.active.reindex(slack_weights.index)]
+                .groupby(n.generators.bus)
                 .sum()
                 .reindex(buses_o)
                 .pipe(normed)
@@ -801,7 +804,7 @@ def sub_network_pf(
         distributed_slack_power = (
             n.buses_t.p.loc[sns, sn_buses] - ss[:, buses_indexer(sn_buses)].real
         )
-        for bus, group in sub_network.generators().groupby("bus"):
+        for bus, group in sub_network.generators().query("active").groupby("bus"):
             if isinstance(slack_weights, str) and slack_weights == "p_set":
                 generators_t_p_choice = get_as_dense(n, "Generator", slack_weights, sns)
                 bus_generator_shares = (
-- 
2.43.0


From a76d55b36d9c2a001207b469f5141b8776cad6aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:18:02 +0000
Subject: [PATCH 031/103] fix: respect sign of generators sharing the slack

---
 pypsa/pf.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/pypsa/pf.py b/pypsa/pf.py
index 55b2b54..3a84476 100644
--- a/pypsa/pf.py
+++ b/pypsa/pf.py
@@ -428,7 +428,7 @@ def sub_network_pf_singlebus(
                 slack_power = slack_power.apply(lambda row: row * bus_generator_shares)
             else:
                 slack_power = bus_generator_shares.multiply(slack_power, axis=0)
-            n.generators_t.p.loc[sns, group.index] += slack_power
+            n.generators_t.p.loc[sns, group.index] += slack_power / group.sign
     elif sub_network.slack_generator is not None:
         n.generators_t.p.loc[sns, sub_network.slack_generator] -= (
             n.buses_t.p.loc[sns, sub_network.slack_bus]
@@ -811,6 +811,7 @@ def sub_network_pf(
                     generators_t_p_choice.loc[sns, group.index]
                     .apply(normed, axis=1)
                     .fillna(0)
+                    / group.sign
                 )
                 n.generators_t.p.loc[sns, group.index] += (
                     bus_generator_shares.multiply(
@@ -832,6 +833,7 @@ def sub_network_pf(
                     if (bus_generators_p_nom == 0).all():
                         bus_generators_p_nom = bus_generators_p_nom + 1
                     bus_generator_shares = bus_generators_p_nom.pipe(normed).fillna(0)
+                bus_generator_shares = bus_generator_shares / group.sign
                 n.generators_t.p.loc[sns, group.index] += (
                     distributed_slack_power.loc[
                         sns, bus
-- 
2.43.0


From 2efd98e58fd1b0cbb2036b2e568d578661902227 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:59 +0000
Subject: [PATCH 032/103] fix: contingency analysis for default snapshots,
 inactive branches and several sub-networks

---
 pypsa/contingency.py | 20 +++++++++-----------
 1 file changed, 9 insertions(+), 11 deletions(-)

diff --git a/pypsa/contingency.py b/pypsa/contingency.py
index 1d4ddea..ffaac60 100644
--- a/pypsa/contingency.py
+++ b/pypsa/contingency.py
@@ -13,7 +13,7 @@ import pandas as pd
 from numpy import r_
 from scipy.sparse import csr_matrix
 
-from pypsa.common import deprecated_common_kwargs
+from pypsa.common import as_index, deprecated_common_kwargs
 from pypsa.pf import calculate_PTDF
 
 if TYPE_CHECKING:
@@ -89,16 +89,13 @@ def network_lpf_contingency(
         num_passive_branch x num_branch_outages DataFrame of new power flows
 
     """
-    if snapshots is None:
-        snapshots = n.snapshots
+    snapshots = as_index(n, snapshots, "snapshots")
 
-    if isinstance(snapshots, Sequence):
+    if len(snapshots) > 1:
         logger.warning(
             "Apologies LPF contingency, this only works for single snapshots at the moment, taking the first snapshot."
         )
-        snapshot = snapshots[0]
-    else:
-        snapshot = snapshots
+    snapshot = snapshots[0]
 
     n.lpf(snapshot)
 
@@ -107,7 +104,7 @@ def network_lpf_contingency(
     passive_branches = n.passive_branches()
 
     if branch_outages is None:
-        branch_outages = passive_branches.index
+        branch_outages = passive_branches.index[passive_branches.active]
 
     p0_base = pd.concat(
         {c: n.dynamic(c).p0.loc[snapshot] for c in n.passive_branch_components}
@@ -115,8 +112,9 @@ def network_lpf_contingency(
     p0 = p0_base.to_frame("base")
 
     for sub_network in n.sub_networks.obj:
-        sub_network._branches = sub_network.branches()
-        sub_network.calculate_BODF()
+        sub_network._branches = sub_network.branches().query("active")
+        if not sub_network._branches.empty:
+            sub_network.calculate_BODF()
 
     for branch in branch_outages:
         if not isinstance(branch, tuple):
@@ -128,7 +126,7 @@ def network_lpf_contingency(
         branch_i = sub_network._branches.index.get_loc(branch)
         p0_new = p0_base + pd.Series(
             sub_network.BODF[:, branch_i] * p0_base[branch], sub_network._branches.index
-        )
+        ).reindex(p0_base.index, fill_value=0.0)
         p0_new.name = branch
 
         p0 = pd.concat([p0, p0_new], axis=1)
-- 
2.43.0


From 0bcb202a31b492c6e777ff40d67a4f833924e1da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:38 +0000
Subject: [PATCH 033/103] fix: treat only numbered bus attributes as additional
 link ports

---
 pypsa/descriptors.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/pypsa/descriptors.py b/pypsa/descriptors.py
index 51efae7..f090906 100644
--- a/pypsa/descriptors.py
+++ b/pypsa/descriptors.py
@@ -477,7 +477,11 @@ def additional_linkports(n: Network, where: Iterable[str] | None = None) -> list
     """
     if where is None:
         where = n.links.columns
-    return [i[3:] for i in where if i.startswith("bus") and i not in ["bus0", "bus1"]]
+    return [
+        i[3:]
+        for i in where
+        if i.startswith("bus") and i[3:].isdigit() and i not in ["bus0", "bus1"]
+    ]
 
 
 def bus_carrier_unit(n: Network, bus_carrier: str | Sequence[str] | None) -> str:
-- 
2.43.0


From 9aed017736ac4f6f43e17a75c3873fc6dfcbf94a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:38 +0000
Subject: [PATCH 034/103] fix: reject dictionaries as attribute values when
 adding components

---
 pypsa/networks.py | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/pypsa/networks.py b/pypsa/networks.py
index 51f4a8f..39275d0 100644
--- a/pypsa/networks.py
+++ b/pypsa/networks.py
@@ -1242,6 +1242,13 @@ class Network:
             raise ValueError(msg)
 
         for k, v in kwargs.items():
+            if isinstance(v, dict):
+                msg = (
+                    "Dictionaries are not supported as attribute values. Please use "
+                    "pandas.Series or pandas.DataFrame instead."
+                )
+                raise NotImplementedError(msg)
+
             # If index/ columnes are passed (pd.DataFrame or pd.Series)
             # - cast names index to string and add suffix
             # - check if passed index/ columns align
@@ -1305,13 +1312,6 @@ class Network:
                     )
                     raise ValueError(msg)
 
-            if isinstance(v, dict):
-                msg = (
-                    "Dictionaries are not supported as attribute values. Please use "
-                    "pandas.Series or pandas.DataFrame instead."
-                )
-                raise NotImplementedError(msg)
-
             # Handle addition of single component
             if single_component:
                 # Read 1-dim data as time-varying attribute
-- 
2.43.0


From 717442053d13616e5adab2d5903dbe8f75d2ec00 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:18 +0000
Subject: [PATCH 035/103] fix: do not add series to existing components unless
 they are overwritten

---
 pypsa/networks.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/pypsa/networks.py b/pypsa/networks.py
index 39275d0..f823f0a 100644
--- a/pypsa/networks.py
+++ b/pypsa/networks.py
@@ -1340,10 +1340,13 @@ class Network:
             static_df = pd.DataFrame(static, index=names)
         else:
             static_df = pd.DataFrame(index=names)
+        existing = names.intersection(c.static.index)
         _import_components_from_df(self, static_df, c.name, overwrite=overwrite)
 
         # Load time-varying attributes as components
         for k, v in series.items():
+            if not overwrite:
+                v = v.drop(columns=existing)
             self._import_series_from_df(v, c.name, k, overwrite=overwrite)
 
         return names
-- 
2.43.0


From 69de76b27b4b6601225946aac8bacea5d6db88d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:18 +0000
Subject: [PATCH 036/103] fix: drop series of components which are overwritten

---
 pypsa/io.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/pypsa/io.py b/pypsa/io.py
index 38413b2..3489d0f 100644
--- a/pypsa/io.py
+++ b/pypsa/io.py
@@ -1482,6 +1482,13 @@ def _import_components_from_df(
             new_static = new_static.drop(duplicated_components)
         else:
             old_static = old_static.drop(duplicated_components)
+            # Series of the overwritten components are not valid anymore
+            for df_t in n.dynamic(cls_name).values():
+                df_t.drop(
+                    df_t.columns.intersection(duplicated_components),
+                    axis=1,
+                    inplace=True,
+                )
 
     # Concatenate to new dataframe
     if not old_static.empty:
-- 
2.43.0


From cebdb5f9eed767623b11e07de1aeb9d611e4ab0a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:38:24 +0000
Subject: [PATCH 037/103] fix: initialise additional link ports in every
 network

---
 pypsa/descriptors.py | 22 +++++++++++-----------
 1 file changed, 11 insertions(+), 11 deletions(-)

diff --git a/pypsa/descriptors.py b/pypsa/descriptors.py
index f090906..0ca1b62 100644
--- a/pypsa/descriptors.py
+++ b/pypsa/descriptors.py
@@ -440,17 +440,17 @@ def update_linkports_component_attrs(
 
     for i, attr in product(ports, ["bus", "efficiency", "p"]):
         target = f"{attr}{i}"
-        if target in n.components[c]["attrs"].index:
-            continue
-        j = "1" if attr != "efficiency" else ""
-        base_attr = attr + j
-        base_attr_index = n.components[c]["attrs"].index.get_loc(base_attr)
-        n.components[c]["attrs"].index.insert(base_attr_index + 1, target)
-        n.components[c]["attrs"].loc[target] = (
-            n.components[c]["attrs"]
-            .loc[attr + j]
-            .apply(update_linkports_doc_changes, args=("1", i))
-        )
+        # Attributes are shared with all other networks and might be already defined
+        if target not in n.components[c]["attrs"].index:
+            j = "1" if attr != "efficiency" else ""
+            base_attr = attr + j
+            base_attr_index = n.components[c]["attrs"].index.get_loc(base_attr)
+            n.components[c]["attrs"].index.insert(base_attr_index + 1, target)
+            n.components[c]["attrs"].loc[target] = (
+                n.components[c]["attrs"]
+                .loc[attr + j]
+                .apply(update_linkports_doc_changes, args=("1", i))
+            )
         # Also update container for varying attributes
         if attr in ["efficiency", "p"] and target not in n.dynamic(c).keys():
             df = pd.DataFrame(index=n.snapshots, columns=[], dtype=float)
-- 
2.43.0


From 870c6ea0321c0e999e1901fdbc525379def4fb06 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:42:38 +0000
Subject: [PATCH 038/103] fix: keep snapshots if empty snapshots are rejected

---
 pypsa/networks.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/pypsa/networks.py b/pypsa/networks.py
index f823f0a..5601c13 100644
--- a/pypsa/networks.py
+++ b/pypsa/networks.py
@@ -736,13 +736,14 @@ class Network:
                 raise ValueError(msg)
             sns = snapshots.rename(["period", "timestep"])
             sns.name = "snapshot"
-            self._snapshots = sns
         else:
-            self._snapshots = pd.Index(snapshots, name="snapshot")
+            sns = pd.Index(snapshots, name="snapshot")
 
-        if len(self._snapshots) == 0:
+        if len(sns) == 0:
             raise ValueError("Snapshots must not be empty.")
 
+        self._snapshots = sns
+
         self.snapshot_weightings = self.snapshot_weightings.reindex(
             self._snapshots, fill_value=default_snapshot_weightings
         )
-- 
2.43.0


From 5fe4a611eb2b49e7a095e53c1864c863b8a601ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:44:18 +0000
Subject: [PATCH 039/103] fix: do not set missing weightings for a single
 snapshot

---
 pypsa/networks.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/pypsa/networks.py b/pypsa/networks.py
index 5601c13..1204acb 100644
--- a/pypsa/networks.py
+++ b/pypsa/networks.py
@@ -755,6 +755,7 @@ class Network:
                 .shift(-1)
                 .ffill()  # fill last value by assuming same as the one before
                 .apply(lambda x: x.total_seconds() / 3600)
+                .fillna(default_snapshot_weightings)  # no step for a single snapshot
             )
             self._snapshot_weightings = pd.DataFrame(
                 {c: hours_per_step for c in self._snapshot_weightings.columns}
-- 
2.43.0


From 04c47e50d06c9c7273afc77dcc53078cfdc9a944 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:45:34 +0000
Subject: [PATCH 040/103] fix: iterate over time-varying attributes with
 current pandas

---
 pypsa/descriptors.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pypsa/descriptors.py b/pypsa/descriptors.py
index 0ca1b62..428e621 100644
--- a/pypsa/descriptors.py
+++ b/pypsa/descriptors.py
@@ -150,7 +150,7 @@ def get_switchable_as_iter(
 
     return (
         reindex_maybe(
-            static.loc[fixed_i, attr].append(dynamic[attr].loc[sn, varying_i])
+            pd.concat([static.loc[fixed_i, attr], dynamic[attr].loc[sn, varying_i]])
         )
         for sn in snapshots
     )
-- 
2.43.0


From 729a14b70e2d600f08bbbe0face1516b4b29cd33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:47:56 +0000
Subject: [PATCH 041/103] fix: keep custom series when adding a period level to
 the snapshots

---
 pypsa/networks.py | 25 ++++++++++++-------------
 1 file changed, 12 insertions(+), 13 deletions(-)

diff --git a/pypsa/networks.py b/pypsa/networks.py
index 1204acb..fef2e59 100644
--- a/pypsa/networks.py
+++ b/pypsa/networks.py
@@ -772,20 +772,19 @@ class Network:
             for k in dynamic.keys():
                 if dynamic[k].empty:  # avoid expensive reindex operation
                     dynamic[k].index = self._snapshots
-                elif k in attrs.default[attrs.varying]:
-                    if isinstance(dynamic[k].index, pd.MultiIndex):
-                        dynamic[k] = dynamic[k].reindex(
-                            self._snapshots, fill_value=attrs.default[attrs.varying][k]
-                        )
-                    else:
-                        # Make sure to keep timestep level in case of MultiIndex
-                        dynamic[k] = dynamic[k].reindex(
-                            self._snapshots,
-                            fill_value=attrs.default[attrs.varying][k],
-                            level="timestep",
-                        )
+                    continue
+
+                # Custom attributes have no default
+                fill_value = attrs.default[attrs.varying].get(k, np.nan)
+                if isinstance(dynamic[k].index, pd.MultiIndex):
+                    dynamic[k] = dynamic[k].reindex(
+                        self._snapshots, fill_value=fill_value
+                    )
                 else:
-                    dynamic[k] = dynamic[k].reindex(self._snapshots)
+                    # Make sure to keep timestep level in case of MultiIndex
+                    dynamic[k] = dynamic[k].reindex(
+                        self._snapshots, fill_value=fill_value, level="timestep"
+                    )
 
         # NB: No need to rebind dynamic to self, since haven't changed it
 
-- 
2.43.0


From 98a76723823d62866acde4977a83c58e9bd428b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:03:51 +0000
Subject: [PATCH 042/103] fix: setting the coordinate reference system of a
 network has an effect

---
 pypsa/networks.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pypsa/networks.py b/pypsa/networks.py
index fef2e59..ab546ba 100644
--- a/pypsa/networks.py
+++ b/pypsa/networks.py
@@ -652,7 +652,7 @@ class Network:
         Set the coordinate reference system of the network's geometries
         (n.shapes).
         """
-        self.shapes.set_crs(new)
+        self.shapes.set_crs(new, allow_override=True, inplace=True)
         self._crs = self.shapes.crs
 
     def to_crs(self, new: int | str | pyproj.CRS) -> None:
-- 
2.43.0


From 5a53265787f2e76459c1b8dfa37807b482b7117c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:03:51 +0000
Subject: [PATCH 043/103] fix: adding two networks returns the merged network

---
 pypsa/networks.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pypsa/networks.py b/pypsa/networks.py
index ab546ba..0317c0c 100644
--- a/pypsa/networks.py
+++ b/pypsa/networks.py
@@ -367,9 +367,9 @@ class Network:
 
         return header + content
 
-    def __add__(self, other: Network) -> None:
+    def __add__(self, other: Network) -> Network:
         """Merge all components of two networks."""
-        self.merge(other)
+        return self.merge(other)
 
     def __eq__(self, other: Any) -> bool:
         """
-- 
2.43.0


From 6fcc213f3fc5e3b2e4c60dc110f144b45ac7ee17 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:04:26 +0000
Subject: [PATCH 044/103] fix: copies of networks own their sub-networks and
 solved networks can be copied

---
 pypsa/networks.py | 16 ++++++++++++++++
 1 file changed, 16 insertions(+)

diff --git a/pypsa/networks.py b/pypsa/networks.py
index 0317c0c..6da953a 100644
--- a/pypsa/networks.py
+++ b/pypsa/networks.py
@@ -371,6 +371,22 @@ class Network:
         """Merge all components of two networks."""
         return self.merge(other)
 
+    def __deepcopy__(self, memo: dict) -> Network:
+        """Copy the network with its sub-networks, but without a solver instance."""
+        n = self.__class__.__new__(self.__class__)
+        memo[id(self)] = n
+        # Instances of solvers cannot be copied
+        solver_model = getattr(self.__dict__.get("model"), "solver_model", None)
+        if solver_model is not None:
+            memo[id(solver_model)] = None
+        for key, value in self.__dict__.items():
+            n.__dict__[key] = copy.deepcopy(value, memo)
+        # Sub-networks refer to their network by a weak reference, which is not copied
+        if "obj" in n.sub_networks:
+            for sub_network in n.sub_networks.obj:
+                sub_network._n = ref(n)
+        return n
+
     def __eq__(self, other: Any) -> bool:
         """
         Check for equality of two networks.
-- 
2.43.0


From e523cac875b740cc21c30fc6aeb842b827326aa8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:06:02 +0000
Subject: [PATCH 045/103] fix: networks can be compared before and after
 solving

---
 pypsa/networks.py | 15 +++++++++++++++
 1 file changed, 15 insertions(+)

diff --git a/pypsa/networks.py b/pypsa/networks.py
index 6da953a..5b25b17 100644
--- a/pypsa/networks.py
+++ b/pypsa/networks.py
@@ -24,6 +24,7 @@ try:
 except ImportError:
     from pathlib import Path
 
+import linopy
 import numpy as np
 import pandas as pd
 import pyproj
@@ -449,10 +450,24 @@ class Network:
             StatisticsAccessor,
             PlotAccessor,
             AbstractStatisticsAccessor,
+            linopy.Model,
         ]
         not_equal = False
         if isinstance(other, self.__class__):
+            ignored = tuple(ignore)
+            keys, other_keys = (
+                {k for k, v in n.__dict__.items() if not isinstance(v, ignored)}
+                for n in (self, other)
+            )
+            if keys != other_keys:
+                msg = f"Attributes only in one network: {sorted(keys ^ other_keys)}"
+                if log_mode == "strict":
+                    raise ValueError(msg)
+                logger.warning(msg)
+                not_equal = True
             for key, value in self.__dict__.items():
+                if key not in keys & other_keys:
+                    continue
                 if not equals(
                     value,
                     other.__dict__[key],
-- 
2.43.0


From a4b42bc00321605fa92e0206dc45fa7b2631dc88 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:08:16 +0000
Subject: [PATCH 046/103] fix: selections of networks keep periods, coordinate
 system and own meta data

---
 pypsa/networks.py | 28 ++++++++++++++++++++--------
 1 file changed, 20 insertions(+), 8 deletions(-)

diff --git a/pypsa/networks.py b/pypsa/networks.py
index 5b25b17..d5018fd 100644
--- a/pypsa/networks.py
+++ b/pypsa/networks.py
@@ -1550,6 +1550,10 @@ class Network:
         # Convert to pandas.Index
         snapshots_ = as_index(self, snapshots, "snapshots")
         investment_periods_ = as_index(self, investment_periods, "investment_periods")
+        if isinstance(snapshots_, pd.MultiIndex):
+            # Keep the selected snapshots of the selected periods
+            snapshots_ = snapshots_[snapshots_.isin(investment_periods_, level=0)]
+            investment_periods_ = snapshots_.unique(level=0)
 
         # Deprecation warnings
         if with_time is not None:
@@ -1564,6 +1568,8 @@ class Network:
 
         # Setup new network
         n = self.__class__(ignore_standard_types=ignore_standard_types)
+        n.crs = self.crs
+        n.meta = copy.deepcopy(self.meta)
 
         # Copy components
         other_comps = sorted(self.all_components - {"Bus", "Carrier"})
@@ -1575,7 +1581,8 @@ class Network:
                 and component.name in self.standard_type_components
             ):
                 static = component.static.drop(
-                    n.components[component.name]["standard_types"].index
+                    n.components[component.name]["standard_types"].index,
+                    errors="ignore",
                 )
             else:
                 static = component.static
@@ -1607,8 +1614,6 @@ class Network:
         # Catch all remaining attributes of network
         for attr in [
             "name",
-            "srid",
-            "_meta",
             "_linearized_uc",
             "_multi_invest",
             "objective",
@@ -1652,6 +1657,7 @@ class Network:
 
         # Setup new network
         n = self.__class__()
+        n.crs = self.crs
 
         n.add(
             "Bus",
@@ -1671,7 +1677,9 @@ class Network:
 
         for c in self.standard_type_components:
             static = pd.DataFrame(
-                self.static(c).drop(self.components[c]["standard_types"].index)
+                self.static(c).drop(
+                    self.components[c]["standard_types"].index, errors="ignore"
+                )
             )
             n.add(c, static.index, **static)
 
@@ -1687,7 +1695,8 @@ class Network:
             )
             n.add(c, static.index, **static)
 
-        n.set_snapshots(self.snapshots[time_i])
+        snapshot_weightings = self.snapshot_weightings.loc[time_i].copy()
+        n.set_snapshots(snapshot_weightings.index)
         for c in self.all_components:
             i = n.static(c).index
             try:
@@ -1702,10 +1711,13 @@ class Network:
                 pass
 
         # catch all remaining attributes of network
-        for attr in ["name", "_crs"]:
-            setattr(n, attr, getattr(self, attr))
+        n.name = self.name
 
-        n.snapshot_weightings = self.snapshot_weightings.loc[time_i]
+        n.snapshot_weightings = snapshot_weightings
+        if n.has_periods:
+            n.investment_period_weightings = self.investment_period_weightings.loc[
+                n.periods
+            ].copy()
 
         return n
 
-- 
2.43.0


From 82dac34324ca68d073de5245f0a28f4fe6ae6990 Mon Sep 17 00:00:00 2001
From: v <a@b>
Date: Thu, 19 Nov 2026 20:16:08 +0000
Subject: [PATCH 047/103] fix: custom series of merged networks are copied

---
 pypsa/io.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pypsa/io.py b/pypsa/io.py
index 3489d0f..22599c7 100644
--- a/pypsa/io.py
+++ b/pypsa/io.py
@@ -1549,7 +1549,7 @@ def _import_series_from_df(
         try:
             df = df.drop(df.columns.intersection(dynamic[attr].columns), axis=1)
         except KeyError:
-            pass  # Don't drop any columns if the data doesn't exist yet
+            df = df.copy()  # Don't drop any columns if the data doesn't exist yet
 
     df.columns.name = cls_name
     df.index.name = "snapshot"
-- 
2.43.0


From 80b757287ebc33dcb01d69562328d849d039cf0d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:20:23 +0000
Subject: [PATCH 048/103] fix: names and labels of snapshots survive CSV files
 and Excel sheets

---
 pypsa/io.py | 28 ++++++++++++++++++++++------
 1 file changed, 22 insertions(+), 6 deletions(-)

diff --git a/pypsa/io.py b/pypsa/io.py
index 22599c7..7df4b24 100644
--- a/pypsa/io.py
+++ b/pypsa/io.py
@@ -25,6 +25,7 @@ from deprecation import deprecated
 from pyproj import CRS
 
 from pypsa.common import check_optional_dependency, deprecated_common_kwargs
+from pypsa.constants import DEFAULT_TIMESTAMP
 from pypsa.descriptors import update_linkports_component_attrs
 
 try:
@@ -66,6 +67,16 @@ def _retrieve_from_url(url: str, io_function: Callable) -> pd.DataFrame | Networ
         return io_function(file_path)
 
 
+def _parse_dates(labels: pd.Series) -> pd.Series:
+    """Parse labels of snapshots which are dates, labels of other kinds are kept."""
+    if labels.dtype != object or (labels == DEFAULT_TIMESTAMP).all():
+        return labels
+    try:
+        return pd.to_datetime(labels)
+    except (ValueError, TypeError):
+        return labels
+
+
 # TODO: Restructure abc inheritance
 
 
@@ -156,7 +167,11 @@ class ImporterCSV(Importer):
         dtypes = {"pypsa_version": str}
         return dict(
             pd.read_csv(
-                fn, encoding=self.encoding, dtype=dtypes, quotechar=self.quotechar
+                fn,
+                encoding=self.encoding,
+                dtype=dtypes,
+                converters={"name": str},
+                quotechar=self.quotechar,
             ).iloc[0]
         )
 
@@ -181,9 +196,9 @@ class ImporterCSV(Importer):
         )
         # backwards-compatibility: level "snapshot" was rename to "timestep"
         if "snapshot" in df:
-            df["snapshot"] = pd.to_datetime(df.snapshot)
+            df["snapshot"] = _parse_dates(df.snapshot)
         if "timestep" in df:
-            df["timestep"] = pd.to_datetime(df.timestep)
+            df["timestep"] = _parse_dates(df.timestep)
         return df
 
     def get_investment_periods(self) -> pd.Series:
@@ -350,9 +365,9 @@ class ImporterExcel(Importer):
             df = df.set_index(df.columns[0])
             # backwards-compatibility: level "snapshot" was rename to "timestep"
             if "snapshot" in df:
-                df["snapshot"] = pd.to_datetime(df.snapshot)
+                df["snapshot"] = _parse_dates(df.snapshot)
             if "timestep" in df:
-                df["timestep"] = pd.to_datetime(df.timestep)
+                df["timestep"] = _parse_dates(df.timestep)
             return df
         except (ValueError, KeyError):
             return None
@@ -1212,7 +1227,8 @@ def _import_from_importer(
     pypsa_version = None
 
     if attrs is not None:
-        n.name = attrs.pop("name")
+        name = attrs.pop("name")
+        n.name = "" if pd.isnull(name) else str(name)
 
         try:
             pypsa_version = [int(s) for s in attrs.pop("pypsa_version").split(".")]
-- 
2.43.0


From 9443344383e6eefdd4706cf5c14733b43eefa214 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:20:23 +0000
Subject: [PATCH 049/103] fix: networks without standard types can be exported

---
 pypsa/io.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/pypsa/io.py b/pypsa/io.py
index 7df4b24..9c1d057 100644
--- a/pypsa/io.py
+++ b/pypsa/io.py
@@ -808,7 +808,9 @@ def _export_to_exporter(
             static = pd.DataFrame(static).assign(geometry=static["geometry"].to_wkt())
 
         if not export_standard_types and component in n.standard_type_components:
-            static = static.drop(n.components[component]["standard_types"].index)
+            static = static.drop(
+                n.components[component]["standard_types"].index, errors="ignore"
+            )
 
         # first do static attributes
         static = static.rename_axis(index="name")
-- 
2.43.0


From d5c0c0614c0bc9b660e7ff7bf1cb2684bdcd729a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:24:55 +0000
Subject: [PATCH 050/103] fix: exports to CSV and Excel remove the data of
 earlier exports

---
 pypsa/io.py | 19 ++++++++++++++-----
 1 file changed, 14 insertions(+), 5 deletions(-)

diff --git a/pypsa/io.py b/pypsa/io.py
index 9c1d057..1e91716 100644
--- a/pypsa/io.py
+++ b/pypsa/io.py
@@ -274,6 +274,7 @@ class ExporterCSV(Exporter):
             )
 
     def save_static(self, list_name: str, df: pd.DataFrame) -> None:
+        self.remove_static(list_name)
         fn = self.csv_folder_name.joinpath(list_name + ".csv")
         with fn.open("w"):
             df.to_csv(fn, encoding=self.encoding, quotechar=self.quotechar)
@@ -284,10 +285,16 @@ class ExporterCSV(Exporter):
             df.to_csv(fn, encoding=self.encoding, quotechar=self.quotechar)
 
     def remove_static(self, list_name: str) -> None:
-        if fns := list(self.csv_folder_name.joinpath(list_name).glob("*.csv")):
+        fns = list(self.csv_folder_name.glob(list_name + "-*.csv"))
+        fn = self.csv_folder_name.joinpath(list_name + ".csv")
+        if fn.exists():
+            fns.append(fn)
+        if fns:
             for fn in fns:
                 fn.unlink()
-            logger.warning(f"Stale csv file(s) {', '.join(fns)} removed")
+            logger.warning(
+                f"Stale csv file(s) {', '.join(fn.name for fn in fns)} removed"
+            )
 
     def remove_series(self, list_name: str, attr: str) -> None:
         fn = self.csv_folder_name.joinpath(list_name + "-" + attr + ".csv")
@@ -457,6 +464,7 @@ class ExporterExcel(Exporter):
         investment_periods.to_excel(self.writer, sheet_name="investment_periods")
 
     def save_static(self, list_name: str, df: pd.DataFrame) -> None:
+        self.remove_static(list_name)
         df.to_excel(self.writer, sheet_name=list_name)
 
     def save_series(self, list_name: str, attr: str, df: pd.DataFrame) -> None:
@@ -464,9 +472,10 @@ class ExporterExcel(Exporter):
         df.to_excel(self.writer, sheet_name=sheet_name)
 
     def remove_static(self, list_name: str) -> None:
-        if list_name in self.writer.book.sheetnames:
-            del self.writer.book[list_name]
-            logger.warning(f"Stale sheet {list_name} removed")
+        for sheet_name in self.writer.book.sheetnames:
+            if sheet_name == list_name or sheet_name.startswith(list_name + "-"):
+                del self.writer.book[sheet_name]
+                logger.warning(f"Stale sheet {sheet_name} removed")
 
     def remove_series(self, list_name: str, attr: str) -> None:
         sheet_name = f"{list_name}-{attr}"
-- 
2.43.0


From df5369fbb2a7f285c0ad2364b9f0aac4530bf094 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:24:55 +0000
Subject: [PATCH 051/103] fix: components with default values only can be
 exported to Excel

---
 pypsa/io.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pypsa/io.py b/pypsa/io.py
index 1e91716..e79e69c 100644
--- a/pypsa/io.py
+++ b/pypsa/io.py
@@ -465,7 +465,8 @@ class ExporterExcel(Exporter):
 
     def save_static(self, list_name: str, df: pd.DataFrame) -> None:
         self.remove_static(list_name)
-        df.to_excel(self.writer, sheet_name=list_name)
+        # The names are written as column to cover tables without other columns
+        df.reset_index().to_excel(self.writer, sheet_name=list_name, index=False)
 
     def save_series(self, list_name: str, attr: str, df: pd.DataFrame) -> None:
         sheet_name = f"{list_name}-{attr}"
-- 
2.43.0


From 37595e7e6f079427c344d02e9cc5f340a8cbf340 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:31:02 +0000
Subject: [PATCH 052/103] fix: names that look like numbers or missing values
 survive CSV and Excel files

---
 pypsa/io.py | 28 ++++++++++++++++++++--------
 1 file changed, 20 insertions(+), 8 deletions(-)

diff --git a/pypsa/io.py b/pypsa/io.py
index e79e69c..ad87625 100644
--- a/pypsa/io.py
+++ b/pypsa/io.py
@@ -25,6 +25,7 @@ from deprecation import deprecated
 from pyproj import CRS
 
 from pypsa.common import check_optional_dependency, deprecated_common_kwargs
+from pypsa.components.types import all_components
 from pypsa.constants import DEFAULT_TIMESTAMP
 from pypsa.descriptors import update_linkports_component_attrs
 
@@ -211,13 +212,17 @@ class ImporterCSV(Importer):
 
     def get_static(self, list_name: str) -> pd.DataFrame:
         fn = self.csv_folder_name.joinpath(list_name + ".csv")
-        return (
-            pd.read_csv(
-                fn, index_col=0, encoding=self.encoding, quotechar=self.quotechar
-            )
-            if fn.is_file()
-            else None
-        )
+        if not fn.is_file():
+            return None
+        # Names and other strings must not be interpreted as numbers or missing values
+        kwargs = {"encoding": self.encoding, "quotechar": self.quotechar}
+        columns = pd.read_csv(fn, nrows=0, **kwargs).columns
+        attrs = all_components[list_name].defaults
+        strings = attrs.index[attrs["type"] == "string"]
+        is_string = columns.isin(strings) | columns.str.fullmatch(r"bus\d+")
+        converters = {c: lambda s: s or np.nan for c in columns[is_string]}
+        converters[columns[0]] = str
+        return pd.read_csv(fn, converters=converters, **kwargs).set_index(columns[0])
 
     def get_series(self, list_name: str) -> Iterable[tuple[str, pd.DataFrame]]:
         for fn in self.csv_folder_name.iterdir():
@@ -321,7 +326,14 @@ class ImporterExcel(Importer):
             raise FileNotFoundError(msg)
         self.engine = engine
 
-        reader = partial(pd.read_excel, sheet_name=None, engine=self.engine)
+        # Names and other strings must not be interpreted as missing values
+        reader = partial(
+            pd.read_excel,
+            sheet_name=None,
+            engine=self.engine,
+            keep_default_na=False,
+            na_values=[""],
+        )
         if validators.url(str(path)):
             self.sheets = _retrieve_from_url(str(path), reader)
         else:
-- 
2.43.0


From 3ad5a01e7b886d084334bafdfb5c669c589926d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:32:47 +0000
Subject: [PATCH 053/103] fix: series of default values are exported if they
 override static values

---
 pypsa/io.py | 16 ++++++++++++----
 1 file changed, 12 insertions(+), 4 deletions(-)

diff --git a/pypsa/io.py b/pypsa/io.py
index ad87625..0309e0c 100644
--- a/pypsa/io.py
+++ b/pypsa/io.py
@@ -870,11 +870,19 @@ def _export_to_exporter(
                 default = attrs.at[attr, "default"]
 
                 if pd.isnull(default):
-                    col_export = dynamic[attr].columns[
-                        (~pd.isnull(dynamic[attr])).any()
-                    ]
+                    changed = (~pd.isnull(dynamic[attr])).any()
                 else:
-                    col_export = dynamic[attr].columns[(dynamic[attr] != default).any()]
+                    changed = (dynamic[attr] != default).any()
+
+                if attrs.at[attr, "static"]:
+                    # series of default values may override another static value
+                    value = n.static(component)[attr].reindex(changed.index)
+                    if pd.isnull(default):
+                        changed |= ~pd.isnull(value)
+                    else:
+                        changed |= value != default
+
+                col_export = dynamic[attr].columns[changed]
 
             if len(col_export) > 0:
                 static = dynamic[attr].reset_index()[col_export]
-- 
2.43.0


From bb25e481df25840e57265eb62a7696b322bca1ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:34:59 +0000
Subject: [PATCH 054/103] fix: strings that look like numbers survive Excel
 files

---
 pypsa/io.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/pypsa/io.py b/pypsa/io.py
index 0309e0c..d603665 100644
--- a/pypsa/io.py
+++ b/pypsa/io.py
@@ -326,11 +326,12 @@ class ImporterExcel(Importer):
             raise FileNotFoundError(msg)
         self.engine = engine
 
-        # Names and other strings must not be interpreted as missing values
+        # Names and other strings must not be read as numbers or missing values
         reader = partial(
             pd.read_excel,
             sheet_name=None,
             engine=self.engine,
+            dtype=object,
             keep_default_na=False,
             na_values=[""],
         )
@@ -338,6 +339,7 @@ class ImporterExcel(Importer):
             self.sheets = _retrieve_from_url(str(path), reader)
         else:
             self.sheets = reader(path)
+        self.sheets = {k: df.infer_objects() for k, df in self.sheets.items()}
         self.index: dict = {}
 
     def get_attributes(self) -> dict | None:
-- 
2.43.0


From 209f7791d1074f2d8d1212f5a0ac035aef336d4b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:37:02 +0000
Subject: [PATCH 055/103] fix: lists and texts in meta data survive Excel files

---
 pypsa/io.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/pypsa/io.py b/pypsa/io.py
index d603665..5eb8fa0 100644
--- a/pypsa/io.py
+++ b/pypsa/io.py
@@ -458,8 +458,14 @@ class ExporterExcel(Exporter):
         # Convert meta dictionary to DataFrame with proper handling of nested dicts
         meta_items = []
         for key, value in meta.items():
-            # If value is a dict, serialize it as JSON
-            if isinstance(value, dict):
+            # Serialize as JSON what is not a number or plain text
+            if isinstance(value, str):
+                try:
+                    json.loads(value)
+                    value = json.dumps(value)
+                except json.JSONDecodeError:
+                    pass
+            elif isinstance(value, bool) or not isinstance(value, (int, float)):
                 value = json.dumps(value)
             meta_items.append([key, value])
 
-- 
2.43.0


From 05258b3e6d75d8d1a9af704d7f4f6e7de25794c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:42:34 +0000
Subject: [PATCH 056/103] fix: infinite numbers in Excel files next to strings

---
 pypsa/io.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/pypsa/io.py b/pypsa/io.py
index 5eb8fa0..15fcc83 100644
--- a/pypsa/io.py
+++ b/pypsa/io.py
@@ -339,6 +339,12 @@ class ImporterExcel(Importer):
             self.sheets = _retrieve_from_url(str(path), reader)
         else:
             self.sheets = reader(path)
+        for df in self.sheets.values():
+            for c in df.columns[1:]:
+                # Columns of numbers contain infinite ones as text
+                text = df.loc[df[c].map(lambda v: isinstance(v, str)), c]
+                if 0 < len(text) < len(df) and text.isin(["inf", "-inf"]).all():
+                    df[c] = df[c].astype(float)
         self.sheets = {k: df.infer_objects() for k, df in self.sheets.items()}
         self.index: dict = {}
 
@@ -415,6 +421,8 @@ class ImporterExcel(Importer):
             if sheet_name.startswith(list_name + "-"):
                 attr = sheet_name[len(list_name) + 1 :]
                 df = df.set_index(df.columns[0])
+                for c in df.columns[df.isin(["inf", "-inf"]).all()]:
+                    df[c] = df[c].astype(float)
                 yield attr, df
 
 
-- 
2.43.0


From 323407e8bb84fb0097732b873c1169f7a5fe1137 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:55:09 +0000
Subject: [PATCH 057/103] fix: system cost statistics keep their grouping when
 there is no operational or capital expenditure

---
 pypsa/statistics/expressions.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/pypsa/statistics/expressions.py b/pypsa/statistics/expressions.py
index 5951ac5..362dff8 100644
--- a/pypsa/statistics/expressions.py
+++ b/pypsa/statistics/expressions.py
@@ -1306,7 +1306,12 @@ class StatisticsAccessor(AbstractStatisticsAccessor):
             drop_zero=drop_zero,
             round=round,
         )
-        df = capex.add(opex, fill_value=0)
+        if opex.empty:
+            df = capex
+        elif capex.empty:
+            df = opex
+        else:
+            df = capex.add(opex, fill_value=0)
         df.attrs["name"] = "System Cost"
         df.attrs["unit"] = "currency"
         return df
-- 
2.43.0


From 87ede40556f24a295ad25d320d348ecf0a4ebe5a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:55:09 +0000
Subject: [PATCH 058/103] fix: operational expenditure includes links

---
 pypsa/statistics/expressions.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pypsa/statistics/expressions.py b/pypsa/statistics/expressions.py
index 362dff8..2ad4ef9 100644
--- a/pypsa/statistics/expressions.py
+++ b/pypsa/statistics/expressions.py
@@ -1157,6 +1157,8 @@ class StatisticsAccessor(AbstractStatisticsAccessor):
                 if cost_type in cost_types_ and cost_type in n.static(c):
                     attr = lookup.query(cost_type).loc[c].index.item()
                     cost = n.get_switchable_as_dense(c, cost_type)
+                    if c in n.branch_components and attr == "p":
+                        attr = "p0"
                     p = n.dynamic(c)[attr]
                     var = p * p if cost_type == "marginal_cost_quadratic" else p
                     opex = var * cost
-- 
2.43.0


From c54cf2455e597b43732d25580f38dc0f44ae45dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:56:36 +0000
Subject: [PATCH 059/103] fix: operational expenditure is weighted like in the
 objective

---
 pypsa/optimization/expressions.py | 2 +-
 pypsa/statistics/expressions.py   | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/pypsa/optimization/expressions.py b/pypsa/optimization/expressions.py
index 3ff8eee..c43284b 100644
--- a/pypsa/optimization/expressions.py
+++ b/pypsa/optimization/expressions.py
@@ -305,7 +305,7 @@ class StatisticExpressionsAccessor(AbstractStatisticsAccessor):
                 return None
             var = n.model.variables[f"{c}-{attr}"]
             opex = var * n.get_switchable_as_dense(c, "marginal_cost")
-            weights = get_weightings(n, c)
+            weights = n.snapshot_weightings["objective"]
             return self._aggregate_timeseries(opex, weights, agg=aggregate_time)
 
         return self._aggregate_components(
diff --git a/pypsa/statistics/expressions.py b/pypsa/statistics/expressions.py
index 2ad4ef9..6130c5e 100644
--- a/pypsa/statistics/expressions.py
+++ b/pypsa/statistics/expressions.py
@@ -1144,7 +1144,7 @@ class StatisticsAccessor(AbstractStatisticsAccessor):
         @pass_empty_series_if_keyerror
         def func(n: Network, c: str, port: str) -> pd.Series:
             result = []
-            weights = get_weightings(n, c)
+            weights = n.snapshot_weightings["objective"]
             weights_one = pd.Series(1.0, index=weights.index)
             com_i = n.get_committable_i(c)
 
-- 
2.43.0


From 7cc9aae540a3de24ca641a46ecc657ae39734b6d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:57:39 +0000
Subject: [PATCH 060/103] fix: time-resolved capacity factors with investment
 periods

---
 pypsa/statistics/expressions.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/pypsa/statistics/expressions.py b/pypsa/statistics/expressions.py
index 6130c5e..474cd1f 100644
--- a/pypsa/statistics/expressions.py
+++ b/pypsa/statistics/expressions.py
@@ -1971,7 +1971,12 @@ class StatisticsAccessor(AbstractStatisticsAccessor):
         )
         df = self._aggregate_components(func, agg=aggregate_groups, **kwargs)  # type: ignore
         capacity = self.optimal_capacity(aggregate_groups=aggregate_groups, **kwargs)
-        df = df.div(capacity.reindex(df.index), axis=0)
+        capacity = capacity.reindex(df.index)
+        if isinstance(capacity, pd.DataFrame) and isinstance(df.columns, pd.MultiIndex):
+            # capacities per investment period, operation per snapshot
+            periods = df.columns.get_level_values(0)
+            capacity = capacity.reindex(columns=periods).set_axis(df.columns, axis=1)
+        df = df.div(capacity, axis=0)
         df.attrs["name"] = "Capacity Factor"
         df.attrs["unit"] = "p.u."
         return df
-- 
2.43.0


From 7465675cd7f9f316abbd512f22157bc99dc8da58 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:59:37 +0000
Subject: [PATCH 061/103] fix: expanded capacities of periods without installed
 capacity

---
 pypsa/statistics/expressions.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pypsa/statistics/expressions.py b/pypsa/statistics/expressions.py
index 474cd1f..04b5071 100644
--- a/pypsa/statistics/expressions.py
+++ b/pypsa/statistics/expressions.py
@@ -1030,6 +1030,8 @@ class StatisticsAccessor(AbstractStatisticsAccessor):
             round=round,
         )
         installed = installed.reindex(optimal.index, fill_value=0)
+        # dropped zeros are missing values if there are several columns
+        optimal, installed = optimal.fillna(0), installed.fillna(0)
         df = optimal.sub(installed).where(optimal.abs() > installed.abs(), 0)
         df.attrs["name"] = "Expanded Capacity"
         df.attrs["unit"] = "MW"
-- 
2.43.0


From 5053f74da1db8d850845ef212f691af2a0e34de8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:01:51 +0000
Subject: [PATCH 062/103] fix: time series statistics leave out inactive assets

---
 pypsa/statistics/abstract.py | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/pypsa/statistics/abstract.py b/pypsa/statistics/abstract.py
index 863e78e..cea7713 100644
--- a/pypsa/statistics/abstract.py
+++ b/pypsa/statistics/abstract.py
@@ -305,14 +305,23 @@ class AbstractStatisticsAccessor(ABC):
         return False
 
     def _filter_active_assets(self, n: Network, c: str, obj: Any) -> Any:
-        """For static values iterate over periods and concat values."""
-        if isinstance(obj, pd.DataFrame) or "snapshot" in getattr(obj, "dims", []):
+        """Keep the values of active assets, for each investment period if there are any."""
+        if "snapshot" in getattr(obj, "dims", []):
             return obj
         idx = self._get_component_index(obj, c)
         if not self.is_multi_indexed:
             mask = n.get_active_assets(c)
             return obj.loc[mask.index[mask].intersection(idx)]
 
+        if isinstance(obj, pd.DataFrame):
+            # columns are investment periods or snapshots
+            mask = pd.concat(
+                {p: n.get_active_assets(c, p)[idx] for p in n.investment_periods},
+                axis=1,
+            )
+            active = mask[obj.columns.get_level_values(0)].to_numpy()
+            return obj.where(active).loc[mask.any(axis=1)]
+
         per_period = {}
         for p in n.investment_periods:
             mask = n.get_active_assets(c, p)
-- 
2.43.0


From 65cfe6e527ea141231197ab1eb7f37c20363eeff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:03:45 +0000
Subject: [PATCH 063/103] fix: ungrouped statistics have the same index for one
 and several component types

---
 pypsa/statistics/expressions.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/pypsa/statistics/expressions.py b/pypsa/statistics/expressions.py
index 04b5071..deadd40 100644
--- a/pypsa/statistics/expressions.py
+++ b/pypsa/statistics/expressions.py
@@ -226,7 +226,11 @@ class StatisticsAccessor(AbstractStatisticsAccessor):
         first_key = next(iter(d))
         if is_one_component:
             return d[first_key]
-        index_names = [x.index.names for x in d.values()]
+        # Ungrouped values are indexed by component name
+        index_names = [
+            ["name"] if list(x.index.names) == [c] else x.index.names
+            for c, x in d.items()
+        ]
         # If index names are the same, use them
         if all(x == index_names[0] for x in index_names):
             col_names = ["component"] + index_names[0]
-- 
2.43.0


From 9ca8fe7305040c3a4786053b9a32ef2e88eb192b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:11:38 +0000
Subject: [PATCH 064/103] fix: statistics of networks whose default results
 were not stored

---
 pypsa/statistics/expressions.py | 19 ++++++++++++++-----
 1 file changed, 14 insertions(+), 5 deletions(-)

diff --git a/pypsa/statistics/expressions.py b/pypsa/statistics/expressions.py
index deadd40..0c33a39 100644
--- a/pypsa/statistics/expressions.py
+++ b/pypsa/statistics/expressions.py
@@ -1176,6 +1176,9 @@ class StatisticsAccessor(AbstractStatisticsAccessor):
                 shut_down_cost="shut_down",
                 stand_by_cost="status",
             )
+            has_results = not com_i.empty and any(
+                not n.dynamic(c)[attr].empty for attr in mapping.values()
+            )
             for cost_type, attr in mapping.items():
                 if (
                     cost_type in cost_types_
@@ -1183,7 +1186,12 @@ class StatisticsAccessor(AbstractStatisticsAccessor):
                     and not com_i.empty
                 ):
                     cost = n.get_switchable_as_dense(c, cost_type, inds=com_i)
-                    var = n.dynamic(c)[attr].loc[:, com_i]
+                    var = n.dynamic(c)[attr]
+                    if has_results:
+                        # saved networks do not contain results with default values
+                        default = n.components[c]["attrs"].at[attr, "default"]
+                        var = var.reindex(columns=com_i, fill_value=default)
+                    var = var.loc[:, com_i]
                     opex = var * cost
                     w = weights if attr == "status" else weights_one
                     term = self._aggregate_timeseries(opex, w, agg=aggregate_time)
@@ -1853,10 +1861,11 @@ class StatisticsAccessor(AbstractStatisticsAccessor):
 
         @pass_empty_series_if_keyerror
         def func(n: Network, c: str, port: str) -> pd.Series:
-            p = (
-                n.get_switchable_as_dense(c, "p_max_pu") * n.static(c).p_nom_opt
-                - n.dynamic(c).p
-            ).clip(lower=0)
+            assets = n.static(c)
+            # saved networks do not contain results with default values
+            p = n.dynamic(c).p.reindex(columns=assets.index, fill_value=0.0)
+            p_max_pu = n.get_switchable_as_dense(c, "p_max_pu")
+            p = (p_max_pu * assets.p_nom_opt - p).clip(lower=0)
             weights = get_weightings(n, c)
             return self._aggregate_timeseries(p, weights, agg=aggregate_time)
 
-- 
2.43.0


From 3cb95d2ecc92fd5fc79e9bac0d7db6f38fcfce0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:12:19 +0000
Subject: [PATCH 065/103] fix: custom attributes whose name contains 'bus' are
 not taken for ports

---
 pypsa/components/abstract.py    | 5 ++++-
 pypsa/consistency.py            | 2 +-
 pypsa/io.py                     | 3 ++-
 pypsa/optimization/common.py    | 2 +-
 pypsa/statistics/abstract.py    | 2 +-
 pypsa/statistics/expressions.py | 2 +-
 6 files changed, 10 insertions(+), 6 deletions(-)

diff --git a/pypsa/components/abstract.py b/pypsa/components/abstract.py
index 2145738..407ca4e 100644
--- a/pypsa/components/abstract.py
+++ b/pypsa/components/abstract.py
@@ -9,6 +9,7 @@ logic from other modules:
 from __future__ import annotations
 
 import logging
+import re
 from abc import ABC
 from collections.abc import Callable, Sequence
 from dataclasses import dataclass
@@ -632,7 +633,9 @@ class Components(ComponentsData, ABC):
         ['0', '1']
 
         """
-        return [str(col)[3:] for col in self.static if str(col).startswith("bus")]
+        return [
+            str(col)[3:] for col in self.static if re.fullmatch(r"bus\d*", str(col))
+        ]
 
     @property
     def nominal_attr(self) -> str:
diff --git a/pypsa/consistency.py b/pypsa/consistency.py
index 1e63704..3c67d30 100644
--- a/pypsa/consistency.py
+++ b/pypsa/consistency.py
@@ -27,7 +27,7 @@ class ConsistencyError(ValueError):
 
 
 def _bus_columns(df: pd.DataFrame) -> pd.Index:
-    return df.columns[df.columns.str.startswith("bus")]
+    return df.columns[df.columns.str.fullmatch(r"bus\d*")]
 
 
 def _log_or_raise(strict: bool, message: str, *args: Any) -> None:
diff --git a/pypsa/io.py b/pypsa/io.py
index 15fcc83..cc854f4 100644
--- a/pypsa/io.py
+++ b/pypsa/io.py
@@ -8,6 +8,7 @@ import json
 import logging
 import math
 import os
+import re
 import tempfile
 from abc import abstractmethod
 from collections.abc import Callable, Collection, Iterable, Sequence
@@ -1515,7 +1516,7 @@ def _import_components_from_df(
 
     # check all the buses are well-defined
     # TODO use func from consistency checks
-    for attr in [attr for attr in df if attr.startswith("bus")]:
+    for attr in [attr for attr in df if re.fullmatch(r"bus\d*", attr)]:
         # allow empty buses for multi-ports
         port = int(attr[-1]) if attr[-1].isdigit() else 0
         mask = ~df[attr].isin(n.buses.index)
diff --git a/pypsa/optimization/common.py b/pypsa/optimization/common.py
index d4aee4f..8ea49e4 100644
--- a/pypsa/optimization/common.py
+++ b/pypsa/optimization/common.py
@@ -62,7 +62,7 @@ def get_strongly_meshed_buses(n: Network, threshold: int = 45) -> pd.Series:
     pandas series of all meshed buses.
     """
     all_buses = pd.Series(
-        hstack([ravel(c.static.filter(like="bus")) for c in n.iterate_components()])
+        hstack([ravel(c.static.filter(regex=r"^bus\d*$")) for c in n.iterate_components()])
     )
     all_buses = all_buses[all_buses != ""]
     counts = all_buses.value_counts()
diff --git a/pypsa/statistics/abstract.py b/pypsa/statistics/abstract.py
index cea7713..af76f5e 100644
--- a/pypsa/statistics/abstract.py
+++ b/pypsa/statistics/abstract.py
@@ -248,7 +248,7 @@ class AbstractStatisticsAccessor(ABC):
             if n.static(c).empty:
                 continue
 
-            ports = [str(col)[3:] for col in n.static(c) if str(col).startswith("bus")]
+            ports = n.components[c].ports
             if not at_port:
                 ports = [ports[0]]
 
diff --git a/pypsa/statistics/expressions.py b/pypsa/statistics/expressions.py
index 0c33a39..9ab67f3 100644
--- a/pypsa/statistics/expressions.py
+++ b/pypsa/statistics/expressions.py
@@ -75,7 +75,7 @@ def get_transmission_branches(
     index = {}
     for c in n.branch_components:
         bus_map = (
-            n.static(c).filter(like="bus").apply(lambda ds: ds.map(n.buses.carrier))
+            n.static(c).filter(regex=r"^bus\d*$").apply(lambda ds: ds.map(n.buses.carrier))
         )
         if isinstance(bus_carrier, str):
             bus_carrier = [bus_carrier]
-- 
2.43.0


From 6b0dc02d25982fae6f06b975a304d49a56007720 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:12:19 +0000
Subject: [PATCH 066/103] fix: ungrouped operational expenditure is indexed
 like other statistics

---
 pypsa/statistics/expressions.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pypsa/statistics/expressions.py b/pypsa/statistics/expressions.py
index 9ab67f3..5bdae74 100644
--- a/pypsa/statistics/expressions.py
+++ b/pypsa/statistics/expressions.py
@@ -1198,7 +1198,8 @@ class StatisticsAccessor(AbstractStatisticsAccessor):
                     result.append(term)
             if not result:
                 return pd.Series()
-            return pd.concat(result).groupby(level=0).sum()
+            names = n.static(c).index.name
+            return pd.concat(result).groupby(level=0).sum().rename_axis(index=names)
 
         df = self._aggregate_components(
             func,
-- 
2.43.0


From ad43c62434189d1765459716fd45c1dc81e96857 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:15:38 +0000
Subject: [PATCH 067/103] fix: statistics filtered by carrier leave out
 components without carrier

---
 pypsa/statistics/abstract.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/pypsa/statistics/abstract.py b/pypsa/statistics/abstract.py
index af76f5e..6645cf6 100644
--- a/pypsa/statistics/abstract.py
+++ b/pypsa/statistics/abstract.py
@@ -367,10 +367,13 @@ class AbstractStatisticsAccessor(ABC):
         obj: Any,
     ) -> Any:
         """Filter the DataFrame for components which have the specified carrier."""
-        if carrier is None or "carrier" not in n.static(c):
+        if carrier is None:
             return obj
 
         idx = self._get_component_index(obj, c)
+        if "carrier" not in n.static(c):
+            return obj.loc[idx[:0]]
+
         carriers = n.static(c).loc[idx, "carrier"]
 
         if isinstance(carrier, str):
-- 
2.43.0


From 70c00d96edde550c69bdd49693e087faad6c5b05 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:16:16 +0000
Subject: [PATCH 068/103] fix: statistics keep zeros if they are not to be
 dropped

---
 pypsa/statistics/expressions.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pypsa/statistics/expressions.py b/pypsa/statistics/expressions.py
index 5bdae74..174e1f5 100644
--- a/pypsa/statistics/expressions.py
+++ b/pypsa/statistics/expressions.py
@@ -261,7 +261,7 @@ class StatisticsAccessor(AbstractStatisticsAccessor):
         )
         if round_ is not None:
             df = df.round(round_)
-        if drop_zero_ is not None:
+        if drop_zero_:
             df = df[df != 0]
 
         return df
-- 
2.43.0


From 36a0ebb26bc84d8e1b941a0270dce7fc06ef2e8f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:16:43 +0000
Subject: [PATCH 069/103] fix: a carrier filter matches the same carriers for
 all component types

---
 pypsa/statistics/abstract.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/pypsa/statistics/abstract.py b/pypsa/statistics/abstract.py
index 6645cf6..ebc615a 100644
--- a/pypsa/statistics/abstract.py
+++ b/pypsa/statistics/abstract.py
@@ -377,7 +377,12 @@ class AbstractStatisticsAccessor(ABC):
         carriers = n.static(c).loc[idx, "carrier"]
 
         if isinstance(carrier, str):
-            if carrier in carriers.unique():
+            # match exactly if any component has this carrier, not only those of type c
+            components = n.branch_components | n.one_port_components
+            if any(
+                (n.static(comp).get("carrier", pd.Series()) == carrier).any()
+                for comp in components
+            ):
                 mask = carriers == carrier
             else:
                 mask = carriers.str.contains(carrier)
-- 
2.43.0


From 22aba3a635dd1fecd7128cbd830c5a9661491dee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:16:43 +0000
Subject: [PATCH 070/103] fix: statistics do not count additional ports at
 links without them

---
 pypsa/statistics/abstract.py | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/pypsa/statistics/abstract.py b/pypsa/statistics/abstract.py
index ebc615a..7856b3d 100644
--- a/pypsa/statistics/abstract.py
+++ b/pypsa/statistics/abstract.py
@@ -259,6 +259,7 @@ class AbstractStatisticsAccessor(ABC):
                     continue
 
                 vals = self._filter_active_assets(n, c, vals)  # for multiinvest
+                vals = self._filter_unconnected_ports(n, c, port, vals)
                 vals = self._filter_bus_carrier(n, c, port, bus_carrier, vals)
                 vals = self._filter_carrier(n, c, carrier, vals)
 
@@ -329,6 +330,14 @@ class AbstractStatisticsAccessor(ABC):
 
         return self._concat_periods(per_period, c)
 
+    def _filter_unconnected_ports(self, n: Network, c: str, port: str, obj: Any) -> Any:
+        """Leave out links which do not have an additional port."""
+        if port in ["", "0", "1"]:
+            return obj
+        idx = self._get_component_index(obj, c)
+        connected = n.static(c).loc[idx, f"bus{port}"] != ""
+        return obj.loc[connected.index[connected]]
+
     def _filter_bus_carrier(
         self,
         n: Network,
-- 
2.43.0


From 51a08bde1684655bcdedf3d362e32ae0e56f0500 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:21:21 +0000
Subject: [PATCH 071/103] fix: capacity factors of networks without operation

---
 pypsa/statistics/expressions.py | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/pypsa/statistics/expressions.py b/pypsa/statistics/expressions.py
index 174e1f5..db8045f 100644
--- a/pypsa/statistics/expressions.py
+++ b/pypsa/statistics/expressions.py
@@ -1987,12 +1987,14 @@ class StatisticsAccessor(AbstractStatisticsAccessor):
         )
         df = self._aggregate_components(func, agg=aggregate_groups, **kwargs)  # type: ignore
         capacity = self.optimal_capacity(aggregate_groups=aggregate_groups, **kwargs)
-        capacity = capacity.reindex(df.index)
-        if isinstance(capacity, pd.DataFrame) and isinstance(df.columns, pd.MultiIndex):
-            # capacities per investment period, operation per snapshot
-            periods = df.columns.get_level_values(0)
-            capacity = capacity.reindex(columns=periods).set_axis(df.columns, axis=1)
-        df = df.div(capacity, axis=0)
+        if not df.empty:
+            capacity = capacity.reindex(df.index)
+            if capacity.ndim == df.ndim == 2 and isinstance(df.columns, pd.MultiIndex):
+                # capacities per investment period, operation per snapshot
+                periods = df.columns.get_level_values(0)
+                capacity = capacity.reindex(columns=periods)
+                capacity = capacity.set_axis(df.columns, axis=1)
+            df = df.div(capacity, axis=0)
         df.attrs["name"] = "Capacity Factor"
         df.attrs["unit"] = "p.u."
         return df
-- 
2.43.0


From f023656114d1df34994111b4711c73d8c7f2266b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:29:20 +0000
Subject: [PATCH 072/103] fix: capacity expressions of networks with extendable
 and non-extendable components

---
 pypsa/optimization/expressions.py | 48 +++++++++++++++++++------------
 1 file changed, 29 insertions(+), 19 deletions(-)

diff --git a/pypsa/optimization/expressions.py b/pypsa/optimization/expressions.py
index c43284b..721a677 100644
--- a/pypsa/optimization/expressions.py
+++ b/pypsa/optimization/expressions.py
@@ -148,6 +148,25 @@ class StatisticExpressionsAccessor(AbstractStatisticsAccessor):
         group = expr.indexes["group"].to_frame().drop(columns="component").squeeze()
         return expr.groupby(group).sum()
 
+    def _get_capacity(
+        self, c: str, include_non_extendable: bool = True
+    ) -> LinearExpression | None:
+        """
+        Get the nominal capacity of all (or only of all extendable) components.
+        """
+        m = self._n.model
+        attr = nominal_attrs[c]
+        exprs = []
+        if f"{c}-{attr}" in m.variables:
+            capacity = m.variables[f"{c}-{attr}"].rename({f"{c}-ext": c})
+            exprs.append(capacity.to_linexpr())
+        fixed = self._n.df(c).query(f"~{attr}_extendable")[attr]
+        if include_non_extendable and not fixed.empty:
+            exprs.append(LinearExpression(fixed.rename_axis(c), m))
+        if not exprs:
+            return None
+        return ln.merge(exprs, dim=c)
+
     def _get_operational_variable(self, c: str) -> Variable | LinearExpression:
         # TODO: move function to better place to avoid circular imports
         from pypsa.optimization.optimize import lookup
@@ -188,12 +207,9 @@ class StatisticExpressionsAccessor(AbstractStatisticsAccessor):
 
         @pass_none_if_keyerror
         def func(n: Network, c: str, port: str) -> pd.Series | None:
-            m = n.model
-            capacity = m.variables[f"{c}-{nominal_attrs[c]}"]
-            capacity = capacity.rename({f"{c}-ext": c})
-            if include_non_extendable:
-                query = f"~{nominal_attrs[c]}_extendable"
-                capacity = capacity + n.df(c).query(query)["p_nom"]
+            capacity = self._get_capacity(c, include_non_extendable)
+            if capacity is None:
+                return None
             costs = n.df(c)[cost_attribute][capacity.indexes[c]]
             return capacity * costs
 
@@ -241,19 +257,15 @@ class StatisticExpressionsAccessor(AbstractStatisticsAccessor):
 
         @pass_none_if_keyerror
         def func(n: Network, c: str, port: str) -> pd.Series | None:
-            m = n.model
-            attr = nominal_attrs[c]
-            capacity = m.variables[f"{c}-{nominal_attrs[c]}"]
-            capacity = capacity.rename({f"{c}-ext": c})
-            if include_non_extendable:
-                query = f"~{attr}_extendable"
-                capacity = capacity + n.df(c).query(query)[attr]
+            capacity = self._get_capacity(c, include_non_extendable)
+            if capacity is None:
+                return None
             efficiency = port_efficiency(n, c, port=port)[capacity.indexes[c]]
             if not at_port:
                 efficiency = abs(efficiency)
             res = capacity * efficiency
             if storage and (c == "StorageUnit"):
-                res = res * n.df(c).max_hours
+                res = res * n.df(c).max_hours[capacity.indexes[c]]
             return res
 
         return self._aggregate_components(
@@ -553,11 +565,9 @@ class StatisticExpressionsAccessor(AbstractStatisticsAccessor):
 
         @pass_none_if_keyerror
         def func(n: Network, c: str, port: str) -> pd.Series:
-            attr = nominal_attrs[c]
-            capacity = (
-                n.model.variables[f"{c}-{attr}"].rename({f"{c}-ext": c})
-                + n.df(c).query(f"~{attr}_extendable")[attr]
-            )
+            capacity = self._get_capacity(c)
+            if capacity is None:
+                return None
             idx = capacity.indexes[c]
             p_max_pu = DataArray(n.get_switchable_as_dense(c, "p_max_pu")[idx])
             operation = self._get_operational_variable(c).loc[:, idx]
-- 
2.43.0


From cc59fdb679df3c55b4616ef4a295cbe422f6f338 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:29:21 +0000
Subject: [PATCH 073/103] fix: energy balance expressions can be built from
 solved models

---
 pypsa/optimization/expressions.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pypsa/optimization/expressions.py b/pypsa/optimization/expressions.py
index 721a677..9a4cd22 100644
--- a/pypsa/optimization/expressions.py
+++ b/pypsa/optimization/expressions.py
@@ -446,7 +446,7 @@ class StatisticExpressionsAccessor(AbstractStatisticsAccessor):
                 raise ValueError(
                     f"Got unexpected argument kind={kind}. Must be 'supply', 'withdrawal' or None."
                 )
-            p = var.where(coeffs != 0) * coeffs
+            p = (1 * var).where(coeffs != 0) * coeffs
             return self._aggregate_timeseries(p, weights, agg=aggregate_time)
 
         return self._aggregate_components(
-- 
2.43.0


From 88a1523ef2f934f2c8b6eaa0ae5bccfb8981e65c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:29:21 +0000
Subject: [PATCH 074/103] fix: curtailment expressions without available power
 and like the statistics without links

---
 pypsa/optimization/expressions.py | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/pypsa/optimization/expressions.py b/pypsa/optimization/expressions.py
index 9a4cd22..94ee081 100644
--- a/pypsa/optimization/expressions.py
+++ b/pypsa/optimization/expressions.py
@@ -566,14 +566,12 @@ class StatisticExpressionsAccessor(AbstractStatisticsAccessor):
         @pass_none_if_keyerror
         def func(n: Network, c: str, port: str) -> pd.Series:
             capacity = self._get_capacity(c)
-            if capacity is None:
+            if capacity is None or c in n.branch_components:
                 return None
             idx = capacity.indexes[c]
             p_max_pu = DataArray(n.get_switchable_as_dense(c, "p_max_pu")[idx])
             operation = self._get_operational_variable(c).loc[:, idx]
-            # the following needs to be fixed in linopy, right now constants cannot be used for broadcasting
-            # curtailment = capacity * p_max_pu - operation
-            curtailment = (capacity - operation / p_max_pu) * p_max_pu
+            curtailment = capacity * p_max_pu - operation
             weights = get_weightings(n, c)
             return self._aggregate_timeseries(curtailment, weights, agg=aggregate_time)
 
-- 
2.43.0


From 4e86689411b44da1d34135de4f1a824004ca85e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:29:21 +0000
Subject: [PATCH 075/103] fix: transmission expressions have the sign of the
 statistics

---
 pypsa/optimization/expressions.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pypsa/optimization/expressions.py b/pypsa/optimization/expressions.py
index 94ee081..73b81de 100644
--- a/pypsa/optimization/expressions.py
+++ b/pypsa/optimization/expressions.py
@@ -371,7 +371,8 @@ class StatisticExpressionsAccessor(AbstractStatisticsAccessor):
             var = self._get_operational_variable(c)
             idx = transmission_branches.get_loc_level(c)[1].rename(c)
             efficiency = port_efficiency(n, c, port=port, dynamic=True)
-            p = var.loc[:, idx] * efficiency[idx]
+            # positive at the bus from which power is taken, like in the results
+            p = var.loc[:, idx] * -efficiency[idx]
             weights = get_weightings(n, c)
             return self._aggregate_timeseries(p, weights, agg=aggregate_time)
 
-- 
2.43.0


From 3fc1005377648504444b4573ebe222ef421e7313 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:29:21 +0000
Subject: [PATCH 076/103] fix: energy balance expressions use the power of
 stores

---
 pypsa/optimization/expressions.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/pypsa/optimization/expressions.py b/pypsa/optimization/expressions.py
index 73b81de..c737964 100644
--- a/pypsa/optimization/expressions.py
+++ b/pypsa/optimization/expressions.py
@@ -430,7 +430,10 @@ class StatisticExpressionsAccessor(AbstractStatisticsAccessor):
 
         @pass_none_if_keyerror
         def func(n: Network, c: str, port: str) -> pd.Series:
-            var = self._get_operational_variable(c)
+            if c == "Store":
+                var = n.model.variables["Store-p"]
+            else:
+                var = self._get_operational_variable(c)
             # negative branch contributions are considered by the efficiency
             efficiency = port_efficiency(n, c, port=port, dynamic=True)
             sign = n.df(c).get("sign", 1.0)
-- 
2.43.0


From c615a82ce3c4e8470e71bbeaf003fad205da8258 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:29:21 +0000
Subject: [PATCH 077/103] fix: expressions leave out inactive loads

---
 pypsa/optimization/expressions.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/pypsa/optimization/expressions.py b/pypsa/optimization/expressions.py
index c737964..7fdd555 100644
--- a/pypsa/optimization/expressions.py
+++ b/pypsa/optimization/expressions.py
@@ -174,7 +174,9 @@ class StatisticExpressionsAccessor(AbstractStatisticsAccessor):
         m = self._n.model
 
         if c == "Load":
-            return LinearExpression(self._n.get_switchable_as_dense(c, "p_set"), m)
+            p_set = self._n.get_switchable_as_dense(c, "p_set")
+            active = self._n.get_active_assets(c)
+            return LinearExpression(p_set.where(active, 0), m)
         attr = lookup.query("not nominal and not handle_separately").loc[c].index
         if c == "StorageUnit":
             assert set(["p_store", "p_dispatch"]) <= set(attr)
-- 
2.43.0


From b6a8e8e44d0a400b05334ff7033bbb116cfe28a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:31:42 +0000
Subject: [PATCH 078/103] fix: expressions of a single group can be aggregated
 across components

---
 pypsa/optimization/expressions.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/pypsa/optimization/expressions.py b/pypsa/optimization/expressions.py
index 7fdd555..eeb4827 100644
--- a/pypsa/optimization/expressions.py
+++ b/pypsa/optimization/expressions.py
@@ -145,7 +145,9 @@ class StatisticExpressionsAccessor(AbstractStatisticsAccessor):
             raise ValueError(f"Aggregation method {agg} not supported.")
         if check_if_empty(expr):
             return expr
-        group = expr.indexes["group"].to_frame().drop(columns="component").squeeze()
+        group = expr.indexes["group"].to_frame().drop(columns="component")
+        if len(group.columns) == 1:
+            group = group.squeeze(axis=1)
         return expr.groupby(group).sum()
 
     def _get_capacity(
-- 
2.43.0


From fe02651cb248de8cb080ddb0530c402abb306580 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:03 +0000
Subject: [PATCH 079/103] fix: filters of time-resolved expressions

---
 pypsa/optimization/expressions.py |  5 ++++-
 pypsa/statistics/abstract.py      | 18 ++++++++++++------
 2 files changed, 16 insertions(+), 7 deletions(-)

diff --git a/pypsa/optimization/expressions.py b/pypsa/optimization/expressions.py
index eeb4827..2787eb0 100644
--- a/pypsa/optimization/expressions.py
+++ b/pypsa/optimization/expressions.py
@@ -79,6 +79,9 @@ class StatisticExpressionsAccessor(AbstractStatisticsAccessor):
     def _get_component_index(self, obj: LinearExpression, c: str) -> pd.Index:
         return obj.indexes[c]
 
+    def _select(self, expr: LinearExpression, c: str, index: pd.Index) -> Any:
+        return expr.sel({c: index})
+
     def _concat_periods(self, exprs: dict[str, LinearExpression], c: str) -> Any:
         return ln.merge(list(exprs.values()), dim=c)
 
@@ -178,7 +181,7 @@ class StatisticExpressionsAccessor(AbstractStatisticsAccessor):
         if c == "Load":
             p_set = self._n.get_switchable_as_dense(c, "p_set")
             active = self._n.get_active_assets(c)
-            return LinearExpression(p_set.where(active, 0), m)
+            return LinearExpression(p_set * active, m)
         attr = lookup.query("not nominal and not handle_separately").loc[c].index
         if c == "StorageUnit":
             assert set(["p_store", "p_dispatch"]) <= set(attr)
diff --git a/pypsa/statistics/abstract.py b/pypsa/statistics/abstract.py
index 7856b3d..66de783 100644
--- a/pypsa/statistics/abstract.py
+++ b/pypsa/statistics/abstract.py
@@ -305,6 +305,10 @@ class AbstractStatisticsAccessor(ABC):
     def _aggregate_components_skip_iteration(self, vals: Any) -> bool:
         return False
 
+    def _select(self, obj: Any, c: str, index: pd.Index) -> Any:
+        """Select components from the values."""
+        return obj.loc[index]
+
     def _filter_active_assets(self, n: Network, c: str, obj: Any) -> Any:
         """Keep the values of active assets, for each investment period if there are any."""
         if "snapshot" in getattr(obj, "dims", []):
@@ -312,7 +316,7 @@ class AbstractStatisticsAccessor(ABC):
         idx = self._get_component_index(obj, c)
         if not self.is_multi_indexed:
             mask = n.get_active_assets(c)
-            return obj.loc[mask.index[mask].intersection(idx)]
+            return self._select(obj, c, mask.index[mask].intersection(idx))
 
         if isinstance(obj, pd.DataFrame):
             # columns are investment periods or snapshots
@@ -326,7 +330,9 @@ class AbstractStatisticsAccessor(ABC):
         per_period = {}
         for p in n.investment_periods:
             mask = n.get_active_assets(c, p)
-            per_period[p] = obj.loc[mask.index[mask].intersection(idx)]
+            per_period[p] = self._select(
+                obj, c, mask.index[mask].intersection(idx)
+            )
 
         return self._concat_periods(per_period, c)
 
@@ -336,7 +342,7 @@ class AbstractStatisticsAccessor(ABC):
             return obj
         idx = self._get_component_index(obj, c)
         connected = n.static(c).loc[idx, f"bus{port}"] != ""
-        return obj.loc[connected.index[connected]]
+        return self._select(obj, c, connected.index[connected])
 
     def _filter_bus_carrier(
         self,
@@ -366,7 +372,7 @@ class AbstractStatisticsAccessor(ABC):
             )
         # links may have empty ports which results in NaNs
         mask = mask.where(mask.notnull(), False)
-        return obj.loc[ports.index[mask]]
+        return self._select(obj, c, ports.index[mask])
 
     def _filter_carrier(
         self,
@@ -381,7 +387,7 @@ class AbstractStatisticsAccessor(ABC):
 
         idx = self._get_component_index(obj, c)
         if "carrier" not in n.static(c):
-            return obj.loc[idx[:0]]
+            return self._select(obj, c, idx[:0])
 
         carriers = n.static(c).loc[idx, "carrier"]
 
@@ -402,4 +408,4 @@ class AbstractStatisticsAccessor(ABC):
                 f"Argument `carrier` must be a string or list, got {type(carrier)}"
             )
 
-        return obj.loc[carriers.index[mask]]
+        return self._select(obj, c, carriers.index[mask])
-- 
2.43.0


From 8113d7a2bf8b13079dda182710ddde73b3ccea76 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:55 +0000
Subject: [PATCH 080/103] fix: expressions of several ports with different
 groups, time-resolved expressions of one component and of inactive components

---
 pypsa/optimization/expressions.py | 23 +++++++++++++----------
 pypsa/statistics/abstract.py      |  2 +-
 2 files changed, 14 insertions(+), 11 deletions(-)

diff --git a/pypsa/optimization/expressions.py b/pypsa/optimization/expressions.py
index 2787eb0..01b9c1d 100644
--- a/pypsa/optimization/expressions.py
+++ b/pypsa/optimization/expressions.py
@@ -112,13 +112,16 @@ class StatisticExpressionsAccessor(AbstractStatisticsAccessor):
     def _aggregate_components_concat_values(
         self, exprs: list[LinearExpression], agg: Callable | str
     ) -> LinearExpression:
-        res = ln.merge(exprs)
-        if not (index := res.indexes[res.dims[0]]).is_unique:
-            if agg != "sum":
-                raise ValueError(f"Aggregation method {agg} not supported.")
-            non_unique_groups = pd.DataFrame(list(index), columns=index.names)
-            res = res.groupby(non_unique_groups).sum()
-        return res
+        if len(exprs) > 1 and agg != "sum":
+            raise ValueError(f"Aggregation method {agg} not supported.")
+        # join on the groups, which may differ between the ports
+        return ln.merge(
+            exprs,
+            coords="minimal",
+            compat="override",
+            join="outer",
+            fill_value=LinearExpression._fill_value,
+        )
 
     def _aggregate_components_concat_data(
         self, res: dict[str, LinearExpression], is_one_component: bool
@@ -127,7 +130,7 @@ class StatisticExpressionsAccessor(AbstractStatisticsAccessor):
             return LinearExpression(None, self._n.model)
         if is_one_component:
             first_key = next(iter(res))
-            return res[first_key].loc[first_key]
+            return res[first_key].sel(group=first_key)
         return ln.merge(list(res.values()), dim="group")
 
     def _apply_option_kwargs(
@@ -146,7 +149,7 @@ class StatisticExpressionsAccessor(AbstractStatisticsAccessor):
     ) -> LinearExpression:
         if agg != "sum":
             raise ValueError(f"Aggregation method {agg} not supported.")
-        if check_if_empty(expr):
+        if "group" not in expr.indexes:
             return expr
         group = expr.indexes["group"].to_frame().drop(columns="component")
         if len(group.columns) == 1:
@@ -629,7 +632,7 @@ class StatisticExpressionsAccessor(AbstractStatisticsAccessor):
 
         @pass_none_if_keyerror
         def func(n: Network, c: str, port: str) -> pd.Series:
-            operation = self._get_operational_variable(c)
+            operation = 1 * self._get_operational_variable(c)
             weights = get_weightings(n, c)
             return self._aggregate_timeseries(operation, weights, agg=aggregate_time)
 
diff --git a/pypsa/statistics/abstract.py b/pypsa/statistics/abstract.py
index 66de783..6803108 100644
--- a/pypsa/statistics/abstract.py
+++ b/pypsa/statistics/abstract.py
@@ -311,7 +311,7 @@ class AbstractStatisticsAccessor(ABC):
 
     def _filter_active_assets(self, n: Network, c: str, obj: Any) -> Any:
         """Keep the values of active assets, for each investment period if there are any."""
-        if "snapshot" in getattr(obj, "dims", []):
+        if self.is_multi_indexed and "snapshot" in getattr(obj, "dims", []):
             return obj
         idx = self._get_component_index(obj, c)
         if not self.is_multi_indexed:
-- 
2.43.0


From 381c39aafeac73d4c3342355cd61db4899973a93 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:17 +0000
Subject: [PATCH 081/103] fix: expressions of each component

---
 pypsa/optimization/expressions.py | 12 ++++++++++--
 pypsa/statistics/abstract.py      |  6 ++++++
 2 files changed, 16 insertions(+), 2 deletions(-)

diff --git a/pypsa/optimization/expressions.py b/pypsa/optimization/expressions.py
index 01b9c1d..4370dd3 100644
--- a/pypsa/optimization/expressions.py
+++ b/pypsa/optimization/expressions.py
@@ -68,8 +68,6 @@ class StatisticExpressionsAccessor(AbstractStatisticsAccessor):
             grouper = pd.concat(by, axis=1)
         elif isinstance(by, pd.Series):
             grouper = by.to_frame()
-        elif groupby is False:
-            grouper = pd.DataFrame(index=n.df(c).index)
         else:
             grouper = by
 
@@ -109,6 +107,14 @@ class StatisticExpressionsAccessor(AbstractStatisticsAccessor):
     ) -> pd.DataFrame:
         return vals.groupby(grouping).sum()
 
+    def _aggregate_components_no_groupby(
+        self, vals: LinearExpression, c: str
+    ) -> LinearExpression:
+        # one group per component, as expressions are merged along the groups
+        names = vals.indexes[c]
+        grouping = pd.DataFrame({"component": c, "name": names}, index=names)
+        return vals.groupby(grouping.rename_axis(c)).sum()
+
     def _aggregate_components_concat_values(
         self, exprs: list[LinearExpression], agg: Callable | str
     ) -> LinearExpression:
@@ -169,6 +175,8 @@ class StatisticExpressionsAccessor(AbstractStatisticsAccessor):
             capacity = m.variables[f"{c}-{attr}"].rename({f"{c}-ext": c})
             exprs.append(capacity.to_linexpr())
         fixed = self._n.df(c).query(f"~{attr}_extendable")[attr]
+        if exprs:
+            fixed = fixed.drop(exprs[0].indexes[c], errors="ignore")
         if include_non_extendable and not fixed.empty:
             exprs.append(LinearExpression(fixed.rename_axis(c), m))
         if not exprs:
diff --git a/pypsa/statistics/abstract.py b/pypsa/statistics/abstract.py
index 6803108..3113d19 100644
--- a/pypsa/statistics/abstract.py
+++ b/pypsa/statistics/abstract.py
@@ -281,6 +281,8 @@ class AbstractStatisticsAccessor(ABC):
                         n, c, groupby, port=port, nice_names=nice_names
                     )
                     vals = self._aggregate_components_groupby(vals, grouping, agg)
+                else:
+                    vals = self._aggregate_components_no_groupby(vals, c)
                 values.append(vals)
 
             if not values:
@@ -302,6 +304,10 @@ class AbstractStatisticsAccessor(ABC):
 
         return df
 
+    def _aggregate_components_no_groupby(self, vals: Any, c: str) -> Any:
+        """Keep one value per component."""
+        return vals
+
     def _aggregate_components_skip_iteration(self, vals: Any) -> bool:
         return False
 
-- 
2.43.0


From fd75df2c47660d3c70534987d742626f8900f2f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:44 +0000
Subject: [PATCH 082/103] fix: option context restores options which are given
 twice

---
 pypsa/_options.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pypsa/_options.py b/pypsa/_options.py
index ce47df8..f80cb09 100644
--- a/pypsa/_options.py
+++ b/pypsa/_options.py
@@ -228,7 +228,8 @@ def option_context(*args: Any) -> Generator[None, None, None]:
     try:
         # Store original values and set new ones
         for option_name, value in pairs:
-            original_values[option_name] = options.get_option(option_name)
+            # keep the first value if an option is given several times
+            original_values.setdefault(option_name, options.get_option(option_name))
             options.set_option(option_name, value)
         yield
     finally:
-- 
2.43.0


From bd7a3f7b641adda172141d794f93c0d438d3a210 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:37 +0000
Subject: [PATCH 083/103] fix: distance of antipodal points

---
 pypsa/geo.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/pypsa/geo.py b/pypsa/geo.py
index 83dbf38..051a37d 100644
--- a/pypsa/geo.py
+++ b/pypsa/geo.py
@@ -55,6 +55,7 @@ def haversine_pts(a: ArrayLike, b: ArrayLike) -> np.ndarray:
         np.sin((lat1 - lat0) / 2.0) ** 2
         + np.cos(lat0) * np.cos(lat1) * np.sin((lon0 - lon1) / 2.0) ** 2
     )
+    c = np.minimum(c, 1.0)  # rounding errors for antipodal points
     return 6371.000 * 2 * np.arctan2(np.sqrt(c), np.sqrt(1 - c))
 
 
-- 
2.43.0


From afc40645eeccfa06358907158db4890ac128a623 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:05:33 +0000
Subject: [PATCH 084/103] fix: renaming components other than buses, and
 references to buses in sub-networks and shapes

---
 pypsa/components/abstract.py | 39 ++++++++++++++++++++++++++++++++++--
 1 file changed, 37 insertions(+), 2 deletions(-)

diff --git a/pypsa/components/abstract.py b/pypsa/components/abstract.py
index 407ca4e..94d6861 100644
--- a/pypsa/components/abstract.py
+++ b/pypsa/components/abstract.py
@@ -726,11 +726,46 @@ class Components(ComponentsData, ABC):
         # Rename cross references in network (if attached to one)
         if self.attached:
             for c in self.n_save.components.values():
-                col_name = self.name.lower()  # TODO: Generalize
-                cols = [f"{col_name}{port}" for port in c.ports]
+                cols = c._get_reference_columns(self.name)
                 if cols and not c.static.empty:
                     c.static[cols] = c.static[cols].replace(kwargs)
 
+            # Shapes refer to components by class and name
+            shapes = self.n_save.components["Shape"].static
+            is_ref = (shapes.component == self.name) & shapes.idx.isin(list(kwargs))
+            if is_ref.any():
+                shapes.loc[is_ref, "idx"] = shapes.loc[is_ref, "idx"].replace(kwargs)
+
+            # Some global constraints refer to a carrier
+            if self.name == "Carrier":
+                gcs = self.n_save.components["GlobalConstraint"].static
+                is_ref = gcs.type.isin(
+                    ["tech_capacity_expansion_limit", "operational_limit"]
+                ) & gcs.carrier_attribute.isin(list(kwargs))
+                if is_ref.any():
+                    attr = "carrier_attribute"
+                    gcs.loc[is_ref, attr] = gcs.loc[is_ref, attr].replace(kwargs)
+
+    def _get_reference_columns(self, component: str) -> list[str]:
+        """
+        Get the static columns which refer to the names of another component.
+        """
+        if component == "Bus":
+            cols = [f"bus{port}" for port in self.ports]
+            if self.name == "SubNetwork":
+                cols.append("slack_bus")
+        elif component == "Carrier":
+            cols = ["carrier"]
+        elif component == "SubNetwork":
+            cols = ["sub_network"]
+        elif component == f"{self.name}Type":
+            cols = ["type"]
+        elif component == "Generator" and self.name == "Bus":
+            cols = ["generator"]
+        else:
+            cols = []
+        return [col for col in cols if col in self.static]
+
 
 class SubNetworkComponents:
     """
-- 
2.43.0


From bfb2c33bb009e2855417c42ed736cdde316fd162 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:26:16 +0000
Subject: [PATCH 085/103] fix: consistency checks of carriers, shapes, further
 link ports and investment periods

---
 pypsa/consistency.py | 19 ++++++++-----------
 1 file changed, 8 insertions(+), 11 deletions(-)

diff --git a/pypsa/consistency.py b/pypsa/consistency.py
index 3c67d30..d00795f 100644
--- a/pypsa/consistency.py
+++ b/pypsa/consistency.py
@@ -66,7 +66,7 @@ def check_for_unknown_buses(
     for attr in _bus_columns(component.static):
         missing = ~component.static[attr].astype(str).isin(n.buses.index)
         # if bus2, bus3... contain empty strings do not warn
-        if component.name in n.branch_components and int(attr[-1]) > 1:
+        if component.name in n.branch_components and attr not in ("bus0", "bus1"):
             missing &= component.static[attr] != ""
         # the bus of a global constraint is optional
         if component.name == "GlobalConstraint":
@@ -550,7 +550,10 @@ def check_dtypes_(component: Components, strict: bool = False) -> None:
 
 
     """
-    dtypes_soll = component.attrs.loc[component.attrs["static"], "dtype"].drop("name")
+    attrs = component.attrs
+    # geometries have a dtype of their own
+    static = attrs["static"] & (attrs["type"] != "geometry")
+    dtypes_soll = attrs.loc[static, "dtype"].drop("name")
     unmatched = component.static.dtypes[dtypes_soll.index] != dtypes_soll
 
     if unmatched.any():
@@ -616,20 +619,14 @@ def check_investment_periods(n: Network, strict: bool = False) -> None:
                 "The global constraints contain investment periods which "
                 "are not in the set of optimized snapshots."
             )
-            if strict:
-                raise ValueError(msg)
-            else:
-                _log_or_raise(strict, msg)
+            _log_or_raise(strict, msg)
     else:
         if constraint_periods:
             msg = (
                 "The global constraints contain investment periods but "
                 "snapshots are not multi-indexed."
             )
-            if strict:
-                raise ValueError(msg)
-            else:
-                _log_or_raise(strict, msg)
+            _log_or_raise(strict, msg)
 
 
 @deprecated_common_kwargs
@@ -858,7 +855,7 @@ def consistency_check(
     for c in n.iterate_components():
         # Checks all components
         check_for_unknown_buses(n, c, "unknown_buses" in strict)
-        check_for_unknown_carriers(n, c, "unkown_carriers" in strict)
+        check_for_unknown_carriers(n, c, "unknown_carriers" in strict)
         check_time_series(n, c, "time_series" in strict)
         check_static_power_attributes(n, c, "static_power_attrs" in strict)
         check_time_series_power_attributes(n, c, "time_series_power_attrs" in strict)
-- 
2.43.0


From 1d0180a25a99970bad05672675813b64ef105098 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:33:50 +0000
Subject: [PATCH 086/103] fix: clustered networks have their own global
 constraints and only series of their components

---
 pypsa/clustering/spatial.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/pypsa/clustering/spatial.py b/pypsa/clustering/spatial.py
index c5a35b2..0b5907d 100644
--- a/pypsa/clustering/spatial.py
+++ b/pypsa/clustering/spatial.py
@@ -503,7 +503,7 @@ def get_clustering_from_busmap(
     clustered.add("Line", lines.index, **lines)
 
     # Carry forward global constraints to clustered n.
-    clustered.global_constraints = n.global_constraints
+    clustered.global_constraints = n.global_constraints.copy()
 
     if with_time:
         clustered.set_snapshots(n.snapshots)
@@ -561,6 +561,7 @@ def get_clustering_from_busmap(
     if with_time:
         for c in n.iterate_components(one_port_components):
             for attr, df in c.dynamic.items():
+                df = df[df.columns.intersection(clustered.static(c.name).index)]
                 if not df.empty:
                     io._import_series_from_df(clustered, df, c.name, attr)
 
@@ -586,6 +587,7 @@ def get_clustering_from_busmap(
 
     if with_time:
         for attr, df in n.links_t.items():
+            df = df[df.columns.intersection(new_links.index)]
             if not df.empty:
                 io._import_series_from_df(clustered, df, "Link", attr)
 
-- 
2.43.0


From 47aa8c434bdfdb4c89966c3f93b2d0c70e4612dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:35:34 +0000
Subject: [PATCH 087/103] fix: clustering maps all ports of links

---
 pypsa/clustering/spatial.py | 15 +++++++++++----
 1 file changed, 11 insertions(+), 4 deletions(-)

diff --git a/pypsa/clustering/spatial.py b/pypsa/clustering/spatial.py
index 0b5907d..b7e85a2 100644
--- a/pypsa/clustering/spatial.py
+++ b/pypsa/clustering/spatial.py
@@ -18,6 +18,7 @@ from packaging.version import Version, parse
 from pandas import Series
 
 from pypsa import io
+from pypsa.descriptors import additional_linkports
 from pypsa.geo import haversine_pts
 
 if TYPE_CHECKING:
@@ -565,11 +566,17 @@ def get_clustering_from_busmap(
                 if not df.empty:
                     io._import_series_from_df(clustered, df, c.name, attr)
 
-    new_links = (
-        n.links.assign(bus0=n.links.bus0.map(busmap), bus1=n.links.bus1.map(busmap))
-        .dropna(subset=["bus0", "bus1"])
-        .loc[lambda df: df.bus0 != df.bus1]
+    link_ports = ["bus0", "bus1"] + [f"bus{i}" for i in additional_linkports(n)]
+    new_links = n.links.assign(**{p: n.links[p].map(busmap) for p in link_ports})
+    # only additional ports can be without bus
+    new_links = new_links.dropna(subset=["bus0", "bus1"]).fillna(
+        {p: "" for p in link_ports[2:]}
     )
+    # links within a cluster vanish
+    internal = pd.Series(True, new_links.index)
+    for p in link_ports[1:]:
+        internal &= (new_links[p] == new_links.bus0) | (new_links[p] == "")
+    new_links = new_links[~internal]
 
     new_links["length"] = np.where(
         new_links.length.notnull() & (new_links.length > 0),
-- 
2.43.0


From 275dd84bf6797ef849dbfbb7033a0227fc715dd7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:36:20 +0000
Subject: [PATCH 088/103] fix: clustering keeps transformers between clusters
 and custom types

---
 pypsa/clustering/spatial.py | 20 ++++++++++++++++++++
 1 file changed, 20 insertions(+)

diff --git a/pypsa/clustering/spatial.py b/pypsa/clustering/spatial.py
index b7e85a2..d0a6360 100644
--- a/pypsa/clustering/spatial.py
+++ b/pypsa/clustering/spatial.py
@@ -598,6 +598,26 @@ def get_clustering_from_busmap(
             if not df.empty:
                 io._import_series_from_df(clustered, df, "Link", attr)
 
+    transformers = n.transformers.assign(
+        bus0=n.transformers.bus0.map(busmap), bus1=n.transformers.bus1.map(busmap)
+    )
+    transformers = transformers.dropna(subset=["bus0", "bus1"])
+    transformers = transformers[transformers.bus0 != transformers.bus1]
+
+    clustered.add("Transformer", transformers.index, **transformers)
+
+    if with_time:
+        for attr, df in n.transformers_t.items():
+            df = df[df.columns.intersection(transformers.index)]
+            if not df.empty:
+                io._import_series_from_df(clustered, df, "Transformer", attr)
+
+    # Carry forward standard types which are not part of each network
+    for c in ["LineType", "TransformerType"]:
+        types = n.static(c)
+        types = types[~types.index.isin(clustered.static(c).index)]
+        clustered.add(c, types.index, **types)
+
     clustered.add("Carrier", n.carriers.index, **n.carriers)
 
     clustered.determine_network_topology()
-- 
2.43.0


From 9a3da59471bd02735d1b508651ea596c561325ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:36:20 +0000
Subject: [PATCH 089/103] fix: clustering lines without length or without
 capacity

---
 pypsa/clustering/spatial.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/pypsa/clustering/spatial.py b/pypsa/clustering/spatial.py
index d0a6360..985ebab 100644
--- a/pypsa/clustering/spatial.py
+++ b/pypsa/clustering/spatial.py
@@ -401,7 +401,8 @@ def aggregatelines(
     )
     static = static.assign(length=length)
 
-    length_factor = (static.length / orig_length).where(orig_length > 0, static.length)
+    # lines without length keep their parameters
+    length_factor = (static.length / orig_length).where(orig_length > 0, 1.0)
     v_nom = pd.concat(
         [static.bus0.map(buses.v_nom), static.bus1.map(buses.v_nom)], axis=1
     ).max(1)
@@ -410,7 +411,10 @@ def aggregatelines(
 
     for col, strategy in static_strategies.items():
         if strategy == "capacity_weighted_average":
-            static[col] = static[col] * capacity_weights
+            # infinite values of lines without capacity do not count
+            static[col] = (static[col] * capacity_weights).where(
+                capacity_weights != 0, 0.0
+            )
             static_strategies[col] = "sum"
         elif strategy == "reciprocal_voltage_weighted_average":
             static[col] = voltage_factor / (length_factor * static[col])
-- 
2.43.0


From f7b3ab4acc1e63bce806befe3fbf95a0ac27a7c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:50:14 +0000
Subject: [PATCH 090/103] fix: weights of near-optimal alternatives for several
 variables and for subsets of components

---
 pypsa/optimization/abstract.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/pypsa/optimization/abstract.py b/pypsa/optimization/abstract.py
index 9b5bfdb..8a31213 100644
--- a/pypsa/optimization/abstract.py
+++ b/pypsa/optimization/abstract.py
@@ -625,13 +625,15 @@ def optimize_mga(
             if isinstance(coeffs, dict):
                 coeffs = pd.Series(coeffs)
             if attr == nominal_attrs[c] and isinstance(coeffs, pd.Series):
-                coeffs = coeffs.reindex(n.get_extendable_i(c))
+                coeffs = coeffs.reindex(n.get_extendable_i(c), fill_value=0)
                 coeffs.index.name = ""
             elif isinstance(coeffs, pd.Series):
-                coeffs = coeffs.reindex(columns=n.static(c).index)
+                coeffs = coeffs.reindex(n.static(c).index, fill_value=0)
             elif isinstance(coeffs, pd.DataFrame):
-                coeffs = coeffs.reindex(columns=n.static(c).index, index=snapshots)
-            objective.append(m[f"{c}-{attr}"] * coeffs * sense)
+                coeffs = coeffs.reindex(
+                    columns=n.static(c).index, index=snapshots, fill_value=0
+                )
+            objective.append((m[f"{c}-{attr}"] * coeffs * sense).sum())
 
     m.objective = merge(objective)
 
-- 
2.43.0


From 53ec4de94a10ec7ad35907d22ba6a02b921e1205 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:53:12 +0000
Subject: [PATCH 091/103] fix: budget of near-optimal alternatives without
 rounding

---
 pypsa/optimization/abstract.py | 15 ++++++++-------
 1 file changed, 8 insertions(+), 7 deletions(-)

diff --git a/pypsa/optimization/abstract.py b/pypsa/optimization/abstract.py
index 8a31213..cb06b87 100644
--- a/pypsa/optimization/abstract.py
+++ b/pypsa/optimization/abstract.py
@@ -581,16 +581,17 @@ def optimize_mga(
         **model_kwargs,
     )
 
-    # build budget constraint
+    # build budget constraint, statistics are rounded by default
+    capex = n.statistics.capex(round=12).sum()
+    opex = n.statistics.opex(round=12).sum()
+    installed_capex = n.statistics.installed_capex(round=12).sum()
     if not multi_investment_periods:
-        optimal_cost = n.statistics.capex().sum() + n.statistics.opex().sum()
-        fixed_cost = n.statistics.installed_capex().sum()
+        optimal_cost = capex + opex
+        fixed_cost = installed_capex
     else:
         w = n.investment_period_weightings.objective
-        optimal_cost = (
-            n.statistics.capex().sum() * w + n.statistics.opex().sum() * w
-        ).sum()
-        fixed_cost = (n.statistics.installed_capex().sum() * w).sum()
+        optimal_cost = (capex * w + opex * w).sum()
+        fixed_cost = (installed_capex * w).sum()
 
     objective = m.objective
     if not isinstance(objective, (LinearExpression | QuadraticExpression)):
-- 
2.43.0


From 8738c767e6c22bc9c1650e4891e80c015f93eb04 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:05:27 +0000
Subject: [PATCH 092/103] fix: load shedding defines the carrier of its
 generators

---
 pypsa/optimization/optimize.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pypsa/optimization/optimize.py b/pypsa/optimization/optimize.py
index 3644b16..ec15775 100644
--- a/pypsa/optimization/optimize.py
+++ b/pypsa/optimization/optimize.py
@@ -776,8 +776,8 @@ class OptimizationAccessor:
             Maximal load shedding. The default is 1e9 (kW).
         """
         n = self.n
-        if "Load" not in n.carriers.index:
-            n.add("Carrier", "Load")
+        if "load" not in n.carriers.index:
+            n.add("Carrier", "load")
         if buses is None:
             buses = n.buses.index
 
-- 
2.43.0


From 86ad54a603ebf8038e9266fc3abbe81dc7d64dbc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:07:01 +0000
Subject: [PATCH 093/103] fix: iterative transmission expansion starts from the
 nominal capacities of the lines

---
 pypsa/optimization/abstract.py | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/pypsa/optimization/abstract.py b/pypsa/optimization/abstract.py
index cb06b87..cd25d19 100644
--- a/pypsa/optimization/abstract.py
+++ b/pypsa/optimization/abstract.py
@@ -196,8 +196,11 @@ def optimize_transmission_expansion_iteratively(
     )
     n.lines.loc[ext_typed_i, "num_parallel"] = (n.lines.s_nom / base_s_nom)[ext_typed_i]
 
-    def update_line_params(n: Network, s_nom_prev: float | pd.Series) -> None:
-        factor = n.lines.s_nom_opt / s_nom_prev
+    def update_line_params(n: Network, s_nom_base: pd.Series) -> None:
+        # parameters belong to the last positive capacity
+        factor = (n.lines.s_nom_opt / s_nom_base).where(
+            (n.lines.s_nom_opt > 0) & (s_nom_base > 0), 1.0
+        )
         for attr, carrier in (("x", "AC"), ("r", "DC")):
             ln_i = n.lines.query("carrier == @carrier").index.intersection(
                 ext_untyped_i
@@ -277,6 +280,7 @@ def optimize_transmission_expansion_iteratively(
 
     iteration = 1
     diff = msq_threshold
+    s_nom_base = n.lines.s_nom.copy()
     while diff >= msq_threshold or iteration < min_iterations:
         if iteration > max_iterations:
             logger.info(
@@ -285,7 +289,7 @@ def optimize_transmission_expansion_iteratively(
             )
             break
 
-        s_nom_prev = n.lines.s_nom_opt.copy() if iteration else n.lines.s_nom.copy()
+        s_nom_prev = n.lines.s_nom_opt.copy() if iteration > 1 else n.lines.s_nom.copy()
         status, termination_condition = n.optimize(snapshots, **kwargs)  # type: ignore
         if status != "ok":
             msg = (
@@ -296,7 +300,8 @@ def optimize_transmission_expansion_iteratively(
         if track_iterations:
             save_optimal_capacities(n, iteration, status)
 
-        update_line_params(n, s_nom_prev)
+        update_line_params(n, s_nom_base)
+        s_nom_base = n.lines.s_nom_opt.where(n.lines.s_nom_opt > 0, s_nom_base)
         diff = msq_diff(n, s_nom_prev)
         iteration += 1
 
-- 
2.43.0


From 678a72197a3b4dcec3180b21ed3cc7563ac0ff3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:09:59 +0000
Subject: [PATCH 094/103] fix: extra functionality of solve_model gets the
 snapshots of the model

---
 pypsa/optimization/optimize.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pypsa/optimization/optimize.py b/pypsa/optimization/optimize.py
index ec15775..70197c8 100644
--- a/pypsa/optimization/optimize.py
+++ b/pypsa/optimization/optimize.py
@@ -674,9 +674,9 @@ class OptimizationAccessor:
             https://linopy.readthedocs.io/en/latest/generated/linopy.constants.TerminationCondition.html
         """
         n = self.n
-        if extra_functionality:
-            extra_functionality(n, n.snapshots)
         m = n.model
+        if extra_functionality:
+            extra_functionality(n, m.parameters.snapshots.to_index())
         status, condition = m.solve(solver_name=solver_name, **solver_options, **kwargs)
 
         if status == "ok":
-- 
2.43.0


From fb09719766cd2696ae4341e629d9214c51ecb0d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:09:59 +0000
Subject: [PATCH 095/103] fix: fixed nominal capacities only concern extendable
 components

---
 pypsa/optimization/constraints.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pypsa/optimization/constraints.py b/pypsa/optimization/constraints.py
index 675c631..3b3ab26 100644
--- a/pypsa/optimization/constraints.py
+++ b/pypsa/optimization/constraints.py
@@ -762,7 +762,8 @@ def define_fixed_nominal_constraints(n: Network, c: str, attr: str) -> None:
         return
 
     dim = f"{c}-{attr}_set_i"
-    fix = n.static(c)[attr + "_set"].dropna().rename_axis(dim)
+    fix = n.static(c)[attr + "_set"].reindex(n.get_extendable_i(c))
+    fix = fix.dropna().rename_axis(dim)
 
     if fix.empty:
         return
-- 
2.43.0


From 49a4746f5687e7d2ba7b2d02baf556ff46e25d3f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:15:19 +0000
Subject: [PATCH 096/103] fix: copies of networks with investment periods can
 be optimised

---
 pypsa/networks.py | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/pypsa/networks.py b/pypsa/networks.py
index d5018fd..8b81889 100644
--- a/pypsa/networks.py
+++ b/pypsa/networks.py
@@ -1545,7 +1545,15 @@ class Network:
         # Use copy.deepcopy if no arguments are passed
         args = [snapshots, investment_periods, ignore_standard_types, with_time]
         if all(arg is None or arg is False for arg in args):
-            return copy.deepcopy(self)
+            n = copy.deepcopy(self)
+            # The name of a pandas.MultiIndex is lost in a deepcopy
+            name = self.snapshots.name
+            n._snapshots.name = name
+            n._snapshot_weightings.index.name = name
+            for component in n.all_components:
+                for df in n.dynamic(component).values():
+                    df.index.name = name
+            return n
 
         # Convert to pandas.Index
         snapshots_ = as_index(self, snapshots, "snapshots")
-- 
2.43.0


From 838e83ecc4d2ddbf47283339e1f0d6a94d344631 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:21:16 +0000
Subject: [PATCH 097/103] fix: discretisation only concerns the expanded lines
 and links

---
 pypsa/optimization/abstract.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/pypsa/optimization/abstract.py b/pypsa/optimization/abstract.py
index cd25d19..d615e84 100644
--- a/pypsa/optimization/abstract.py
+++ b/pypsa/optimization/abstract.py
@@ -245,8 +245,8 @@ def optimize_transmission_expansion_iteratively(
         line_threshold = line_threshold or 0.3
         link_threshold = link_threshold or {}
 
-        if line_unit_size:
-            n.lines["s_nom"] = n.lines.apply(
+        if line_unit_size and len(ext_i):
+            n.lines.loc[ext_i, "s_nom"] = n.lines.loc[ext_i].apply(
                 lambda row: discretized_capacity(
                     nom_opt=row["s_nom_opt"],
                     nom_max=row["s_nom_max"],
@@ -259,7 +259,9 @@ def optimize_transmission_expansion_iteratively(
 
         if link_unit_size:
             for carrier in link_unit_size.keys() & n.links.carrier.unique():
-                idx = n.links.carrier == carrier
+                idx = ext_links_to_fix_b & (n.links.carrier == carrier)
+                if not idx.any():
+                    continue
                 n.links.loc[idx, "p_nom"] = n.links.loc[idx].apply(
                     lambda row: discretized_capacity(
                         nom_opt=row["p_nom_opt"],
-- 
2.43.0


From 10e4b02657bf6000ea06d8c6bbb116198f1996bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:36:49 +0000
Subject: [PATCH 098/103] fix: transformers imported from PYPOWER are pi
 circuits

---
 pypsa/io.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pypsa/io.py b/pypsa/io.py
index cc854f4..0a98ad9 100644
--- a/pypsa/io.py
+++ b/pypsa/io.py
@@ -1913,6 +1913,8 @@ def import_from_pypower_ppc(
     pdf["transformers"]["b"] = (
         pdf["transformers"]["b"] * baseMVA / pdf["transformers"]["s_nom"]
     )
+    # PYPOWER branches are pi circuits
+    pdf["transformers"]["model"] = "pi"
 
     # correct per unit impedances
     pdf["lines"]["r"] = v_nom**2 * pdf["lines"]["r"] / baseMVA
-- 
2.43.0


From 65bfc59dbffd81088808b7d9981108a093b238e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:36:49 +0000
Subject: [PATCH 099/103] fix: sign and steps of shunts imported from
 pandapower

---
 pypsa/io.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/pypsa/io.py b/pypsa/io.py
index 0a98ad9..6f2b940 100644
--- a/pypsa/io.py
+++ b/pypsa/io.py
@@ -2146,13 +2146,14 @@ def import_from_pandapower_net(
 
     # documented at https://pypsa.readthedocs.io/en/latest/components.html#shunt-impedance
     g_shunt = net.shunt.p_mw.values / net.shunt.vn_kv.values**2
-    b_shunt = net.shunt.q_mvar.values / net.shunt.vn_kv.values**2
+    # reactive power of pandapower shunts is consumed
+    b_shunt = -net.shunt.q_mvar.values / net.shunt.vn_kv.values**2
 
     d["ShuntImpedance"] = pd.DataFrame(
         {
             "bus": net.bus.name.loc[net.shunt.bus].values,
-            "g": g_shunt,
-            "b": b_shunt,
+            "g": g_shunt * net.shunt.step.values,
+            "b": b_shunt * net.shunt.step.values,
         },
         index=net.shunt.name,
     )
-- 
2.43.0


From 02755aadb16aaadc95146e049b9880f0f3bc7f63 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:36:49 +0000
Subject: [PATCH 100/103] fix: parameters of lines imported from pandapower
 without types

---
 pypsa/io.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/pypsa/io.py b/pypsa/io.py
index 6f2b940..65e1c10 100644
--- a/pypsa/io.py
+++ b/pypsa/io.py
@@ -2076,15 +2076,16 @@ def import_from_pandapower_net(
             index=net.line.name,
         )
     else:
-        r = net.line.r_ohm_per_km.values * net.line.length_km.values
-        x = net.line.x_ohm_per_km.values * net.line.length_km.values
+        parallel = net.line.parallel.values
+        r = net.line.r_ohm_per_km.values * net.line.length_km.values / parallel
+        x = net.line.x_ohm_per_km.values * net.line.length_km.values / parallel
         # capacitance values from pandapower in nF; transformed here:
         f = net.f_hz
-        b = net.line.c_nf_per_km.values * net.line.length_km.values * 1e-9
+        b = net.line.c_nf_per_km.values * net.line.length_km.values * 1e-9 * parallel
         b = b * 2 * math.pi * f
 
         u = net.bus.vn_kv.loc[net.line.from_bus].values
-        s_nom = u * net.line.max_i_ka.values
+        s_nom = np.sqrt(3) * u * net.line.max_i_ka.values * parallel
 
         d["Line"] = pd.DataFrame(
             {
-- 
2.43.0


From 0586078b988f37fee1a7e76f929802fc4f28470c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:36:49 +0000
Subject: [PATCH 101/103] fix: parameters of transformers imported from
 pandapower

---
 pypsa/io.py | 17 +++++++----------
 1 file changed, 7 insertions(+), 10 deletions(-)

diff --git a/pypsa/io.py b/pypsa/io.py
index 65e1c10..f982ea0 100644
--- a/pypsa/io.py
+++ b/pypsa/io.py
@@ -2109,25 +2109,22 @@ def import_from_pandapower_net(
                 "bus0": net.bus.name.loc[net.trafo.hv_bus].values,
                 "bus1": net.bus.name.loc[net.trafo.lv_bus].values,
                 "tap_position": net.trafo.tap_pos.values,
+                "num_parallel": net.trafo.parallel.values,
             },
             index=net.trafo.name,
         )
     else:
-        s_nom = net.trafo.sn_mva.values
+        s_nom = net.trafo.sn_mva.values * net.trafo.parallel.values
 
         # documented at https://pandapower.readthedocs.io/en/develop/elements/trafo.html?highlight=transformer#impedance-values
-        z = net.trafo.vk_percent.values / 100.0 / net.trafo.sn_mva.values
-        r = net.trafo.vkr_percent.values / 100.0 / net.trafo.sn_mva.values
+        # in per unit of the nominal power
+        z = net.trafo.vk_percent.values / 100.0
+        r = net.trafo.vkr_percent.values / 100.0
         x = np.sqrt(z**2 - r**2)
 
         y = net.trafo.i0_percent.values / 100.0
-        g = (
-            net.trafo.pfe_kw.values
-            / net.trafo.sn_mva.values
-            / 1000
-            / net.trafo.sn_mva.values
-        )
-        b = np.sqrt(y**2 - g**2)
+        g = net.trafo.pfe_kw.values / 1000 / net.trafo.sn_mva.values
+        b = -np.sqrt(np.maximum(y**2 - g**2, 0.0))
 
         d["Transformer"] = pd.DataFrame(
             {
-- 
2.43.0


From 914f1c446a659d31d0854837ebd178a3b092b1d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:39:12 +0000
Subject: [PATCH 102/103] fix: PYPOWER cases which only have transformers

---
 pypsa/io.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/pypsa/io.py b/pypsa/io.py
index f982ea0..8343fb3 100644
--- a/pypsa/io.py
+++ b/pypsa/io.py
@@ -1917,6 +1917,7 @@ def import_from_pypower_ppc(
     pdf["transformers"]["model"] = "pi"
 
     # correct per unit impedances
+    v_nom = v_nom[~transformers]
     pdf["lines"]["r"] = v_nom**2 * pdf["lines"]["r"] / baseMVA
     pdf["lines"]["x"] = v_nom**2 * pdf["lines"]["x"] / baseMVA
     pdf["lines"]["b"] = pdf["lines"]["b"] * baseMVA / v_nom**2
-- 
2.43.0


From 1079f7d1ff86a9382829371b660b4370f1e6e1fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:39:41 +0000
Subject: [PATCH 103/103] fix: importing PYPOWER cases leaves the case
 unchanged

---
 pypsa/io.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/pypsa/io.py b/pypsa/io.py
index 8343fb3..8ac6274 100644
--- a/pypsa/io.py
+++ b/pypsa/io.py
@@ -1804,7 +1804,7 @@ def import_from_pypower_ppc(
         "buses": pd.DataFrame(
             index=index,
             columns=columns,
-            data=ppc["bus"][:, 1 : len(columns) + 1],
+            data=ppc["bus"][:, 1 : len(columns) + 1].copy(),
         )
     }
     if (pdf["buses"]["v_nom"] == 0.0).any():
@@ -1853,7 +1853,7 @@ def import_from_pypower_ppc(
     index_list = [f"G{str(i)}" for i in range(len(ppc["gen"]))]
 
     pdf["generators"] = pd.DataFrame(
-        index=index_list, columns=columns, data=ppc["gen"][:, : len(columns)]
+        index=index_list, columns=columns, data=ppc["gen"][:, : len(columns)].copy()
     )
 
     # make sure bus name is an integer
@@ -1868,7 +1868,7 @@ def import_from_pypower_ppc(
     )
 
     pdf["branches"] = pd.DataFrame(
-        columns=columns, data=ppc["branch"][:, : len(columns)]
+        columns=columns, data=ppc["branch"][:, : len(columns)].copy()
     )
 
     pdf["branches"]["original_index"] = pdf["branches"].index
-- 
2.43.0

