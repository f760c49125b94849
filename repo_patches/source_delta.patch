From 73d329b159ab13f8b1cd4a6ec954ca08c84418bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:25:20 +0000
Subject: [PATCH 01/48] fix: initialise the imaginary multiplier of a bus at
 its own index

Bus.get_Li_init returned the real multiplier's index, so the imaginary one was left at 0.
---
 src/models/components/bus.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/models/components/bus.py b/src/models/components/bus.py
index 8860183..3cc7849 100644
--- a/src/models/components/bus.py
+++ b/src/models/components/bus.py
@@ -71,7 +71,7 @@ class Bus:
         return (self.node_lambda_Vr, 1e-4)
 
     def get_Li_init(self):
-        return (self.node_lambda_Vr, 1e-4)
+        return (self.node_lambda_Vi, 1e-4)
 
     def assign_nodes(self, node_index, optimization_enabled):
         self.node_Vr = next(node_index)
-- 
2.43.0


From d6ee0946440fe9451fc29f9d02d37eb56347871f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:25:20 +0000
Subject: [PATCH 02/48] fix: leave loads unscaled when --load_factor is not
 given

The default of -1 negated every load of the case.
---
 src/run_solver.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/run_solver.py b/src/run_solver.py
index 8a26348..505fc0f 100644
--- a/src/run_solver.py
+++ b/src/run_solver.py
@@ -27,7 +27,7 @@ def main():
     parser.add_argument("--debug", required=False, action='store_true')
     parser.add_argument("--verbose", required=False, action='store_true')
     parser.add_argument("--infeasibility", required=False, default=False, action='store_true')
-    parser.add_argument("--load_factor", required=False, default=-1)
+    parser.add_argument("--load_factor", required=False, default=1)
     parser.add_argument("--tx_stepping", required=False, default=False, action='store_true')
     parser.add_argument("--select_island", required=False, default=False)
     args = parser.parse_args()
-- 
2.43.0


From c07af7fd822dd739845b10441ef946b8c0fd712e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:25:20 +0000
Subject: [PATCH 03/48] fix: check convergence before giving up on a stalled
 solve

A solve that met the tolerance on a progress-check iteration was reported as failed.
---
 src/logic/nrsolver.py | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/src/logic/nrsolver.py b/src/logic/nrsolver.py
index 5e76de6..020276a 100644
--- a/src/logic/nrsolver.py
+++ b/src/logic/nrsolver.py
@@ -63,6 +63,12 @@ class NRSolver:
             print(colored(f"The maximum residual for iteration {iteration_num} is {residual_max} at {residual_max_attr}", 'green')) 
             max_residual_history.append(residual_max)
 
+            if residual_max < self.settings.tolerance:
+                if self.settings.dump_matrix:
+                    dump_v(v_next)
+
+                return (True, v_next, iteration_num)
+
             if len(max_residual_history) % 50 == 0:
                 #We check regularly if the solver is making progress and bail if not.
                 x = np.array(range(len(max_residual_history)))
@@ -72,12 +78,7 @@ class NRSolver:
                 if m > 0:
                     return (False, v_next, iteration_num)
             
-            if residual_max < self.settings.tolerance:
-                if self.settings.dump_matrix:
-                    dump_v(v_next)
-
-                return (True, v_next, iteration_num)
-            elif self.v_limiting != None and residual_max > self.settings.tolerance:
+            if self.v_limiting != None and residual_max > self.settings.tolerance:
                 v_next = self.v_limiting.apply_limiting(v_next, v_previous)
 
             v_previous = v_next
-- 
2.43.0


From b9e56a6ce0f110c58baaf8651bef2374b03a7fce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:25:20 +0000
Subject: [PATCH 04/48] fix: always evaluate stamps and residuals at the
 voltages given

The per-iteration cache kept the previous iterate (or the previous solve's last
iterate), so convergence was decided on residuals of a vector other than the one returned.
---
 src/logic/stamping/matrixstamper.py | 8 --------
 1 file changed, 8 deletions(-)

diff --git a/src/logic/stamping/matrixstamper.py b/src/logic/stamping/matrixstamper.py
index ce818f0..f17a317 100644
--- a/src/logic/stamping/matrixstamper.py
+++ b/src/logic/stamping/matrixstamper.py
@@ -262,9 +262,6 @@ class InputBuilder():
 
         self.input_indexes = []
 
-        # We utilize this to know if we actually need to update our previous iteration information.
-        self.iteration_num = -1
-    
     def add_input(self, input: StampInput):
         if input.key not in self.inputs:
             self.input_indexes.append(input.key)
@@ -307,13 +304,8 @@ class InputBuilder():
             instance_idx += 1
 
     def update_vprev(self, v_prev, iteration_num):
-        if iteration_num == self.iteration_num:
-            return
-        
         for arg_index, instance_idx, v_idx in self.input_fills:
             self.args[arg_index][instance_idx] = v_prev[v_idx]
-            
-        self.iteration_num = iteration_num
         
     def update_txfactor(self, tx_factor):
         if self.tx_factor_index != SKIP:
-- 
2.43.0


From 70a0f84f29329c548b537b845d10d9bafaddd40e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:25:38 +0000
Subject: [PATCH 05/48] fix: report the slack's complex power V*conj(I)

P was Re(V)*Re(I) and Q was Im(V)*Im(I).
---
 src/logic/powerflowresults.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/logic/powerflowresults.py b/src/logic/powerflowresults.py
index bc266ef..6d4d295 100644
--- a/src/logic/powerflowresults.py
+++ b/src/logic/powerflowresults.py
@@ -152,8 +152,8 @@ class PowerFlowResults:
             Vi = v_final[slack.bus.node_Vi]
             slack_Ir = v_final[slack.get_slack_Ir_index()]
             slack_Ii = v_final[slack.get_slack_Ii_index()]
-            P = Vr * slack_Ir
-            Q = Vi * slack_Ii
+            P = Vr * slack_Ir + Vi * slack_Ii
+            Q = Vi * slack_Ir - Vr * slack_Ii
             self.generator_results.append(GeneratorResult(slack, P, Q, GENTYPE.Slack)) 
 
         self.max_residual = self.residuals.max_residual
-- 
2.43.0


From f5021fecb50b880239300ec7b63380415c4c8f50 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:25:38 +0000
Subject: [PATCH 06/48] fix: total the infeasibility sources' complex power

P and Q were products of like components, and negative values were dropped.
---
 src/logic/powerflowresults.py | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/src/logic/powerflowresults.py b/src/logic/powerflowresults.py
index 6d4d295..1c77972 100644
--- a/src/logic/powerflowresults.py
+++ b/src/logic/powerflowresults.py
@@ -175,13 +175,14 @@ class PowerFlowResults:
                 inf_Ir = self.v_final[infeasibility_current.node_Ir_inf]
                 inf_Ii = self.v_final[infeasibility_current.node_Ii_inf]
             elif isinstance(self.network.optimization, L1InfeasibilityOptimization):
-                inf_Ir = self.v_final[infeasibility_current.node_Ir_plus_inf] - self.v_final[infeasibility_current.node_Ir_minus_inf]
-                inf_Ii = self.v_final[infeasibility_current.node_Ii_plus_inf] - self.v_final[infeasibility_current.node_Ii_minus_inf]
-            P = Vr * inf_Ir
-            if P < 1e-5:
+                inf_Ir = self.v_final[infeasibility_current.node_Ir_minus_inf] - self.v_final[infeasibility_current.node_Ir_plus_inf]
+                inf_Ii = self.v_final[infeasibility_current.node_Ii_minus_inf] - self.v_final[infeasibility_current.node_Ii_plus_inf]
+            #The infeasibility current is drawn from the bus, so what it supplies to the network is the negation.
+            P = -(Vr * inf_Ir + Vi * inf_Ii)
+            if abs(P) < 1e-5:
                 P = 0
-            Q = Vi * inf_Ii
-            if Q < 1e-5:
+            Q = -(Vi * inf_Ir - Vr * inf_Ii)
+            if abs(Q) < 1e-5:
                 Q = 0
 
             total_P += P
-- 
2.43.0


From 48c5f10f1709de1a00cd7d912bef62523454b3d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:25:38 +0000
Subject: [PATCH 07/48] fix: print residuals in verbose output

ResidualDetails has no length and cannot be indexed; --verbose crashed.
---
 src/logic/powerflowresults.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/logic/powerflowresults.py b/src/logic/powerflowresults.py
index 1c77972..720736a 100644
--- a/src/logic/powerflowresults.py
+++ b/src/logic/powerflowresults.py
@@ -203,8 +203,8 @@ class PowerFlowResults:
         print(f'Max Residual: {self.residuals.max_residual:.3g} [Index: {self.residuals.max_residual_idx}]')
 
         if verbose:
-            for idx in range(len(self.residuals)):
-                print(f'Residual {idx}: {self.residuals[idx]:.3g}')
+            for idx, residual in enumerate(self.residuals.residuals):
+                print(f'Residual {idx}: {residual:.3g}')
 
         try:
             results = self.report_infeasible()
-- 
2.43.0


From 22750f8ac0169b679b11a9468b6a9641bc9088b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:25:38 +0000
Subject: [PATCH 08/48] fix: transformer results report V*conj(I) of the
 primary

---
 src/logic/powerflowresults.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/logic/powerflowresults.py b/src/logic/powerflowresults.py
index 720736a..6afecec 100644
--- a/src/logic/powerflowresults.py
+++ b/src/logic/powerflowresults.py
@@ -313,11 +313,13 @@ class TransformerResult:
 
     def get_P(self):
         Vr_pri = self.Vr_pri_pos - self.Vr_pri_neg
-        return Vr_pri * self.Ir_prim
+        Vi_pri = self.Vi_pri_pos - self.Vi_pri_neg
+        return Vr_pri * self.Ir_prim + Vi_pri * self.Ii_prim
 
     def get_Q(self):
+        Vr_pri = self.Vr_pri_pos - self.Vr_pri_neg
         Vi_pri = self.Vi_pri_pos - self.Vi_pri_neg
-        return Vi_pri * self.Ii_prim
+        return Vi_pri * self.Ir_prim - Vr_pri * self.Ii_prim
 
     def __str__(self) -> str:
         return f'Transformer from bus {self.transformer.from_bus_pos.Bus} and {self.transformer.from_bus_neg.Bus} to {self.transformer.to_bus_pos.Bus} and {self.transformer.to_bus_neg.Bus} P (MW): {"{:.2f}".format(self.get_P())}, Q (MVar): {"{:.2f}".format(self.get_Q())}'
-- 
2.43.0


From a0ebba05ade0d58b724c950342c7e4660caef596 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:27:06 +0000
Subject: [PATCH 09/48] fix: keep each load's power factor across the hours of
 a load file

An hour with magnitude 0 reset the load's angle, so later hours lost its reactive power.
---
 src/logic/network/timeseriesprocessor.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/logic/network/timeseriesprocessor.py b/src/logic/network/timeseriesprocessor.py
index c07c545..efbdb10 100644
--- a/src/logic/network/timeseriesprocessor.py
+++ b/src/logic/network/timeseriesprocessor.py
@@ -20,6 +20,8 @@ class TimeSeriesProcessor:
     def __init__(self, settings: TimeSeriesSettings, powerflow: PowerFlow):
         self.settings = settings
         self.powerflow = powerflow
+        # The power factor angle of each load in the original network, by load name
+        self.load_angles = {}
         if self.settings.loadfile_name is not None:
             self.load_data = read_csv(self.settings.loadfile_name)
         if self.settings.select_island and self.settings.artificialswingbus is not None:
@@ -126,6 +128,7 @@ class TimeSeriesProcessor:
         for phase_load in self.powerflow.network.loads:
             load_name = self.get_load_name(phase_load)
             self.powerflow.network.load_name_map[load_name] = phase_load
+            self.load_angles[load_name] = math.atan2(phase_load.Q, phase_load.P)
 
     def get_load_name(self, phase_load):
         if phase_load.phase.isalpha():
@@ -151,7 +154,7 @@ class TimeSeriesProcessor:
                 magnitude = self.load_data[load_name][hour]
             except:
                 continue
-            angle = math.atan2(load_obj.Q,load_obj.P)
+            angle = self.load_angles.setdefault(load_name, math.atan2(load_obj.Q, load_obj.P))
             load_obj.P = magnitude * math.cos(angle)
             load_obj.Q = magnitude * math.sin(angle)
     
-- 
2.43.0


From df2bd9dfe7c60e650235f011973fc95402a1083f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:27:06 +0000
Subject: [PATCH 10/48] fix: stop adjusting generation once a power flow fails

The adjustment went on forever from the values of an unsolved network.
---
 src/logic/network/timeseriesprocessor.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/logic/network/timeseriesprocessor.py b/src/logic/network/timeseriesprocessor.py
index efbdb10..06f55fd 100644
--- a/src/logic/network/timeseriesprocessor.py
+++ b/src/logic/network/timeseriesprocessor.py
@@ -229,7 +229,7 @@ class TimeSeriesProcessor:
     def execute_powerflow(self) -> PowerFlowResults:
         snapshot_results = self.powerflow.execute()
         # If requested, adjust a specific negative load until the specified swing bus is within a threshold of zero power in/out
-        while self.adjust_generator_output(snapshot_results):
+        while snapshot_results.is_success and self.adjust_generator_output(snapshot_results):
             snapshot_results = self.powerflow.execute()
         if snapshot_results.is_success and self.violates_equipment_ratings(snapshot_results):
             snapshot_results.violates_equipment_ratings = True
-- 
2.43.0


From caa203f7fd3c376edb1525cf67b1b2dd9c3704df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:27:06 +0000
Subject: [PATCH 11/48] fix: keep the selected island's grounded loads and
 capacitors

Ground belongs to no island, so every element connected to it was removed.
---
 src/logic/network/timeseriesprocessor.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/logic/network/timeseriesprocessor.py b/src/logic/network/timeseriesprocessor.py
index 06f55fd..314fa70 100644
--- a/src/logic/network/timeseriesprocessor.py
+++ b/src/logic/network/timeseriesprocessor.py
@@ -9,6 +9,7 @@ import networkx as nx
 from logic.network.timeseriessettings import TimeSeriesSettings
 from logic.powerflow import PowerFlow
 from logic.powerflowresults import CenterTapTransformerResult, LineResult, PowerFlowResults, QuasiTimeSeriesResults, TransformerResult
+from models.components.bus import GROUND
 from models.components.center_tap_transformer import CenterTapTransformer
 from models.components.switch import Switch
 from models.components.transformer import Transformer
@@ -90,7 +91,7 @@ class TimeSeriesProcessor:
 
         load_to_remove = []
         for idx, load in enumerate(self.powerflow.network.loads):
-            if load.from_bus not in self.powerflow.network.buses or load.to_bus not in self.powerflow.network.buses:
+            if load.from_bus not in self.powerflow.network.buses or (load.to_bus != GROUND and load.to_bus not in self.powerflow.network.buses):
                 load_to_remove.insert(0, idx)
         for idx in load_to_remove:
             del self.powerflow.network.loads[idx]
@@ -119,7 +120,7 @@ class TimeSeriesProcessor:
 
         capacitor_to_remove = []
         for idx, capacitor in enumerate(self.powerflow.network.capacitors):
-            if capacitor.from_bus not in self.powerflow.network.buses or capacitor.to_bus not in self.powerflow.network.buses:
+            if capacitor.from_bus not in self.powerflow.network.buses or (capacitor.to_bus != GROUND and capacitor.to_bus not in self.powerflow.network.buses):
                 capacitor_to_remove.insert(0, idx)
         for idx in capacitor_to_remove:
             del self.powerflow.network.capacitors[idx]
-- 
2.43.0


From 75413f33e085f0c1f79ed7a968d51253dd471c26 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:27:06 +0000
Subject: [PATCH 12/48] fix: build the matrix only from entries stamped since
 the last clear

When an iteration stamps fewer nonzero values than the one before it, the old tail stayed in the matrix.
---
 src/logic/stamping/matrixbuilder.py | 16 +++++++---------
 1 file changed, 7 insertions(+), 9 deletions(-)

diff --git a/src/logic/stamping/matrixbuilder.py b/src/logic/stamping/matrixbuilder.py
index 12fc79d..ac2164f 100644
--- a/src/logic/stamping/matrixbuilder.py
+++ b/src/logic/stamping/matrixbuilder.py
@@ -42,10 +42,8 @@ class MatrixBuilder:
         self._index = retain_idx
 
     def to_matrix(self) -> csc_matrix:
-        if self.settings.debug and self._max_index != self._index:
-            raise Exception("Solver was not fully utilized. Garbage data remains")
-
-        return csc_matrix((self._val, (self._row, self._col)), dtype=np.float64)
+        #Entries past the index are left over from before the last clear.
+        return csc_matrix((self._val[:self._index], (self._row[:self._index], self._col[:self._index])), dtype=np.float64)
 
     def get_row(self, row_idx):
         for idx in range(self._index):
@@ -61,9 +59,9 @@ class MatrixBuilder:
 
     def to_symbolic_matrix(self):
         rows = []
-        for _ in range(max(self._row) + 1):
-            rows.append([0] * (max(self._col) + 1))
-        for (row, col, value) in zip(self._row, self._col, self._val):
+        for _ in range(max(self._row[:self._index]) + 1):
+            rows.append([0] * (max(self._col[:self._index]) + 1))
+        for (row, col, value) in zip(self._row[:self._index], self._col[:self._index], self._val[:self._index]):
             rows[row][col] += value
         return Matrix(rows)
 
@@ -71,13 +69,13 @@ class MatrixBuilder:
         if not self.settings.debug:
             return
 
-        if max(self._row) != max(self._col):
+        if max(self._row[:self._index]) != max(self._col[:self._index]):
             raise Exception("Matrix is not square")
         
         if not check_zeros:
             return
 
-        matrix = csc_matrix((self._val, (self._row, self._col)))
+        matrix = self.to_matrix()
 
         if not np.all(matrix.getnnz(1)>0):
             zero_rows = np.where(matrix.getnnz(1)==0)
-- 
2.43.0


From 62e3d07543078a74fc6a1551e52de71efdce6acb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:27:06 +0000
Subject: [PATCH 13/48] fix: report the homotopy factor of the last solve

A completed sweep reported -0.01.
---
 src/logic/homotopycontroller.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/logic/homotopycontroller.py b/src/logic/homotopycontroller.py
index f8b7478..2929cd8 100644
--- a/src/logic/homotopycontroller.py
+++ b/src/logic/homotopycontroller.py
@@ -39,6 +39,9 @@ class HomotopyController:
             if not is_success:
                 break
 
+            if tx_factor == 0:
+                break
+
             tx_factor -= 1
 
         return (is_success, v_next, iterations, tx_factor * TX_SCALE, matrix_stamper.calc_residuals(0, v_final, iteration_num))
-- 
2.43.0


From 3e54e3421337ef94dacf646c88a6b67cf1e7cc66 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:27:06 +0000
Subject: [PATCH 14/48] fix: import branch line shunts of RAW files

They were built on the bus number rather than the bus, and then dereferenced as one.
---
 src/logic/network/parsers/raw/data_classes.py | 4 ++--
 src/logic/network/parsers/raw/parser.py       | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/logic/network/parsers/raw/data_classes.py b/src/logic/network/parsers/raw/data_classes.py
index 121bec8..d498faf 100644
--- a/src/logic/network/parsers/raw/data_classes.py
+++ b/src/logic/network/parsers/raw/data_classes.py
@@ -320,10 +320,10 @@ class Branch_data:
         shunt_i = None
         shunt_j = None
         if self.gi != 0 or self.bi != 0:
-            shunt_i = Shunt(self.i, self.gi * global_vars.MVAbase, self.bi * global_vars.MVAbase, 1, 0, 0, 0, 0, 0, 0,
+            shunt_i = Shunt(all_bus_key[self.i], self.gi * global_vars.MVAbase, self.bi * global_vars.MVAbase, 1, 0, 0, 0, 0, 0, 0,
                              0)
         if self.gj != 0 or self.bj != 0:
-            shunt_j = Shunt(self.j, self.gj * global_vars.MVAbase, self.bj * global_vars.MVAbase, 1, 0, 0, 0, 0, 0, 0,
+            shunt_j = Shunt(all_bus_key[self.j], self.gj * global_vars.MVAbase, self.bj * global_vars.MVAbase, 1, 0, 0, 0, 0, 0, 0,
                              0)
 
         return new_branch, shunt_i, shunt_j
diff --git a/src/logic/network/parsers/raw/parser.py b/src/logic/network/parsers/raw/parser.py
index 76dd358..bbd4f4e 100644
--- a/src/logic/network/parsers/raw/parser.py
+++ b/src/logic/network/parsers/raw/parser.py
@@ -368,10 +368,10 @@ def parse_raw(rawfile):
             (new_branch, shunt_i, shunt_j) = br.integrate(all_bus_key)
             integrated_data['branches'].append(new_branch)
             if shunt_i != None:
-                non_empty_bus_set.add(shunt_i.Bus)
+                non_empty_bus_set.add(shunt_i.bus.Bus)
                 integrated_data['shunts'].append(shunt_i)
             if shunt_j != None:
-                non_empty_bus_set.add(shunt_j.Bus)
+                non_empty_bus_set.add(shunt_j.bus.Bus)
                 integrated_data['shunts'].append(shunt_j)
 
     # ---------- transformer data ----------
-- 
2.43.0


From ab222e66ef31369b9267e627555b4838fa3ed412 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:27:51 +0000
Subject: [PATCH 15/48] fix: import several generators on one RAW bus

Adding to the first one failed on attributes it does not have, and added with the wrong sign.
---
 src/logic/network/parsers/raw/parser.py | 19 ++++++++-----------
 src/models/components/generator.py      |  2 ++
 2 files changed, 10 insertions(+), 11 deletions(-)

diff --git a/src/logic/network/parsers/raw/parser.py b/src/logic/network/parsers/raw/parser.py
index bbd4f4e..61f4162 100644
--- a/src/logic/network/parsers/raw/parser.py
+++ b/src/logic/network/parsers/raw/parser.py
@@ -199,13 +199,11 @@ def parse_raw(rawfile):
                     if g.i in voltage_controlling_bus:
                         # print('Due to another generator on %i generator location, parameters are appended' % g.i)
                         idx = gen_dic[g.i]
-                        integrated_data['generators'][idx].P += gen.pg / global_vars.MVAbase
-                        integrated_data['generators'][idx].Pmax += gen.pt / global_vars.MVAbase
-                        integrated_data['generators'][idx].Pmin += gen.pb / global_vars.MVAbase
-                        integrated_data['generators'][idx].Qmax += gen.qt / global_vars.MVAbase
-                        integrated_data['generators'][idx].Qmin += gen.qb / global_vars.MVAbase
-                        integrated_data['generators'][idx].Qinit += gen.qg / global_vars.MVAbase
-                        integrated_data['generators'][idx].RMPCT += gen.rmpct
+                        # The model stores generation as negative power
+                        integrated_data['generators'][idx].P -= gen.pg / global_vars.MVAbase
+                        integrated_data['generators'][idx].Qmax -= gen.qt / global_vars.MVAbase
+                        integrated_data['generators'][idx].Qmin -= gen.qb / global_vars.MVAbase
+                        integrated_data['generators'][idx].Qinit -= gen.qg / global_vars.MVAbase
                         # check for discrepencies
                         if integrated_data['generators'][idx].RemoteBus != gen.ireg:
                             print("Discrepancy found in remote bus (%d, %d) for generators on the same bus: %i" % (
@@ -273,10 +271,9 @@ def parse_raw(rawfile):
                     # print('Due to a generator on %i SVC location, parameters are appended' % sshunt.i)
                     gen_id = gen_dic[sshunt.i]
                     # print(gen_id)
-                    integrated_data['generators'][gen_id].Qmax += Qmax / global_vars.MVAbase
-                    integrated_data['generators'][gen_id].Qmin += Qmin / global_vars.MVAbase
-                    integrated_data['generators'][gen_id].Qinit += Qinit / global_vars.MVAbase
-                    integrated_data['generators'][gen_id].RMPCT += rmpct
+                    integrated_data['generators'][gen_id].Qmax -= Qmax / global_vars.MVAbase
+                    integrated_data['generators'][gen_id].Qmin -= Qmin / global_vars.MVAbase
+                    integrated_data['generators'][gen_id].Qinit -= Qinit / global_vars.MVAbase
                     if integrated_data['generators'][gen_id].RemoteBus != ss.swrem:
                         print("Discrepency between control buses in shunts for bus ", ss.i)
                         # if integrated_data['generators'][gen_id].RemoteBus ==0:
diff --git a/src/models/components/generator.py b/src/models/components/generator.py
index b44bc29..b7be98d 100644
--- a/src/models/components/generator.py
+++ b/src/models/components/generator.py
@@ -61,6 +61,8 @@ class Generator:
         self.Qmax = -Qmax
         self.Qmin = -Qmin
 
+        self.RemoteBus = RemoteBus
+
     def assign_nodes(self, node_index, optimization_enabled):
         self.stamper = build_two_terminal_stamp_details(lh, self.bus, GROUND, node_index, optimization_enabled)
 
-- 
2.43.0


From a41cb41568a9cc581161387a0e895e77ca32bc74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:27:51 +0000
Subject: [PATCH 16/48] fix: import constant current and constant admittance
 loads of RAW files in per unit

The current was taken in MW and its reactive part as a leading one; the admittance was ignored.
---
 src/logic/network/parsers/raw/data_classes.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/logic/network/parsers/raw/data_classes.py b/src/logic/network/parsers/raw/data_classes.py
index d498faf..fa01e78 100644
--- a/src/logic/network/parsers/raw/data_classes.py
+++ b/src/logic/network/parsers/raw/data_classes.py
@@ -91,7 +91,9 @@ class Load_data:
         self.scale = scale
 
     def integrate(self, all_bus_key: typing.Dict[int, Bus]):
-        new_load = Load(all_bus_key[self.i], GROUND, self.pl / 100, self.ql / 100, complex(0, 0), self.ip, self.iq)
+        Y = complex(self.yp, self.yq) / 100
+        Z = 1 / Y if Y != 0 else complex(0, 0)
+        new_load = Load(all_bus_key[self.i], GROUND, self.pl / 100, self.ql / 100, Z, self.ip / 100, -self.iq / 100)
         return (new_load)
 
 
-- 
2.43.0


From fc195b747fb5e52bf1d1d0dbc146b2ad13d16390 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:28:22 +0000
Subject: [PATCH 17/48] fix: import three-winding transformers of RAW files

The star bus was looked up as bus -1, so every such case failed to load; its initial angle was taken in radians.
---
 src/logic/network/parsers/raw/data_classes.py |  2 +-
 src/logic/network/parsers/raw/parser.py       | 26 +++++++++----------
 2 files changed, 14 insertions(+), 14 deletions(-)

diff --git a/src/logic/network/parsers/raw/data_classes.py b/src/logic/network/parsers/raw/data_classes.py
index fa01e78..0c1aa62 100644
--- a/src/logic/network/parsers/raw/data_classes.py
+++ b/src/logic/network/parsers/raw/data_classes.py
@@ -486,5 +486,5 @@ class Three_xfmr_data:
 
 def integrate_3xfmrs(xfmr_data, sbase, busData, starNode, all_bus_key: typing.Dict[int, Bus]):
     # send in system sbase
-    new_3xfmr = ThreeWindingXfmrs(xfmr_data, sbase, -1, busData)
+    new_3xfmr = ThreeWindingXfmrs(xfmr_data, sbase, starNode, busData)
     return (new_3xfmr.createXfmrObject(all_bus_key))
diff --git a/src/logic/network/parsers/raw/parser.py b/src/logic/network/parsers/raw/parser.py
index 61f4162..bc372c6 100644
--- a/src/logic/network/parsers/raw/parser.py
+++ b/src/logic/network/parsers/raw/parser.py
@@ -10,6 +10,7 @@
 
 """
 
+import math
 import time
 from logic.network.parsers.raw.global_vars import global_vars
 
@@ -446,20 +447,19 @@ def parse_raw(rawfile):
         all_case_data['all_three_xfmrs'].append(x3)
         search_case_data['three_xfmrs'][(x3.i, x3.j, x3.k, x3.ckt)] = x3
         if x3.stat != 0:
-            new_xfmr3 = data_classes.integrate_3xfmrs(x3, sbase, search_case_data['buses'], -1, all_bus_key)
+            busType = 1
+            vmInit = x.vmstar
+            vaInit = x.anstar * math.pi / 180
+            'Stat 2-Winding 2 out of service 3 - Winding 3 out of service 4 - winding 1 out of service'
+            area = search_case_data['buses'][int(x3.i)].area
+            if int(x.stat) == 4:
+                area = search_case_data['buses'][int(x3.j)].area
+
+            star_bus = Bus(startNodeThreeWinding, busType, vmInit, vaInit, area)
+            all_bus_key[startNodeThreeWinding] = star_bus
+            new_xfmr3 = data_classes.integrate_3xfmrs(x3, sbase, search_case_data['buses'], startNodeThreeWinding, all_bus_key)
             if new_xfmr3 != []:
-                busType = 1
-                vmInit = x.vmstar
-                vaInit = x.anstar
-                'Stat 2-Winding 2 out of service 3 - Winding 3 out of service 4 - winding 1 out of service'
-                area = search_case_data['buses'][x3.i].area
-                if int(x.stat) == 4:
-                    area = search_case_data['buses'][x3.j].area
-
-                integrated_data['buses'].append(Bus(startNodeThreeWinding, busType,
-                                                      vmInit, vaInit, area))
-                for ele in new_xfmr3:
-                    ele.to_bus = startNodeThreeWinding
+                integrated_data['buses'].append(star_bus)
                 startNodeThreeWinding += 1
                 integrated_data['xfmrs'] += new_xfmr3
 
-- 
2.43.0


From b46c2add5815e0b099febda6a7dccab2948096ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:28:42 +0000
Subject: [PATCH 18/48] fix: tell RAW buses with the same name apart

Names identify graph nodes, so buses sharing one (often all, being blank) hid network islands.
---
 src/logic/network/parsers/raw/parser.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/logic/network/parsers/raw/parser.py b/src/logic/network/parsers/raw/parser.py
index bc372c6..5fb260d 100644
--- a/src/logic/network/parsers/raw/parser.py
+++ b/src/logic/network/parsers/raw/parser.py
@@ -12,6 +12,7 @@
 
 import math
 import time
+from collections import Counter
 from logic.network.parsers.raw.global_vars import global_vars
 
 from models.components.bus import Bus
@@ -101,6 +102,7 @@ def parse_raw(rawfile):
     search_case_data['buses'] = {}
     integrated_data['buses'] = []
     offline_bus = set()
+    name_counts = Counter(bus.name for bus in data.raw.get_buses())
     for bus in data.raw.get_buses():
         # adding all the info to a generic data class
         if version in (32, 30):
@@ -110,6 +112,10 @@ def parse_raw(rawfile):
             b = data_classes.Bus_data(bus.i, bus.name, bus.baskv, bus.ide, bus.area, bus.zone,
                                       bus.owner, bus.vm, bus.va, bus.nvhi, bus.nvlo, bus.evhi, bus.evlo)
 
+        # Bus names need not be unique in a RAW file, but they identify the nodes of the network graph
+        if name_counts[bus.name] > 1:
+            b.name = f"{bus.name}:{bus.i}"
+
         all_case_data['all_buses'].append(b)
         search_case_data['buses'][bus.i] = b
 
-- 
2.43.0


From 39b41948742d5de36ae7659b92ff8e347755bbe6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:45:37 +0000
Subject: [PATCH 19/48] fix: voltage regions are bounded only where every
 parallel element is a transformer or regulator

---
 src/logic/graphanalyzer.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/logic/graphanalyzer.py b/src/logic/graphanalyzer.py
index 9ecd8c0..49cda18 100644
--- a/src/logic/graphanalyzer.py
+++ b/src/logic/graphanalyzer.py
@@ -77,7 +77,7 @@ class GraphAnalyzer:
                         raise Exception(f"Node {bus.NodeName} nominal voltage is not consistent with other nominal voltages in voltage region.")
 
     def get_nominal_voltage_islands(self):
-        non_xfmr_edges = [(u,v) for u,v,e in self.G.edges(data=True) if type(e['element_list'][0]) not in [CenterTapTransformer, Transformer, Regulator]]
+        non_xfmr_edges = [(u,v) for u,v,e in self.G.edges(data=True) if any(type(ele) not in [CenterTapTransformer, Transformer, Regulator] for ele in e['element_list'])]
 
         xfmr_islands = self.G.edge_subgraph(non_xfmr_edges)
 
-- 
2.43.0


From 8322ed7b7729f316a6f24673795a9e89aed87bc2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:16:23 +0000
Subject: [PATCH 20/48] fix: rate the current of a line phase including the
 other phases' contribution

---
 src/logic/network/timeseriesprocessor.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/logic/network/timeseriesprocessor.py b/src/logic/network/timeseriesprocessor.py
index 314fa70..52ba57a 100644
--- a/src/logic/network/timeseriesprocessor.py
+++ b/src/logic/network/timeseriesprocessor.py
@@ -183,9 +183,12 @@ class TimeSeriesProcessor:
         exceeds_rating = False
         # Ensure that no lines have current flowing through them that exceeds their rating
         for line in self.powerflow.network.lines:
-            for (idx, g, b, phase_line) in line.loop_lines():
-                line_result = LineResult(phase_line, snapshot_results, g, b)
-                line_current = complex(line_result.get_Ir(), line_result.get_Ii())
+            for (idx, _, _, _) in line.loop_lines():
+                # The voltage drop of every phase contributes to the current of this phase
+                line_current = 0
+                for other_phase_line, y in zip(line.lines, line.admittances[idx]):
+                    line_result = LineResult(other_phase_line, snapshot_results, y.real, y.imag)
+                    line_current += complex(line_result.get_Ir(), line_result.get_Ii())
                 if (line.ampacities[idx] is not None and abs(line_current) > line.ampacities[idx]):
                     print(f"Line current {line_current} exceeds emergency ampacity {line.ampacities[idx]}")
                     exceeds_rating = True
-- 
2.43.0


From 298bc7db219fbf5041f1894f471029ed814adc98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:30:32 +0000
Subject: [PATCH 21/48] fix: import RAW files on their own system base

---
 src/logic/network/parsers/raw/data_classes.py | 20 +++++++++----------
 src/logic/network/parsers/raw/parser.py       |  1 +
 src/models/components/shunt.py                |  8 +++++---
 src/models/components/slack.py                |  8 +++++---
 4 files changed, 21 insertions(+), 16 deletions(-)

diff --git a/src/logic/network/parsers/raw/data_classes.py b/src/logic/network/parsers/raw/data_classes.py
index 0c1aa62..0c4cba1 100644
--- a/src/logic/network/parsers/raw/data_classes.py
+++ b/src/logic/network/parsers/raw/data_classes.py
@@ -91,9 +91,9 @@ class Load_data:
         self.scale = scale
 
     def integrate(self, all_bus_key: typing.Dict[int, Bus]):
-        Y = complex(self.yp, self.yq) / 100
+        Y = complex(self.yp, self.yq) / global_vars.MVAbase
         Z = 1 / Y if Y != 0 else complex(0, 0)
-        new_load = Load(all_bus_key[self.i], GROUND, self.pl / 100, self.ql / 100, Z, self.ip / 100, -self.iq / 100)
+        new_load = Load(all_bus_key[self.i], GROUND, self.pl / global_vars.MVAbase, self.ql / global_vars.MVAbase, Z, self.ip / global_vars.MVAbase, -self.iq / global_vars.MVAbase)
         return (new_load)
 
 
@@ -107,7 +107,7 @@ class Fixed_shunt_data:
         self.bl = bl  # Reactive component of shunt admittance to ground(Mvar @ 1/unit voltage)
 
     def integrate(self, all_bus_key: typing.Dict[int, Bus]):
-        new_shunt = Shunt(all_bus_key[self.i], self.gl, self.bl, 1, 0, 0, 0, 0, 0, 0, 0)
+        new_shunt = Shunt(all_bus_key[self.i], self.gl, self.bl, 1, 0, 0, 0, 0, 0, 0, 0, mva_base=global_vars.MVAbase)
         return new_shunt
 
 
@@ -159,7 +159,7 @@ class Switched_shunt_data:
 
         new_shunt = Shunt(all_bus_key[self.i], G_MW, B_MVAR, 3, self.vswhi,
                            self.vswlo, bmax, bmin, self.binit, self.swrem,
-                           Nstep, Bstep)
+                           Nstep, Bstep, mva_base=global_vars.MVAbase)
 
         return new_shunt
 
@@ -224,13 +224,13 @@ class Generator_data:
     def integrate(self, all_bus_key: typing.Dict[int, Bus], isGenerator=True):
         if isGenerator:
             self.rmpct = self.rmpct
-            new_obj = Generator(all_bus_key[self.i], self.pg / 100, self.vs, self.qt / 100, self.qb / 100,
-                                 self.pt, self.pb, self.qg / 100, self.ireg, self.rmpct, GenType.Generation)
+            new_obj = Generator(all_bus_key[self.i], self.pg / global_vars.MVAbase, self.vs, self.qt / global_vars.MVAbase, self.qb / global_vars.MVAbase,
+                                 self.pt, self.pb, self.qg / global_vars.MVAbase, self.ireg, self.rmpct, GenType.Generation)
 
         else:
             area = -1
             status = 1
-            new_obj = Load(all_bus_key[self.i], GROUND, -self.pg / 100, -self.qg / 100, complex(0, 0), 0.0, 0.0)
+            new_obj = Load(all_bus_key[self.i], GROUND, -self.pg / global_vars.MVAbase, -self.qg / global_vars.MVAbase, complex(0, 0), 0.0, 0.0)
 
         return new_obj
 
@@ -276,7 +276,7 @@ class Slack_generator_data:
         self.wpf = wpf  # Power factor
 
     def integrate(self, all_bus_key: typing.Dict[int, Bus]):
-        new_slack = Slack(all_bus_key[self.i], self.vs, self.ang, self.pg, self.qg)
+        new_slack = Slack(all_bus_key[self.i], self.vs, self.ang, self.pg, self.qg, mva_base=global_vars.MVAbase)
         return (new_slack)
 
     def __repr__(self):
@@ -323,10 +323,10 @@ class Branch_data:
         shunt_j = None
         if self.gi != 0 or self.bi != 0:
             shunt_i = Shunt(all_bus_key[self.i], self.gi * global_vars.MVAbase, self.bi * global_vars.MVAbase, 1, 0, 0, 0, 0, 0, 0,
-                             0)
+                             0, mva_base=global_vars.MVAbase)
         if self.gj != 0 or self.bj != 0:
             shunt_j = Shunt(all_bus_key[self.j], self.gj * global_vars.MVAbase, self.bj * global_vars.MVAbase, 1, 0, 0, 0, 0, 0, 0,
-                             0)
+                             0, mva_base=global_vars.MVAbase)
 
         return new_branch, shunt_i, shunt_j
 
diff --git a/src/logic/network/parsers/raw/parser.py b/src/logic/network/parsers/raw/parser.py
index 5fb260d..01ce9d3 100644
--- a/src/logic/network/parsers/raw/parser.py
+++ b/src/logic/network/parsers/raw/parser.py
@@ -95,6 +95,7 @@ def parse_raw(rawfile):
 
     version = case_id.rev
     sbase = case_id.sbase
+    global_vars.MVAbase = sbase
 
     #  ----------buses ----------
     PV_list = []
diff --git a/src/models/components/shunt.py b/src/models/components/shunt.py
index 41f00ab..5845244 100644
--- a/src/models/components/shunt.py
+++ b/src/models/components/shunt.py
@@ -21,7 +21,8 @@ class Shunt:
                  controlBus,
                  flag_control_shunt_bus=False,
                  Nsteps=[0],
-                 Bstep=[0]):
+                 Bstep=[0],
+                 mva_base=100):
 
         """ Initialize a shunt in the power grid.
         Args:
@@ -38,12 +39,13 @@ class Shunt:
             flag_control_shunt_bus (bool): flag that indicates if the shunt should be controlling another bus
             Nsteps (list): the number of steps by which the switched shunt should adjust itself
             Bstep (list): the admittance increase for each step in Nstep as MVar at unity voltage
+            mva_base (float): the system base in MVA
         """
         self.id = self._ids.__next__()
         self.bus = bus
 
-        self.G = G_MW / 100
-        self.B = B_MVAR / 100
+        self.G = G_MW / mva_base
+        self.B = B_MVAR / mva_base
 
     def assign_nodes(self, node_index, optimization_enabled):
         self.stamper = build_line_stamper_bus(
diff --git a/src/models/components/slack.py b/src/models/components/slack.py
index 5ba64c3..f00ce49 100644
--- a/src/models/components/slack.py
+++ b/src/models/components/slack.py
@@ -28,7 +28,8 @@ class Slack:
                  Vset,
                  ang,
                  Pinit,
-                 Qinit):
+                 Qinit,
+                 mva_base=100):
         """Initialize slack bus in the power grid.
 
         Args:
@@ -37,6 +38,7 @@ class Slack:
             ang (float): the slack bus voltage angle that it remains fixed at.
             Pinit (float): the initial active power that the slack bus is supplying
             Qinit (float): the initial reactive power that the slack bus is supplying
+            mva_base (float): the system base in MVA
         """
 
         self.bus = bus
@@ -47,8 +49,8 @@ class Slack:
         self.Vr_set = self.Vset * math.cos(self.ang_rad)
         self.Vi_set = self.Vset * math.sin(self.ang_rad)
 
-        self.Pinit = Pinit / 100
-        self.Qinit = Qinit / 100
+        self.Pinit = Pinit / mva_base
+        self.Qinit = Qinit / mva_base
 
     def assign_nodes(self, node_index, optimization_enabled):
         self.stamper = build_two_terminal_stamp_details(lh, self.bus, GROUND, node_index, optimization_enabled)
-- 
2.43.0


From 883299149d3fe818274a43756c1de9a039e89581 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:30:32 +0000
Subject: [PATCH 22/48] fix: import the shunts of version 30 RAW bus records

---
 src/logic/network/parsers/raw/parser.py | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/src/logic/network/parsers/raw/parser.py b/src/logic/network/parsers/raw/parser.py
index 01ce9d3..f17ca28 100644
--- a/src/logic/network/parsers/raw/parser.py
+++ b/src/logic/network/parsers/raw/parser.py
@@ -327,6 +327,16 @@ def parse_raw(rawfile):
     all_case_data['all_fixed_shunts'] = []
     search_case_data['fixed_shunts'] = {}
 
+    # In version 30 the fixed shunts are part of the bus records
+    if version == 30:
+        for bus in data.raw.get_buses():
+            if (bus.i not in offline_bus) and (bus.gl != 0 or bus.bl != 0):
+                fs = data_classes.Fixed_shunt_data(bus.i, '1', 1, bus.gl, bus.bl)
+                all_case_data['all_fixed_shunts'].append(fs)
+                search_case_data['fixed_shunts'][(fs.i, fs.id)] = fs
+                non_empty_bus_set.add(fs.i)
+                integrated_data['shunts'].append(fs.integrate(all_bus_key))
+
     for fshunt in data.raw.get_fixed_shunts():
 
         fs = data_classes.Fixed_shunt_data(fshunt.i, fshunt.id, fshunt.status, fshunt.gl,
-- 
2.43.0


From 48998b346c85def04d13b3d10f7092ed6d6e78f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:31:03 +0000
Subject: [PATCH 23/48] fix: allow a comment after the first record of a
 version 30 RAW file

---
 src/logic/network/parsers/raw/Data.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/logic/network/parsers/raw/Data.py b/src/logic/network/parsers/raw/Data.py
index 10a1297..bbfe2fc 100644
--- a/src/logic/network/parsers/raw/Data.py
+++ b/src/logic/network/parsers/raw/Data.py
@@ -791,7 +791,7 @@ class CaseIdentification:
     def read_record_1_from_row(self, row, rev = 33):
         if rev == 30:
             self.ic = parse_token(row[0], int, 0)
-            self.sbase = parse_token(row[1], float, default=None)
+            self.sbase = parse_token(remove_end_of_line_comment(row[1], '/'), float, default=None)
             self.rev = 30
         else:
             row = row[0:6]
-- 
2.43.0


From 70c69775f97cbf7969cc4425c3759ed808f34e32 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:05:36 +0000
Subject: [PATCH 24/48] fix: an unusable derivative cache no longer makes power
 flows fail

---
 src/logic/stamping/lagrangepickler.py | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/src/logic/stamping/lagrangepickler.py b/src/logic/stamping/lagrangepickler.py
index 67d32c9..0c0dddb 100644
--- a/src/logic/stamping/lagrangepickler.py
+++ b/src/logic/stamping/lagrangepickler.py
@@ -8,8 +8,11 @@ class LagrangePickler:
         dill.settings['recurse'] = True
 
         self.pickle_dir = os.path.join(tempfile.gettempdir(), "combined-txds-lagrange-pickler")
-        if not os.path.exists(self.pickle_dir):
-            os.makedirs(self.pickle_dir)
+        try:
+            os.makedirs(self.pickle_dir, exist_ok=True)
+        except OSError:
+            #The cache is only an optimization, without it derivatives get generated.
+            pass
 
     def _get_pickle_file(self, lagrange_key):
         sha1 = hashlib.sha1()
@@ -34,4 +37,7 @@ class LagrangePickler:
 
     def try_pickle(self, lagrange_key, derivatives):
         pickle_file = self._get_pickle_file(lagrange_key)
-        dill.dump(derivatives, open(pickle_file, "wb" ) )
\ No newline at end of file
+        try:
+            dill.dump(derivatives, open(pickle_file, "wb" ) )
+        except OSError:
+            pass
\ No newline at end of file
-- 
2.43.0


From 340a333d3fa01570e0ea96072b73835a830b024a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:19:06 +0000
Subject: [PATCH 25/48] fix: convert the units given in GLM files

---
 src/ditto/readers/gridlabd/helpers.py | 37 +++++++++++++++++++++++++++
 src/ditto/readers/gridlabd/read.py    | 13 +++-------
 2 files changed, 40 insertions(+), 10 deletions(-)

diff --git a/src/ditto/readers/gridlabd/helpers.py b/src/ditto/readers/gridlabd/helpers.py
index d75b0ea..d40facc 100644
--- a/src/ditto/readers/gridlabd/helpers.py
+++ b/src/ditto/readers/gridlabd/helpers.py
@@ -1,7 +1,44 @@
 from typing import List, Tuple
+import numpy as np
 
 triplex_phases = ["1", "2"]
 
+#What each unit is worth in the unit that GridLAB-D assumes for most properties when no unit is given:
+#feet, ohms per mile, nanofarads per mile, and plain volts, amps, ohms and volt-amperes.
+_lengths = {"ft": 1, "in": 1 / 12, "yd": 3, "mile": 5280, "mm": 1 / 304.8, "cm": 1 / 30.48, "m": 1 / 0.3048, "km": 1000 / 0.3048}
+_plain_units = ["V", "A", "VA", "W", "VAr", "Ohm", "ohm"]
+_prefixes = {"": 1, "k": 1e3, "M": 1e6}
+
+unit_factors = dict(_lengths)
+for _unit in _plain_units:
+    for _prefix, _factor in _prefixes.items():
+        unit_factors[_prefix + _unit] = _factor
+for _length, _factor in _lengths.items():
+    for _unit in ["Ohm", "ohm", "nF"]:
+        unit_factors[_unit + "/" + _length] = 5280 / _factor
+
+#The properties that GridLAB-D assumes to be in another unit: inches and kVA.
+_inch_properties = ["diameter", "outer_diameter", "conductor_diameter", "neutral_diameter", "insulation_thickness", "shield_thickness", "shield_diameter"]
+_kva_properties = ["power_rating", "powerA_rating", "powerB_rating", "powerC_rating"]
+
+def to_default_unit(property_name: str, value: str, unit: str) -> str:
+    factor = unit_factors.get(unit, None)
+    if factor is None:
+        return value
+
+    if property_name in _inch_properties and unit in _lengths:
+        factor = factor * 12
+    elif property_name in _kva_properties:
+        factor = factor / 1e3
+
+    if factor == 1:
+        return value
+
+    try:
+        return np.format_float_positional(float(value) * factor, trim="-")
+    except ValueError:
+        return str(complex(value) * factor)
+
 def parse_phases(phase_str: str, obj_name: str) -> Tuple[List[str], bool, bool]:
     phases = []
 
diff --git a/src/ditto/readers/gridlabd/read.py b/src/ditto/readers/gridlabd/read.py
index 1ac80fc..8f23be1 100644
--- a/src/ditto/readers/gridlabd/read.py
+++ b/src/ditto/readers/gridlabd/read.py
@@ -22,7 +22,7 @@ from ditto.models.base import Unicode
 from ditto.readers.gridlabd.line_impedance import compute_overhead_capacitance, compute_overhead_impedance, compute_underground_impedance, compute_triplex_impedance, compute_overhead_spacing, compute_underground_spacing, try_load_direct_line_impedance, try_load_direct_line_capacitance, compute_underground_capacitance
 from ditto.readers.gridlabd.load_parser import LoadParser
 from ditto.readers.abstract_reader import AbstractReader
-from ditto.readers.gridlabd.helpers import parse_phases, triplex_phases
+from ditto.readers.gridlabd.helpers import parse_phases, to_default_unit, triplex_phases
 
 logger = logging.getLogger(__name__)
 
@@ -132,15 +132,8 @@ def read_gld_objects_and_schedules(input_file, origin_datetime="2017 Jun 1 2:00P
                     value = entries[1].replace('"', "")
 
                     if len(entries) > 2:
-                        units = entries[2]
-                        # TODO: Deal with units correctly
-                        if obj_class == "line_spacing" and units == "in":
-                            value = str(float(value) / 12)
-                        if obj_class == "capacitor" and units == "MVAr":
-                            value = str(float(value) * 1e6)
-                        # print element,value,units
-                        # if units[0] =='k':
-                        #    value = value/1000.0
+                        units = entries[2].replace('"', "")
+                        value = to_default_unit(element, value, units)
 
                     # Assuming no nested objects for now.
                     curr_object[element] = value
-- 
2.43.0


From c37fdcc216e31a24a209ab311fc02bb67acc13e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:19:24 +0000
Subject: [PATCH 26/48] fix: read every complex number format of GLM files

---
 src/ditto/readers/gridlabd/helpers.py | 23 +++++++++++++++++++++++
 src/ditto/readers/gridlabd/read.py    |  4 ++--
 2 files changed, 25 insertions(+), 2 deletions(-)

diff --git a/src/ditto/readers/gridlabd/helpers.py b/src/ditto/readers/gridlabd/helpers.py
index d40facc..d142446 100644
--- a/src/ditto/readers/gridlabd/helpers.py
+++ b/src/ditto/readers/gridlabd/helpers.py
@@ -1,3 +1,6 @@
+import cmath
+import math
+import re
 from typing import List, Tuple
 import numpy as np
 
@@ -39,6 +42,26 @@ def to_default_unit(property_name: str, value: str, unit: str) -> str:
     except ValueError:
         return str(complex(value) * factor)
 
+#Properties whose values are names, even if they look like numbers.
+_name_properties = ["name", "parent", "from", "to", "configuration", "spacing", "groupid"]
+
+_number = r"[-+]?\d*\.?\d+(?:[eE][-+]?\d+)?|[-+]?\d+\.(?:[eE][-+]?\d+)?"
+_gridlabd_complex = re.compile(f"({_number})((?=[-+])(?:{_number}))([idr])")
+
+def to_python_complex(property_name: str, value: str) -> str:
+    #GridLAB-D also accepts i for the imaginary part, and polar values with an angle in degrees (d) or radians (r).
+    match = _gridlabd_complex.fullmatch(value)
+    if match is None or property_name in _name_properties:
+        return value
+
+    first, second, notation = float(match[1]), float(match[2]), match[3]
+    if notation == "i":
+        return str(complex(first, second))
+    elif notation == "d":
+        second = math.radians(second)
+
+    return str(cmath.rect(first, second))
+
 def parse_phases(phase_str: str, obj_name: str) -> Tuple[List[str], bool, bool]:
     phases = []
 
diff --git a/src/ditto/readers/gridlabd/read.py b/src/ditto/readers/gridlabd/read.py
index 8f23be1..aeb4ea0 100644
--- a/src/ditto/readers/gridlabd/read.py
+++ b/src/ditto/readers/gridlabd/read.py
@@ -22,7 +22,7 @@ from ditto.models.base import Unicode
 from ditto.readers.gridlabd.line_impedance import compute_overhead_capacitance, compute_overhead_impedance, compute_underground_impedance, compute_triplex_impedance, compute_overhead_spacing, compute_underground_spacing, try_load_direct_line_impedance, try_load_direct_line_capacitance, compute_underground_capacitance
 from ditto.readers.gridlabd.load_parser import LoadParser
 from ditto.readers.abstract_reader import AbstractReader
-from ditto.readers.gridlabd.helpers import parse_phases, to_default_unit, triplex_phases
+from ditto.readers.gridlabd.helpers import parse_phases, to_default_unit, to_python_complex, triplex_phases
 
 logger = logging.getLogger(__name__)
 
@@ -129,7 +129,7 @@ def read_gld_objects_and_schedules(input_file, origin_datetime="2017 Jun 1 2:00P
                 entries = row.split()
                 if len(entries) > 1:
                     element = entries[0]
-                    value = entries[1].replace('"', "")
+                    value = to_python_complex(element, entries[1].replace('"', ""))
 
                     if len(entries) > 2:
                         units = entries[2].replace('"', "")
-- 
2.43.0


From fe2741d60250e31ed80ffa9f69f9613d5d6ff91b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:19:36 +0000
Subject: [PATCH 27/48] fix: import every phase of GLM switches and fuses with
 its status

---
 src/ditto/readers/gridlabd/read.py            | 109 +++---------------
 .../parsers/threephase/threephaseparser.py    |   4 +-
 2 files changed, 19 insertions(+), 94 deletions(-)

diff --git a/src/ditto/readers/gridlabd/read.py b/src/ditto/readers/gridlabd/read.py
index aeb4ea0..1c3a6c7 100644
--- a/src/ditto/readers/gridlabd/read.py
+++ b/src/ditto/readers/gridlabd/read.py
@@ -189,6 +189,16 @@ def read_gld_objects_and_schedules(input_file, origin_datetime="2017 Jun 1 2:00P
 
     return (all_gld_objects, all_schedules)
 
+def get_phase_status(obj, phase_property):
+    #A phase that has no status of its own has the status of the whole device.
+    for property_name in [phase_property, "status"]:
+        try:
+            return obj[property_name]
+        except AttributeError:
+            pass
+
+    return None
+
 def parse_line_length(line, name):
     #we always return meters
 
@@ -694,54 +704,12 @@ class Reader(AbstractReader):
                     pass
 
                 wires = []
-                try:
-                    status = obj["phase_A_status"]
-                    api_wire = Wire(model)
-                    api_wire.phase = "A"
-                    if status == "BLOWN" or status == "OPEN":
-                        api_wire.is_open = True
-                    else:
-                        api_wire.is_open = False
-                    wires.append(api_wire)
-                except AttributeError:
-                    pass
-
-                try:
-                    status = obj["phase_B_status"]
-                    api_wire = Wire(model)
-                    api_wire.phase = "B"
-                    if status == "BLOWN" or status == "OPEN":
-                        api_wire.is_open = True
-                    else:
-                        api_wire.is_open = False
-                    wires.append(api_wire)
-                except AttributeError:
-                    pass
-
-                try:
-                    status = obj["phase_C_status"]
+                for p in phases:
+                    status = get_phase_status(obj, f"phase_{p}_status")
                     api_wire = Wire(model)
-                    api_wire.phase = "C"
-                    if status == "BLOWN" or status == "OPEN":
-                        api_wire.is_open = True
-                    else:
-                        api_wire.is_open = False
+                    api_wire.phase = p
+                    api_wire.is_open = status == "BLOWN" or status == "OPEN"
                     wires.append(api_wire)
-                except AttributeError:
-                    pass
-
-                try:
-                    if len(wires) == 0:
-                        for p in phases:
-                            api_wire = Wire(model)
-                            api_wire.phase = p
-                            wires.append(api_wire)
-                            if obj["status"] == "OPEN":
-                                wires[-1].is_open = True
-                            else:
-                                wires[-1].is_open = False
-                except AttributeError:
-                    pass
 
                 api_line.wires = wires
 
@@ -765,53 +733,12 @@ class Reader(AbstractReader):
                     pass
 
                 wires = []
-                try:
-                    status = obj["phase_A_state"]
-                    api_wire = Wire(model)
-                    api_wire.phase = "A"
-                    if status == "OPEN":
-                        api_wire.is_open = True
-                    else:
-                        api_wire.is_open = False
-                    wires.append(api_wire)
-                except AttributeError:
-                    pass
-                try:
-                    status = obj["phase_B_state"]
+                for p in phases:
+                    status = get_phase_status(obj, f"phase_{p}_state")
                     api_wire = Wire(model)
-                    api_wire.phase = "B"
-                    if status == "OPEN":
-                        api_wire.is_open = True
-                    else:
-                        api_wire.is_open = False
+                    api_wire.phase = p
+                    api_wire.is_open = status == "OPEN"
                     wires.append(api_wire)
-                except AttributeError:
-                    pass
-
-                try:
-                    status = obj["phase_C_state"]
-                    api_wire = Wire(model)
-                    api_wire.phase = "C"
-                    if status == "OPEN":
-                        api_wire.is_open = True
-                    else:
-                        api_wire.is_open = False
-                    wires.append(api_wire)
-                except AttributeError:
-                    pass
-
-                try:
-                    if len(wires) == 0:
-                        for p in phases:
-                            api_wire = Wire(model)
-                            api_wire.phase = p
-                            wires.append(api_wire)
-                            if obj["status"] == "OPEN":
-                                wires[-1].is_open = True
-                            else:
-                                wires[-1].is_open = False
-                except AttributeError:
-                    pass
 
                 api_line.wires = wires
 
diff --git a/src/logic/network/parsers/threephase/threephaseparser.py b/src/logic/network/parsers/threephase/threephaseparser.py
index 9e4c06c..ab6302a 100644
--- a/src/logic/network/parsers/threephase/threephaseparser.py
+++ b/src/logic/network/parsers/threephase/threephaseparser.py
@@ -287,9 +287,7 @@ class ThreePhaseParser:
 
                 current_limit = float(model.current_limit)
 
-                fuse_status = FuseStatus.GOOD
-                if hasattr(model, "phase_" + wire.phase + "_status"):
-                    fuse_status = FuseStatus[getattr(model, "phase_" + wire.phase + "_status")]
+                fuse_status = FuseStatus.BLOWN if wire.is_open else FuseStatus.GOOD
 
                 fuse_bus = self.create_bus(network_model, 0.1, 0.1, f"{from_bus.NodeName}-Fuse", wire.phase, True)
 
-- 
2.43.0


From d204560d51cbc226c90dad85f3b6f9870a3ceaaf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:20:59 +0000
Subject: [PATCH 28/48] fix: accept GLM nodes listed ahead of their parents

---
 .../parsers/threephase/threephaseparser.py       | 16 +++++++++++++++-
 1 file changed, 15 insertions(+), 1 deletion(-)

diff --git a/src/logic/network/parsers/threephase/threephaseparser.py b/src/logic/network/parsers/threephase/threephaseparser.py
index ab6302a..fb6d85d 100644
--- a/src/logic/network/parsers/threephase/threephaseparser.py
+++ b/src/logic/network/parsers/threephase/threephaseparser.py
@@ -88,7 +88,7 @@ class ThreePhaseParser:
     # GridlabD buses default to being "PQ" constant power buses (aka loads)
     # They could also be "PV" voltage-controlled magnitude buses (aka generators)
     def create_buses(self, network_model: DxNetworkModel):
-        for model in self.ditto_store.models:
+        for model in self.get_parents_first():
 
             if isinstance(model, ditto.models.node.Node) or isinstance(model, ditto.models.power_source.PowerSource):
                 isSlack = False
@@ -130,6 +130,20 @@ class ThreePhaseParser:
                             slack = Slack(bus, v_mag, v_ang, 0, 0)
                             network_model.slack.append(slack)
 
+    # A file may list a child ahead of its parent.
+    def get_parents_first(self):
+        parents = {model.name: model.parent for model in self.ditto_store.models if getattr(model, "parent", None) != None}
+
+        def count_ancestors(model):
+            ancestors = []
+            parent = getattr(model, "parent", None)
+            while parent != None and not parent in ancestors:
+                ancestors.append(parent)
+                parent = parents.get(parent, None)
+            return len(ancestors)
+
+        return sorted(self.ditto_store.models, key=count_ancestors)
+
     def create_bus(self, network_model, v_mag, v_ang, node_name, node_phase, is_virtual):
         bus_id = next(self._bus_index)
         bus = Bus(bus_id, 1, v_mag, v_ang, None, node_name, node_phase, is_virtual)
-- 
2.43.0


From 456eef44d57fa6a15b361c019f41948e88d9798c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:22:06 +0000
Subject: [PATCH 29/48] fix: take the distances between the wires of GLM lines
 by phase

---
 src/ditto/readers/gridlabd/line_impedance.py |  5 +++++
 src/ditto/readers/gridlabd/read.py           | 12 +++++++-----
 2 files changed, 12 insertions(+), 5 deletions(-)

diff --git a/src/ditto/readers/gridlabd/line_impedance.py b/src/ditto/readers/gridlabd/line_impedance.py
index 6fdffed..4cdf8d2 100644
--- a/src/ditto/readers/gridlabd/line_impedance.py
+++ b/src/ditto/readers/gridlabd/line_impedance.py
@@ -479,6 +479,11 @@ def compute_underground_spacing(outer_diameters, spacing_config, conductors):
 
     return np.array(distances)
 
+def get_wire_distances(wire_list, distances):
+    #The spacing may cover more phases than the line has wires, so we pick the distances by phase.
+    indexes = [rev_lookup[wire.phase] for wire in wire_list]
+    return distances[np.ix_(indexes, indexes)]
+
 def compute_overhead_capacitance(wire_list, distances, freq = 60):
     neutral_index = rev_lookup["N"]
     earth_index = rev_lookup["E"]
diff --git a/src/ditto/readers/gridlabd/read.py b/src/ditto/readers/gridlabd/read.py
index 1c3a6c7..9050116 100644
--- a/src/ditto/readers/gridlabd/read.py
+++ b/src/ditto/readers/gridlabd/read.py
@@ -19,7 +19,7 @@ from ditto.models.phase_winding import PhaseWinding
 from ditto.formats.gridlabd import gridlabd
 from ditto.formats.gridlabd import base
 from ditto.models.base import Unicode
-from ditto.readers.gridlabd.line_impedance import compute_overhead_capacitance, compute_overhead_impedance, compute_underground_impedance, compute_triplex_impedance, compute_overhead_spacing, compute_underground_spacing, try_load_direct_line_impedance, try_load_direct_line_capacitance, compute_underground_capacitance
+from ditto.readers.gridlabd.line_impedance import compute_overhead_capacitance, compute_overhead_impedance, compute_underground_impedance, compute_triplex_impedance, compute_overhead_spacing, compute_underground_spacing, try_load_direct_line_impedance, try_load_direct_line_capacitance, compute_underground_capacitance, get_wire_distances, num_dists
 from ditto.readers.gridlabd.load_parser import LoadParser
 from ditto.readers.abstract_reader import AbstractReader
 from ditto.readers.gridlabd.helpers import parse_phases, to_default_unit, to_python_complex, triplex_phases
@@ -841,6 +841,7 @@ class Reader(AbstractReader):
                         except AttributeError:
                             pass
 
+                    distances = np.full((num_dists, num_dists), np.nan)
                     spacing_name = None
                     try:
                         spacing_name = config["spacing"]
@@ -857,8 +858,8 @@ class Reader(AbstractReader):
                 impedance_matrix = try_load_direct_line_impedance(config)
 
                 if impedance_matrix == None:
-                    striped_distances = distances[:,~np.all(distances, axis=0, where=[-1])][~np.all(distances, axis=1, where=[-1]),:]
-                    impedance_matrix = compute_overhead_impedance(wire_list, striped_distances, phases, has_neutral)
+                    wire_distances = get_wire_distances(wire_list, distances)
+                    impedance_matrix = compute_overhead_impedance(wire_list, wire_distances, phases, has_neutral)
 
                 api_line.impedance_matrix = convert_Z_matrix_per_mile_to_per_meter(impedance_matrix)
 
@@ -1138,6 +1139,7 @@ class Reader(AbstractReader):
                         except AttributeError:
                             pass
 
+                    distances = np.full((num_dists, num_dists), np.nan)
                     spacing_name = None
                     try:
                         spacing_name = config["spacing"]
@@ -1157,8 +1159,8 @@ class Reader(AbstractReader):
                 impedance_matrix = try_load_direct_line_impedance(config)
 
                 if impedance_matrix is None:
-                    striped_distances = distances[:,~np.all(distances, axis=0, where=[-1])][~np.all(distances, axis=1, where=[-1]),:]
-                    impedance_matrix = compute_underground_impedance(wire_list, striped_distances)
+                    wire_distances = get_wire_distances(wire_list, distances)
+                    impedance_matrix = compute_underground_impedance(wire_list, wire_distances)
 
                 api_line.impedance_matrix = convert_Z_matrix_per_mile_to_per_meter(impedance_matrix)
 
-- 
2.43.0


From 94fab3cbf18f68121271317916238df28d19a4fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:22:27 +0000
Subject: [PATCH 30/48] fix: import GLM lines given by impedance matrices or
 with fewer phases than their configuration

---
 src/ditto/readers/gridlabd/line_impedance.py | 17 ++++++---
 src/ditto/readers/gridlabd/read.py           | 39 +++++++++++++++-----
 2 files changed, 41 insertions(+), 15 deletions(-)

diff --git a/src/ditto/readers/gridlabd/line_impedance.py b/src/ditto/readers/gridlabd/line_impedance.py
index 4cdf8d2..aa957f6 100644
--- a/src/ditto/readers/gridlabd/line_impedance.py
+++ b/src/ditto/readers/gridlabd/line_impedance.py
@@ -24,6 +24,9 @@ line_direct_lookup = {
     "33": (2, 2)
 }
 
+#The rows of the directly specified matrices. Triplex lines have their two hot wires there.
+direct_phase_lookup = {"A": 0, "B": 1, "C": 2, "1": 0, "2": 1}
+
 
 #####################
 #####################
@@ -771,24 +774,28 @@ def compute_triplex_impedance(wire_list, freq=60, resistivity=100, kron_reduce=T
 
     return matrix
 
-def try_load_direct_line_impedance(line_config):
+def try_load_direct_line_impedance(line_config, wire_list):
     #It is possible to specify the line impedance directly in Z matrix form:
     #http://gridlab-d.shoutwiki.com/wiki/Power_Flow_User_Guide#Line_configuration_properties
 
     impedance_matrix = None
     for property_number in line_direct_lookup.keys():
         prop_name = f"z{property_number}"
-        if not hasattr(line_config, prop_name):
+        if not hasattr(line_config, f"_{prop_name}"):
             continue
 
-        if impedance_matrix == None:
+        if impedance_matrix is None:
             impedance_matrix = np.zeros((3,3)).astype(complex)
         
         i, j = line_direct_lookup[property_number]
 
         impedance_matrix[i][j] = complex(line_config[prop_name])
-    
-    return impedance_matrix
+
+    if impedance_matrix is None:
+        return None
+
+    indexes = [direct_phase_lookup[wire.phase] for wire in wire_list if wire.phase != "N"]
+    return impedance_matrix[np.ix_(indexes, indexes)]
 
 def try_load_direct_line_capacitance(line_config):
     #It is possible to specify the line capacitance directly in Z matrix form:
diff --git a/src/ditto/readers/gridlabd/read.py b/src/ditto/readers/gridlabd/read.py
index 9050116..2285da3 100644
--- a/src/ditto/readers/gridlabd/read.py
+++ b/src/ditto/readers/gridlabd/read.py
@@ -853,11 +853,17 @@ class Reader(AbstractReader):
                 except AttributeError:
                     pass
 
-                wire_list = list(conductors.keys())
+                wire_list = [wire for wire in conductors if wire.phase in phases or wire.phase == "N"]
+                if len(wire_list) == 0:
+                    #The line is described by its matrices rather than by its wires.
+                    for p in phases:
+                        api_wire = Wire(model)
+                        api_wire.phase = p
+                        wire_list.append(api_wire)
 
-                impedance_matrix = try_load_direct_line_impedance(config)
+                impedance_matrix = try_load_direct_line_impedance(config, wire_list)
 
-                if impedance_matrix == None:
+                if impedance_matrix is None:
                     wire_distances = get_wire_distances(wire_list, distances)
                     impedance_matrix = compute_overhead_impedance(wire_list, wire_distances, phases, has_neutral)
 
@@ -865,7 +871,7 @@ class Reader(AbstractReader):
 
                 capacitance_matrix = try_load_direct_line_capacitance(config)
 
-                if capacitance_matrix is None:
+                if capacitance_matrix is None and len(conductors) > 0:
                     capacitance_matrix = compute_overhead_capacitance(wire_list, distances)
                 
                 if capacitance_matrix is not None:
@@ -997,9 +1003,15 @@ class Reader(AbstractReader):
                 except AttributeError:
                     pass
 
-                wire_list = list(conductors.keys())
+                wire_list = [wire for wire in conductors if wire.phase in triplex_phases or wire.phase == "N"]
+                if len(wire_list) == 0:
+                    #The line is described by its matrices rather than by its wires.
+                    for p in triplex_phases:
+                        api_wire = Wire(model)
+                        api_wire.phase = p
+                        wire_list.append(api_wire)
 
-                impedance_matrix = try_load_direct_line_impedance(config)
+                impedance_matrix = try_load_direct_line_impedance(config, wire_list)
 
                 if impedance_matrix is None:
                     impedance_matrix = compute_triplex_impedance(wire_list)
@@ -1154,9 +1166,15 @@ class Reader(AbstractReader):
                 except AttributeError:
                     pass
 
-                wire_list = list(conductors.keys())
+                wire_list = [wire for wire in conductors if wire.phase in phases or wire.phase == "N"]
+                if len(wire_list) == 0:
+                    #The line is described by its matrices rather than by its wires.
+                    for p in phases:
+                        api_wire = Wire(model)
+                        api_wire.phase = p
+                        wire_list.append(api_wire)
 
-                impedance_matrix = try_load_direct_line_impedance(config)
+                impedance_matrix = try_load_direct_line_impedance(config, wire_list)
 
                 if impedance_matrix is None:
                     wire_distances = get_wire_distances(wire_list, distances)
@@ -1166,10 +1184,11 @@ class Reader(AbstractReader):
 
                 capacitance_matrix = try_load_direct_line_capacitance(config)
 
-                if capacitance_matrix is None:
+                if capacitance_matrix is None and len(conductors) > 0:
                     capacitance_matrix = compute_underground_capacitance(wire_list)
                 
-                api_line.capacitance_matrix = convert_Z_matrix_per_mile_to_per_meter(capacitance_matrix)
+                if capacitance_matrix is not None:
+                    api_line.capacitance_matrix = convert_Z_matrix_per_mile_to_per_meter(capacitance_matrix)
 
                 api_line.wires = wire_list
 
-- 
2.43.0


From 2db6a25bbe80243972276df095d95145df56ec52 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:23:12 +0000
Subject: [PATCH 31/48] fix: compute the charging of GLM lines in consistent
 units and in full

---
 src/ditto/readers/gridlabd/line_impedance.py | 36 ++++++--------------
 1 file changed, 10 insertions(+), 26 deletions(-)

diff --git a/src/ditto/readers/gridlabd/line_impedance.py b/src/ditto/readers/gridlabd/line_impedance.py
index aa957f6..6fcefc4 100644
--- a/src/ditto/readers/gridlabd/line_impedance.py
+++ b/src/ditto/readers/gridlabd/line_impedance.py
@@ -488,11 +488,10 @@ def get_wire_distances(wire_list, distances):
     return distances[np.ix_(indexes, indexes)]
 
 def compute_overhead_capacitance(wire_list, distances, freq = 60):
-    neutral_index = rev_lookup["N"]
     earth_index = rev_lookup["E"]
 
     #See definitions below eqn 5.5
-    S = np.zeros((4, 4), dtype=complex)
+    S = np.zeros((4, 4))
     RD = np.zeros(4)
 
     has_neutral = False
@@ -506,30 +505,21 @@ def compute_overhead_capacitance(wire_list, distances, freq = 60):
 
         i = rev_lookup[i_wire.phase]
         indexes.append(i)
-        S[i, i] = 2 * distances[i][i]
-        RD[i] = i_wire.diameter / 2
+        RD[i] = i_wire.diameter / 24 #inches to a radius in feet, which the distances are in.
 
         for j_wire in wire_list:
             j = rev_lookup[j_wire.phase]
 
-            phase_phase_dist = distances[i][j]
-            phase_neutral_dist = distances[i][neutral_index]
-            phase_earth_dist = distances[i][earth_index]
-            neutral_earth_dist = distances[neutral_index][earth_index]
+            i_earth_dist = distances[i][earth_index]
+            j_earth_dist = distances[j][earth_index]
+            distance = 0 if i == j else distances[i][j]
 
-            phasepair = i_wire.phase + j_wire.phase 
+            if not (i_earth_dist > 0 and j_earth_dist > 0 and distance >= 0):
+                #The images of the wires are unknown.
+                return None
 
-            if i == j:
-                _horizDist = 0
-                _vertDist = 2 * phase_earth_dist
-            if phasepair in ["AB", "BA", "AC", "CA", "BC", "CB"]:
-                _horizDist = phase_phase_dist
-                _vertDist = 2 * phase_earth_dist
-            elif phasepair in ["AN", "NA", "BN", "NB", "CN", "NC"]:
-                _horizDist = (phase_neutral_dist ** 2 - (phase_earth_dist - neutral_earth_dist) ** 2) ** 0.5
-                _vertDist = phase_earth_dist + neutral_earth_dist
-
-            S[i, j] = (_horizDist ** 2 + _vertDist ** 2) ** 0.5
+            #Distance between a wire and the image of another.
+            S[i, j] = (distance ** 2 + 4 * i_earth_dist * j_earth_dist) ** 0.5
 
     #See eqn's 5.9 and 5.10.
     reduced_distances = distances[:, indexes][indexes, :]
@@ -558,9 +548,6 @@ def compute_overhead_capacitance(wire_list, distances, freq = 60):
     #Eqn 5.15
     Y = 2 * math.pi * freq * 1e-6 * 1j * C
 
-    #Shunt capacitance is applied on either side of the line.
-    Y = Y / 2
-
     return Y
 
 def compute_underground_capacitance(wire_list):
@@ -596,9 +583,6 @@ def compute_underground_capacitance(wire_list):
 
         #Shunt values go down the diagonal in wire order.
         capacitance_matrix[index, index] = y_ag
-    
-    #Shunt capacitance is applied on either side of the line.
-    capacitance_matrix = capacitance_matrix / 2
 
     return capacitance_matrix
 
-- 
2.43.0


From 2efb9d6812e84035e6fd1e8e413ff4fd62b553f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:23:12 +0000
Subject: [PATCH 32/48] fix: import line-to-line loads of delta connected GLM
 loads

---
 src/ditto/readers/gridlabd/load_parser.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/ditto/readers/gridlabd/load_parser.py b/src/ditto/readers/gridlabd/load_parser.py
index 298cdfb..cb3a650 100644
--- a/src/ditto/readers/gridlabd/load_parser.py
+++ b/src/ditto/readers/gridlabd/load_parser.py
@@ -196,6 +196,8 @@ class LoadParser:
                 phaseload.phase = "BC"
             elif phase == "C":
                 phaseload.phase = "CA"
+            else:
+                phaseload.phase = phase
         else:
             phaseload.phase = phase
         phaseload.p = 0  # Default value
-- 
2.43.0


From 996016aa86bf053296ed7bbcd32c636458aa4dbc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:23:12 +0000
Subject: [PATCH 33/48] fix: import GLM capacitors that leave their control at
 its default

---
 src/logic/network/parsers/threephase/threephaseparser.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/logic/network/parsers/threephase/threephaseparser.py b/src/logic/network/parsers/threephase/threephaseparser.py
index fb6d85d..4722b3b 100644
--- a/src/logic/network/parsers/threephase/threephaseparser.py
+++ b/src/logic/network/parsers/threephase/threephaseparser.py
@@ -206,7 +206,7 @@ class ThreePhaseParser:
             if not phase_capacitor.phase in model.connected_phases:
                 continue
 
-            mode = CapacitorMode[gld_cap._control]
+            mode = CapacitorMode[getattr(gld_cap, "_control", "MANUAL")]
             if mode == CapacitorMode.VOLT and (model.high == None or model.low == None):
                 #https://github.com/gridlab-d/gridlab-d/blob/9f0a09853280bb3515f8236b8af3192304759650/powerflow/capacitor.cpp#L320-L325
                 mode = CapacitorMode.MANUAL
-- 
2.43.0


From ac5648c0e676f7e75637746ecd01cbe641899412 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:23:24 +0000
Subject: [PATCH 34/48] fix: convert GLM units written right behind their
 number

---
 src/ditto/readers/gridlabd/helpers.py | 16 ++++++++++++----
 src/ditto/readers/gridlabd/read.py    |  7 ++++---
 2 files changed, 16 insertions(+), 7 deletions(-)

diff --git a/src/ditto/readers/gridlabd/helpers.py b/src/ditto/readers/gridlabd/helpers.py
index d142446..501034e 100644
--- a/src/ditto/readers/gridlabd/helpers.py
+++ b/src/ditto/readers/gridlabd/helpers.py
@@ -6,6 +6,10 @@ import numpy as np
 
 triplex_phases = ["1", "2"]
 
+#Properties whose values are names, even if they look like numbers.
+_name_properties = ["name", "parent", "from", "to", "configuration", "spacing", "groupid"]
+
+_number = r"[-+]?\d*\.?\d+(?:[eE][-+]?\d+)?|[-+]?\d+\.(?:[eE][-+]?\d+)?"
 #What each unit is worth in the unit that GridLAB-D assumes for most properties when no unit is given:
 #feet, ohms per mile, nanofarads per mile, and plain volts, amps, ohms and volt-amperes.
 _lengths = {"ft": 1, "in": 1 / 12, "yd": 3, "mile": 5280, "mm": 1 / 304.8, "cm": 1 / 30.48, "m": 1 / 0.3048, "km": 1000 / 0.3048}
@@ -24,6 +28,14 @@ for _length, _factor in _lengths.items():
 _inch_properties = ["diameter", "outer_diameter", "conductor_diameter", "neutral_diameter", "insulation_thickness", "shield_thickness", "shield_diameter"]
 _kva_properties = ["power_rating", "powerA_rating", "powerB_rating", "powerC_rating"]
 
+def split_unit(property_name: str, value: str) -> Tuple[str, str]:
+    #A unit may also be written right behind its number.
+    match = re.fullmatch(f"((?:{_number})(?:(?:{_number})j)?)([a-zA-Z/]+)", value)
+    if match is None or property_name in _name_properties or not match[2] in unit_factors:
+        return value, None
+
+    return match[1], match[2]
+
 def to_default_unit(property_name: str, value: str, unit: str) -> str:
     factor = unit_factors.get(unit, None)
     if factor is None:
@@ -42,10 +54,6 @@ def to_default_unit(property_name: str, value: str, unit: str) -> str:
     except ValueError:
         return str(complex(value) * factor)
 
-#Properties whose values are names, even if they look like numbers.
-_name_properties = ["name", "parent", "from", "to", "configuration", "spacing", "groupid"]
-
-_number = r"[-+]?\d*\.?\d+(?:[eE][-+]?\d+)?|[-+]?\d+\.(?:[eE][-+]?\d+)?"
 _gridlabd_complex = re.compile(f"({_number})((?=[-+])(?:{_number}))([idr])")
 
 def to_python_complex(property_name: str, value: str) -> str:
diff --git a/src/ditto/readers/gridlabd/read.py b/src/ditto/readers/gridlabd/read.py
index 2285da3..3466093 100644
--- a/src/ditto/readers/gridlabd/read.py
+++ b/src/ditto/readers/gridlabd/read.py
@@ -22,7 +22,7 @@ from ditto.models.base import Unicode
 from ditto.readers.gridlabd.line_impedance import compute_overhead_capacitance, compute_overhead_impedance, compute_underground_impedance, compute_triplex_impedance, compute_overhead_spacing, compute_underground_spacing, try_load_direct_line_impedance, try_load_direct_line_capacitance, compute_underground_capacitance, get_wire_distances, num_dists
 from ditto.readers.gridlabd.load_parser import LoadParser
 from ditto.readers.abstract_reader import AbstractReader
-from ditto.readers.gridlabd.helpers import parse_phases, to_default_unit, to_python_complex, triplex_phases
+from ditto.readers.gridlabd.helpers import parse_phases, split_unit, to_default_unit, to_python_complex, triplex_phases
 
 logger = logging.getLogger(__name__)
 
@@ -129,11 +129,12 @@ def read_gld_objects_and_schedules(input_file, origin_datetime="2017 Jun 1 2:00P
                 entries = row.split()
                 if len(entries) > 1:
                     element = entries[0]
-                    value = to_python_complex(element, entries[1].replace('"', ""))
+                    value, units = split_unit(element, entries[1].replace('"', ""))
+                    value = to_python_complex(element, value)
 
                     if len(entries) > 2:
                         units = entries[2].replace('"', "")
-                        value = to_default_unit(element, value, units)
+                    value = to_default_unit(element, value, units)
 
                     # Assuming no nested objects for now.
                     curr_object[element] = value
-- 
2.43.0


From 3d097658535c7e59124df5169f12d56f593cd80f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:23:49 +0000
Subject: [PATCH 35/48] fix: use each underground cable's own number of neutral
 strands

---
 src/ditto/readers/gridlabd/line_impedance.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/ditto/readers/gridlabd/line_impedance.py b/src/ditto/readers/gridlabd/line_impedance.py
index 6fcefc4..068c3e4 100644
--- a/src/ditto/readers/gridlabd/line_impedance.py
+++ b/src/ditto/readers/gridlabd/line_impedance.py
@@ -670,6 +670,8 @@ def compute_underground_impedance(wire_list, distances, freq=60, resistivity=100
             if i == j:
                 temp.append(conductor_own_neutral_distances[i])
             else:
+                #Every concentric neutral has its own number of strands, and a separate neutral wire none (eqn 4.93).
+                k = wire_list[j].concentric_neutral_nstrand if wire_list[j].phase != "N" else 1
                 temp.append((distances[i][j]**k - conductor_own_neutral_distances[j]**k)**(1/k))
         conductor_neutral_distances.append(temp)
 
-- 
2.43.0


From 6bc6d64c022e941cbd3d25372a4e2e2609c6a14f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:23:49 +0000
Subject: [PATCH 36/48] fix: keep the properties of nested GLM objects out of
 the object around them

---
 src/ditto/readers/gridlabd/read.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/ditto/readers/gridlabd/read.py b/src/ditto/readers/gridlabd/read.py
index 3466093..d970ba6 100644
--- a/src/ditto/readers/gridlabd/read.py
+++ b/src/ditto/readers/gridlabd/read.py
@@ -137,7 +137,8 @@ def read_gld_objects_and_schedules(input_file, origin_datetime="2017 Jun 1 2:00P
                     value = to_default_unit(element, value, units)
 
                     # Assuming no nested objects for now.
-                    curr_object[element] = value
+                    if not ignore_elements:
+                        curr_object[element] = value
 
                 if len(row) >= 1:
                     if row[-1] == "}" or row[-2:] == "};":
-- 
2.43.0


From 37cb58c1f6590ec05e0bd648732f7029bae866df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:23:49 +0000
Subject: [PATCH 37/48] fix: import every one of several unnamed parallel GLM
 links

---
 src/ditto/readers/gridlabd/read.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/ditto/readers/gridlabd/read.py b/src/ditto/readers/gridlabd/read.py
index d970ba6..cba1af5 100644
--- a/src/ditto/readers/gridlabd/read.py
+++ b/src/ditto/readers/gridlabd/read.py
@@ -161,6 +161,9 @@ def read_gld_objects_and_schedules(input_file, origin_datetime="2017 Jun 1 2:00P
                                         + "-"
                                         + curr_object["to"]
                                     )
+                                    # Parallel links all keep an entry.
+                                    while curr_object["name"] in all_gld_objects:
+                                        curr_object["name"] += "+"
                                     all_gld_objects[
                                         curr_object["name"]
                                     ] = curr_object
-- 
2.43.0


From ad34f921358d42450036cd1043dec2cb89f13480 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:23:49 +0000
Subject: [PATCH 38/48] fix: keep the nominal voltage of GLM nodes that give an
 initial voltage

---
 src/logic/network/parsers/threephase/threephaseparser.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/logic/network/parsers/threephase/threephaseparser.py b/src/logic/network/parsers/threephase/threephaseparser.py
index 4722b3b..6ec9277 100644
--- a/src/logic/network/parsers/threephase/threephaseparser.py
+++ b/src/logic/network/parsers/threephase/threephaseparser.py
@@ -117,6 +117,9 @@ class ThreePhaseParser:
                                 pass
 
                             bus = self.create_bus(network_model, v_mag, v_ang, model.name, phase, False)
+                            if model.nominal_voltage != None:
+                                #The initial voltage given may differ from the nominal one.
+                                bus.V_Nominal = model.nominal_voltage
 
                             if phase == "1":
                                 bus.Vr_init = -60.0
-- 
2.43.0


From d70526ace3207be36d672afd81876d1e0e893c47 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:28:33 +0000
Subject: [PATCH 39/48] fix: scale the charging of GLM underground lines by
 their insulation's permittivity

---
 src/ditto/models/wire.py                     | 1 +
 src/ditto/readers/gridlabd/line_impedance.py | 5 +++--
 src/ditto/readers/gridlabd/read.py           | 6 ++++++
 3 files changed, 10 insertions(+), 2 deletions(-)

diff --git a/src/ditto/models/wire.py b/src/ditto/models/wire.py
index 10d2131..d9bed98 100644
--- a/src/ditto/models/wire.py
+++ b/src/ditto/models/wire.py
@@ -33,6 +33,7 @@ class Wire(DiTToHasTraits):
         self.concentric_neutral_diameter = None
         self.concentric_neutral_outside_diameter = None
         self.concentric_neutral_nstrand = None
+        self.insulation_relative_permittivity = 1.0
 
     nameclass = Unicode(
         help="""The nameclass (e.g. 1/0_ACSR) of the wire""", default_value=None
diff --git a/src/ditto/readers/gridlabd/line_impedance.py b/src/ditto/readers/gridlabd/line_impedance.py
index 068c3e4..52a885e 100644
--- a/src/ditto/readers/gridlabd/line_impedance.py
+++ b/src/ditto/readers/gridlabd/line_impedance.py
@@ -578,8 +578,9 @@ def compute_underground_capacitance(wire_list):
             #Eqn 5.30
             V_p1 = np.log(R_b / RD_c) - (1 / k) * np.log(k * RD_s / R_b)
 
-        #Eqn 5.31 & 5.32
-        y_ag = 77.3619 * 1j * 1e-6 / V_p1
+        #Eqn 5.31 & 5.32, whose constant is for a relative permittivity of 2.3.
+        permittivity = getattr(wire, "insulation_relative_permittivity", 2.3)
+        y_ag = 77.3619 / 2.3 * permittivity * 1j * 1e-6 / V_p1
 
         #Shunt values go down the diagonal in wire order.
         capacitance_matrix[index, index] = y_ag
diff --git a/src/ditto/readers/gridlabd/read.py b/src/ditto/readers/gridlabd/read.py
index cba1af5..7ec439b 100644
--- a/src/ditto/readers/gridlabd/read.py
+++ b/src/ditto/readers/gridlabd/read.py
@@ -1103,6 +1103,12 @@ class Reader(AbstractReader):
                         except AttributeError:
                             pass
 
+                        try:
+                            api_wire.insulation_relative_permittivity = float(
+                                conductor["insulation_relative_permitivitty"])
+                        except AttributeError:
+                            pass
+
                         try:
                             api_wire.conductor_diameter = float(
                                 conductor["conductor_diameter"]) # inches
-- 
2.43.0


From abc8cb60ef0e5fb8745451a9b02cea352806b239 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:30:49 +0000
Subject: [PATCH 40/48] fix: import GLM lines given by capacitance matrices

---
 src/ditto/formats/gridlabd/schema.json       | 54 ++++++++++++++++++++
 src/ditto/readers/gridlabd/line_impedance.py | 18 ++++---
 src/ditto/readers/gridlabd/read.py           |  4 +-
 3 files changed, 67 insertions(+), 9 deletions(-)

diff --git a/src/ditto/formats/gridlabd/schema.json b/src/ditto/formats/gridlabd/schema.json
index fc3ccd8..bc39ce1 100644
--- a/src/ditto/formats/gridlabd/schema.json
+++ b/src/ditto/formats/gridlabd/schema.json
@@ -409,6 +409,60 @@
                     "name": "z33",
                     "type": "complex",
                     "unit": "Ohm/mile"
+                },
+                {
+                    "description": "describes the capacitance matrix directly for either underground or overhead lines instead of using the geometric configurations (This will over-write geometric configurations).",
+                    "name": "c11",
+                    "type": "double",
+                    "unit": "nF/mile"
+                },
+                {
+                    "description": "describes the capacitance matrix directly for either underground or overhead lines instead of using the geometric configurations (This will over-write geometric configurations).",
+                    "name": "c12",
+                    "type": "double",
+                    "unit": "nF/mile"
+                },
+                {
+                    "description": "describes the capacitance matrix directly for either underground or overhead lines instead of using the geometric configurations (This will over-write geometric configurations).",
+                    "name": "c13",
+                    "type": "double",
+                    "unit": "nF/mile"
+                },
+                {
+                    "description": "describes the capacitance matrix directly for either underground or overhead lines instead of using the geometric configurations (This will over-write geometric configurations).",
+                    "name": "c21",
+                    "type": "double",
+                    "unit": "nF/mile"
+                },
+                {
+                    "description": "describes the capacitance matrix directly for either underground or overhead lines instead of using the geometric configurations (This will over-write geometric configurations).",
+                    "name": "c22",
+                    "type": "double",
+                    "unit": "nF/mile"
+                },
+                {
+                    "description": "describes the capacitance matrix directly for either underground or overhead lines instead of using the geometric configurations (This will over-write geometric configurations).",
+                    "name": "c23",
+                    "type": "double",
+                    "unit": "nF/mile"
+                },
+                {
+                    "description": "describes the capacitance matrix directly for either underground or overhead lines instead of using the geometric configurations (This will over-write geometric configurations).",
+                    "name": "c31",
+                    "type": "double",
+                    "unit": "nF/mile"
+                },
+                {
+                    "description": "describes the capacitance matrix directly for either underground or overhead lines instead of using the geometric configurations (This will over-write geometric configurations).",
+                    "name": "c32",
+                    "type": "double",
+                    "unit": "nF/mile"
+                },
+                {
+                    "description": "describes the capacitance matrix directly for either underground or overhead lines instead of using the geometric configurations (This will over-write geometric configurations).",
+                    "name": "c33",
+                    "type": "double",
+                    "unit": "nF/mile"
                 }
             ]
         },
diff --git a/src/ditto/readers/gridlabd/line_impedance.py b/src/ditto/readers/gridlabd/line_impedance.py
index 52a885e..35aff0f 100644
--- a/src/ditto/readers/gridlabd/line_impedance.py
+++ b/src/ditto/readers/gridlabd/line_impedance.py
@@ -784,24 +784,28 @@ def try_load_direct_line_impedance(line_config, wire_list):
     indexes = [direct_phase_lookup[wire.phase] for wire in wire_list if wire.phase != "N"]
     return impedance_matrix[np.ix_(indexes, indexes)]
 
-def try_load_direct_line_capacitance(line_config):
-    #It is possible to specify the line capacitance directly in Z matrix form:
+def try_load_direct_line_capacitance(line_config, wire_list, freq=60):
+    #It is possible to specify the line capacitance directly in matrix form, in nF/mile:
     #http://gridlab-d.shoutwiki.com/wiki/Power_Flow_User_Guide#Line_configuration_properties
 
     capacitance_matrix = None
     for property_number in line_direct_lookup.keys():
         prop_name = f"c{property_number}"
-        if not hasattr(line_config, prop_name):
+        if not hasattr(line_config, f"_{prop_name}"):
             continue
 
-        if capacitance_matrix == None:
+        if capacitance_matrix is None:
             capacitance_matrix = np.zeros((3,3)).astype(complex)
         
         i, j = line_direct_lookup[property_number]
 
-        capacitance_matrix[i][j] = complex(line_config[prop_name])
-    
-    return capacitance_matrix
+        capacitance_matrix[i][j] = 2 * math.pi * freq * 1e-9 * 1j * float(line_config[prop_name])
+
+    if capacitance_matrix is None:
+        return None
+
+    indexes = [direct_phase_lookup[wire.phase] for wire in wire_list if wire.phase != "N"]
+    return capacitance_matrix[np.ix_(indexes, indexes)]
 
 def calc_Zii(r_i, GMRi, is_underground, resistivity = 100, freq = 60):
     #Eqn 4.41
diff --git a/src/ditto/readers/gridlabd/read.py b/src/ditto/readers/gridlabd/read.py
index 7ec439b..b872718 100644
--- a/src/ditto/readers/gridlabd/read.py
+++ b/src/ditto/readers/gridlabd/read.py
@@ -874,7 +874,7 @@ class Reader(AbstractReader):
 
                 api_line.impedance_matrix = convert_Z_matrix_per_mile_to_per_meter(impedance_matrix)
 
-                capacitance_matrix = try_load_direct_line_capacitance(config)
+                capacitance_matrix = try_load_direct_line_capacitance(config, wire_list)
 
                 if capacitance_matrix is None and len(conductors) > 0:
                     capacitance_matrix = compute_overhead_capacitance(wire_list, distances)
@@ -1193,7 +1193,7 @@ class Reader(AbstractReader):
 
                 api_line.impedance_matrix = convert_Z_matrix_per_mile_to_per_meter(impedance_matrix)
 
-                capacitance_matrix = try_load_direct_line_capacitance(config)
+                capacitance_matrix = try_load_direct_line_capacitance(config, wire_list)
 
                 if capacitance_matrix is None and len(conductors) > 0:
                     capacitance_matrix = compute_underground_capacitance(wire_list)
-- 
2.43.0


From ad2de18fd05243cde64566a0b314b221c8e2b63d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:32:22 +0000
Subject: [PATCH 41/48] fix: read GLM objects whatever their line breaks

---
 src/ditto/readers/gridlabd/read.py | 21 +++++++++++++--------
 1 file changed, 13 insertions(+), 8 deletions(-)

diff --git a/src/ditto/readers/gridlabd/read.py b/src/ditto/readers/gridlabd/read.py
index b872718..83887c8 100644
--- a/src/ditto/readers/gridlabd/read.py
+++ b/src/ditto/readers/gridlabd/read.py
@@ -27,6 +27,8 @@ from ditto.readers.gridlabd.helpers import parse_phases, split_unit, to_default_
 logger = logging.getLogger(__name__)
 
 remove_nonnum = re.compile(r'[^\d.]+')
+#Statements end at these characters, unless they are quoted.
+statement_end = re.compile(r'(?<=[;{}])(?=(?:[^"]*"[^"]*")*[^"]*$)')
 
 meters_per_mile = 1609.344
 
@@ -91,20 +93,14 @@ def read_gld_objects_and_schedules(input_file, origin_datetime="2017 Jun 1 2:00P
             all_includes = all_includes + include_rows
     all_rows = all_rows + all_includes
 
-    for row in all_rows:
+    for row in split_rows(all_rows):
         row = row.strip()
         units = None
 
-        # Deal with comments
-        if row[:2] == "//":
-            continue
-        if row.find("//") != -1:
-            row = row[:row.find("//")]
-
         entries = row.split()
         if len(entries) > 0 and entries[0] == "object":
             if curr_object is None:
-                obj = entries[1].split(":")
+                obj = entries[1].rstrip("{").split(":")
                 obj_class = obj[0]
                 if obj_class in skipped_objects:
                     continue
@@ -194,6 +190,15 @@ def read_gld_objects_and_schedules(input_file, origin_datetime="2017 Jun 1 2:00P
 
     return (all_gld_objects, all_schedules)
 
+def split_rows(rows):
+    #A line may hold several properties and the braces around them.
+    for row in rows:
+        # Deal with comments
+        if row.find("//") != -1:
+            row = row[:row.find("//")]
+
+        yield from statement_end.split(row)
+
 def get_phase_status(obj, phase_property):
     #A phase that has no status of its own has the status of the whole device.
     for property_name in [phase_property, "status"]:
-- 
2.43.0


From 4fc952599efb5c93b51bedad1c47daee27bd8cb7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:50:36 +0000
Subject: [PATCH 42/48] fix: currents and impedances of triplex nodes and
 meters

---
 src/ditto/readers/gridlabd/load_parser.py | 10 ++++++++++
 src/ditto/readers/gridlabd/read.py        |  2 +-
 2 files changed, 11 insertions(+), 1 deletion(-)

diff --git a/src/ditto/readers/gridlabd/load_parser.py b/src/ditto/readers/gridlabd/load_parser.py
index cb3a650..5fcf94b 100644
--- a/src/ditto/readers/gridlabd/load_parser.py
+++ b/src/ditto/readers/gridlabd/load_parser.py
@@ -135,6 +135,16 @@ class LoadParser:
         except AttributeError:
             pass
 
+        try:
+            phaseload = self.__create_phaseload(model, phase, is_delta)
+            complex_current = complex(obj[f"current_{phase}"])
+            if abs(complex_current) != 0:  
+                phaseload.i_const = complex_current
+                phaseload.model = 5  # The opendss model number (specifying constant current)
+                yield phaseload
+        except AttributeError:
+            pass
+
         try:
             phaseload = self.__create_phaseload(model, phase, is_delta)
             complex_current = complex(obj[f"constant_current_{phase}"])
diff --git a/src/ditto/readers/gridlabd/read.py b/src/ditto/readers/gridlabd/read.py
index 83887c8..7142f21 100644
--- a/src/ditto/readers/gridlabd/read.py
+++ b/src/ditto/readers/gridlabd/read.py
@@ -253,7 +253,7 @@ class Reader(AbstractReader):
             if obj_type in shared_config_objects:
                 continue
 
-            if obj_type == "triplex_node" or obj_type == "triplex_meter" and (hasattr(obj, "_power_12") or hasattr(obj, "_power_1") or hasattr(obj, "_power_2")):
+            if obj_type == "triplex_node" or obj_type == "triplex_meter" and any(hasattr(obj, f"_{kind}_{phase}") for kind in ["power", "current", "impedance"] for phase in ["1", "2", "12"]):
                 # Actually a triplex load. Change obj_type and skip "triplex_node" code, to pick up at "triplex_load" code
                 obj_type = "triplex_load"
 
-- 
2.43.0


From 54fdffa4e31e913dd3f46b021ec1e29153d6b623 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:50:36 +0000
Subject: [PATCH 43/48] fix: leave out the neutral of GLM lines without one

---
 src/ditto/readers/gridlabd/read.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/ditto/readers/gridlabd/read.py b/src/ditto/readers/gridlabd/read.py
index 7142f21..445ce97 100644
--- a/src/ditto/readers/gridlabd/read.py
+++ b/src/ditto/readers/gridlabd/read.py
@@ -863,7 +863,7 @@ class Reader(AbstractReader):
                 except AttributeError:
                     pass
 
-                wire_list = [wire for wire in conductors if wire.phase in phases or wire.phase == "N"]
+                wire_list = [wire for wire in conductors if wire.phase in phases or (wire.phase == "N" and has_neutral)]
                 if len(wire_list) == 0:
                     #The line is described by its matrices rather than by its wires.
                     for p in phases:
@@ -1182,7 +1182,7 @@ class Reader(AbstractReader):
                 except AttributeError:
                     pass
 
-                wire_list = [wire for wire in conductors if wire.phase in phases or wire.phase == "N"]
+                wire_list = [wire for wire in conductors if wire.phase in phases or (wire.phase == "N" and has_neutral)]
                 if len(wire_list) == 0:
                     #The line is described by its matrices rather than by its wires.
                     for p in phases:
-- 
2.43.0


From b55433b18b91decdccf0778fbff996151e350143 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:50:36 +0000
Subject: [PATCH 44/48] fix: phases of GLM objects in any order

---
 src/ditto/readers/gridlabd/helpers.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/ditto/readers/gridlabd/helpers.py b/src/ditto/readers/gridlabd/helpers.py
index 501034e..1e00895 100644
--- a/src/ditto/readers/gridlabd/helpers.py
+++ b/src/ditto/readers/gridlabd/helpers.py
@@ -103,4 +103,7 @@ def parse_phases(phase_str: str, obj_name: str) -> Tuple[List[str], bool, bool]:
     elif is_triplex and (len(phases) > 1 or is_delta):
         raise Exception(f"Invalid phase information (triplex info invalid) (obj: {obj_name}")
 
+    #The phases may be listed in any order, but the windings of a delta follow the sequence ABC.
+    phases.sort()
+
     return (phases, is_delta, is_triplex, has_neutral)
\ No newline at end of file
-- 
2.43.0


From 6c36867c916e0dae6ad51e782cb65be20346da0d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:04:18 +0000
Subject: [PATCH 45/48] fix: write the results of a run with an artificial
 swing bus

Without a load file the output file that was asked for was never written.
---
 src/logic/network/timeseriesprocessor.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/logic/network/timeseriesprocessor.py b/src/logic/network/timeseriesprocessor.py
index 52ba57a..48e0c77 100644
--- a/src/logic/network/timeseriesprocessor.py
+++ b/src/logic/network/timeseriesprocessor.py
@@ -246,7 +246,9 @@ class TimeSeriesProcessor:
         if self.settings.loadfile_name is not None:
             return self.execute_quasi_time_series()
         elif self.settings.artificialswingbus is not None:
-            return self.execute_powerflow()
+            results = self.execute_powerflow()
+            results.output(self.settings.outputfile)
+            return results
         else:
             return None
 
-- 
2.43.0


From 27fcdcd4e9ea82bd9bd1099238f9a325d1cfdddd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:07:24 +0000
Subject: [PATCH 46/48] fix: drop the infeasibility currents of buses outside
 the selected island

Infeasibility analysis of a selected island failed on the buses that were left out.
---
 src/logic/network/timeseriesprocessor.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/logic/network/timeseriesprocessor.py b/src/logic/network/timeseriesprocessor.py
index 48e0c77..e06fdbf 100644
--- a/src/logic/network/timeseriesprocessor.py
+++ b/src/logic/network/timeseriesprocessor.py
@@ -125,6 +125,10 @@ class TimeSeriesProcessor:
         for idx in capacitor_to_remove:
             del self.powerflow.network.capacitors[idx]
 
+        optimization = self.powerflow.network.optimization
+        if optimization is not None:
+            optimization.infeasibility_currents = [current for current in optimization.infeasibility_currents if current.bus in self.powerflow.network.buses]
+
     def set_load_names(self):
         for phase_load in self.powerflow.network.loads:
             load_name = self.get_load_name(phase_load)
-- 
2.43.0


From c2ea9fbbcb9f7b129af9c532852c6737561b1d16 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:34:43 +0000
Subject: [PATCH 47/48] fix: conditions of stationarity of coupled lines hold
 the transposed admittances

With infeasibility analysis, the derivative by one phase's voltage must hold the multipliers of every
phase whose current depends on it. The stamps used the untransposed blocks, so with an impedance matrix
that is not symmetric the extra currents found were not the least.
---
 src/models/components/unbalanced_line.py | 19 ++++++++++++++++---
 1 file changed, 16 insertions(+), 3 deletions(-)

diff --git a/src/models/components/unbalanced_line.py b/src/models/components/unbalanced_line.py
index 0495732..cb80942 100644
--- a/src/models/components/unbalanced_line.py
+++ b/src/models/components/unbalanced_line.py
@@ -149,7 +149,7 @@ class UnbalancedLine():
                 else:
                     segment = shunt_lh
 
-                line_stamper = LagrangeStampDetails(segment, var_map, optimization_enabled, eqn_map)
+                line_stamper = self.__build_stamper(segment, var_map, eqn_map, optimization_enabled)
 
                 var_map_shunt_from = {}
                 var_map_shunt_from[Vr_from] = line2_from.node_Vr
@@ -171,11 +171,24 @@ class UnbalancedLine():
                 var_map_shunt_to[Lr_to] = GROUND.node_lambda_Vr
                 var_map_shunt_to[Li_to] = GROUND.node_lambda_Vi
 
-                shunt_stamper_from = LagrangeStampDetails(shunt_lh, var_map_shunt_from, optimization_enabled, eqn_map_shunt_from)
-                shunt_stamper_to = LagrangeStampDetails(shunt_lh, var_map_shunt_to, optimization_enabled, eqn_map_shunt_to)
+                shunt_stamper_from = self.__build_stamper(shunt_lh, var_map_shunt_from, eqn_map_shunt_from, optimization_enabled)
+                shunt_stamper_to = self.__build_stamper(shunt_lh, var_map_shunt_to, eqn_map_shunt_to, optimization_enabled)
 
                 self.stampers[(line1_from, line2_to)] = (line_stamper, shunt_stamper_from, shunt_stamper_to)
 
+    def __build_stamper(self, segment, var_map, eqn_map, optimization_enabled):
+        if optimization_enabled:
+            #The equations of one line depend on the voltages of the other, so it is the other line's
+            #stationarity conditions that contain this line's multipliers.
+            voltages = [Vr_from, Vi_from, Vr_to, Vi_to]
+            multipliers = [Lr_from, Li_from, Lr_to, Li_to]
+            eqn_map, var_map = (
+                {**eqn_map, **{v: var_map[v] for v in voltages}},
+                {**var_map, **{l: eqn_map[l] for l in multipliers}}
+            )
+
+        return LagrangeStampDetails(segment, var_map, optimization_enabled, eqn_map)
+
     def get_connections(self):
         for line in self.lines:
             from_bus, to_bus = line.get_nodes(self.network_model)
-- 
2.43.0


From 6ba87d012b242f1b09f06ae87265030be2f09451 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:28:41 +0000
Subject: [PATCH 48/48] fix: with dump_matrix, write the point returned when
 Newton gives up too (the file was left from an earlier solve)

---
 src/logic/nrsolver.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/logic/nrsolver.py b/src/logic/nrsolver.py
index 020276a..fcb5133 100644
--- a/src/logic/nrsolver.py
+++ b/src/logic/nrsolver.py
@@ -76,6 +76,9 @@ class NRSolver:
                 y = np.array(max_residual_history)
                 m, _ = np.linalg.lstsq(A, y, rcond=None)[0]
                 if m > 0:
+                    if self.settings.dump_matrix:
+                        dump_v(v_next)
+
                     return (False, v_next, iteration_num)
             
             if self.v_limiting != None and residual_max > self.settings.tolerance:
-- 
2.43.0

