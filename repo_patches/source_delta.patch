From 5213a201c1e974c1bbb7828131518f1c687a0078 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:51:10 +0000
Subject: [PATCH 1/9] fix: give the settings dataclasses default factories for
 their arrays

A numpy array as a dataclass default is refused by Python >= 3.11, so
runner.container and the pySailingVLM command could not be imported, and on
3.10 every instance shared (and could modify) the same default array.
---
 pySailingVLM/runner/container.py | 20 ++++++++++----------
 1 file changed, 10 insertions(+), 10 deletions(-)

diff --git a/pySailingVLM/runner/container.py b/pySailingVLM/runner/container.py
index 869bc71..3fe02e2 100644
--- a/pySailingVLM/runner/container.py
+++ b/pySailingVLM/runner/container.py
@@ -67,10 +67,10 @@ class Rig:
 class MainSail:
     centerline_twist_deg: np.ndarray = None
     
-    girths: np.ndarray = np.array([0.00, 1./8, 1./4, 1./2, 3./4, 7./8, 1.00])
-    chords: np.ndarray = np.array([4.00, 3.82, 3.64, 3.20, 2.64, 2.32, 2.00])
-    camber: np.ndarray = 5*np.array([0.01, 0.01, 0.01, 0.01, 0.01, 0.01, 0.01])
-    camber_distance_from_luff: np.ndarray = np.array([0.5, 0.5, 0.5, 0.5, 0.5, 0.5, 0.5]) # starting from leading edge
+    girths: np.ndarray = field(default_factory=lambda: np.array([0.00, 1./8, 1./4, 1./2, 3./4, 7./8, 1.00]))
+    chords: np.ndarray = field(default_factory=lambda: np.array([4.00, 3.82, 3.64, 3.20, 2.64, 2.32, 2.00]))
+    camber: np.ndarray = field(default_factory=lambda: 5*np.array([0.01, 0.01, 0.01, 0.01, 0.01, 0.01, 0.01]))
+    camber_distance_from_luff: np.ndarray = field(default_factory=lambda: np.array([0.5, 0.5, 0.5, 0.5, 0.5, 0.5, 0.5])) # starting from leading edge
     
     def __post_init__(self):
         if self.centerline_twist_deg is None:
@@ -80,10 +80,10 @@ class MainSail:
 class JibSail:
     centerline_twist_deg: np.ndarray = None
     
-    girths: np.ndarray = np.array([0.00, 1./4, 1./2, 3./4, 1.00])
-    chords: np.ndarray =np.array([3.80, 2.98, 2.15, 1.33, 0.5])
-    camber: np.ndarray = 0*np.array([0.01, 0.01, 0.01, 0.01, 0.01])
-    camber_distance_from_luff: np.ndarray = np.array([0.5, 0.5, 0.5, 0.5, 0.5]) # starting from leading edge   
+    girths: np.ndarray = field(default_factory=lambda: np.array([0.00, 1./4, 1./2, 3./4, 1.00]))
+    chords: np.ndarray = field(default_factory=lambda: np.array([3.80, 2.98, 2.15, 1.33, 0.5]))
+    camber: np.ndarray = field(default_factory=lambda: 0*np.array([0.01, 0.01, 0.01, 0.01, 0.01]))
+    camber_distance_from_luff: np.ndarray = field(default_factory=lambda: np.array([0.5, 0.5, 0.5, 0.5, 0.5])) # starting from leading edge   
     def __post_init__(self):
         if self.centerline_twist_deg is None:
             self.centerline_twist_deg = 15. * self.girths + 7
@@ -103,7 +103,7 @@ class JibSail:
 # heeling_reference [m] - distance from the water level,  at which the heeling moment is calculated.
 @dataclass
 class Csys:
-    reference_level_for_moments: np.ndarray =  np.array([0, 0, 0])  # [yaw_reference, sway_reference, heeling_reference]
+    reference_level_for_moments: np.ndarray = field(default_factory=lambda: np.array([0, 0, 0]))  # [yaw_reference, sway_reference, heeling_reference]
 
 
 # GEOMETRY OF THE KEEL
@@ -111,4 +111,4 @@ class Csys:
 # reminder: the z coord shall be negative (under the water)
 @dataclass
 class Keel:
-    center_of_lateral_resistance_upright: np.ndarray =  np.array([0, 0, -1.0])  # [m] the coordinates for a yacht standing in upright position
+    center_of_lateral_resistance_upright: np.ndarray = field(default_factory=lambda: np.array([0, 0, -1.0]))  # [m] the coordinates for a yacht standing in upright position
-- 
2.43.0


From a00e1e69e78a28c92ca937c7bdfcc0f58e0c2e50 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:51:10 +0000
Subject: [PATCH 2/9] fix: take the time stamp of the default output directory
 when Output() is made

It was taken once, when the module was imported, so every Output() of a
session named the same directory and later runs overwrote earlier ones.
---
 pySailingVLM/runner/container.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pySailingVLM/runner/container.py b/pySailingVLM/runner/container.py
index 3fe02e2..0e5bacd 100644
--- a/pySailingVLM/runner/container.py
+++ b/pySailingVLM/runner/container.py
@@ -11,7 +11,7 @@ from typing import ClassVar
 class Output:
     case_name: str = os.path.basename(__file__)  # get name of the current file
     case_dir: str = os.path.dirname(os.path.realpath(__file__)) # get dir of the current file
-    name: str = os.path.join("results_example_jib_and_mainsail_vlm", time.strftime("%Y-%m-%d_%Hh%Mm%Ss"))
+    name: str = field(default_factory=lambda: os.path.join("results_example_jib_and_mainsail_vlm", time.strftime("%Y-%m-%d_%Hh%Mm%Ss")))
     file_name: str = 'my_fancy_results' # name of xlsx excel file
 
 # SOLVER SETTINGS
-- 
2.43.0


From 08621c70f443df14796d51435d312992d445f462 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:51:10 +0000
Subject: [PATCH 3/9] fix: do not fail when another run creates the output
 directory first

Between the existence test and makedirs() a concurrent run could create the
directory; makedirs() then raised FileExistsError and the results were lost.
---
 pySailingVLM/results/save_utils.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/pySailingVLM/results/save_utils.py b/pySailingVLM/results/save_utils.py
index 085eb61..acffb70 100644
--- a/pySailingVLM/results/save_utils.py
+++ b/pySailingVLM/results/save_utils.py
@@ -48,8 +48,7 @@ def save_to_excel(output_dir : str, list_of_df : List[pd.DataFrame], output_file
     df_merged = pd.concat(list_of_df, axis=1, sort=False)
     max_row = df_merged.shape[0]
     last_col = df_merged.shape[1]
-    if not os.path.exists(output_dir):
-        os.makedirs(output_dir)
+    os.makedirs(output_dir, exist_ok=True)
 
     with pd.ExcelWriter(os.path.join(output_dir, output_file_name)) as writer:
         df_merged.to_excel(writer, startrow=0, sheet_name='Components', float_format="%.8f", index=False)
-- 
2.43.0


From 8440ca9beede2fa3d6bb5d1b92f19c86e736acc0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:51:10 +0000
Subject: [PATCH 4/9] fix: never leave a truncated results workbook behind

The workbook was written in place: a full disk or an interrupted run left a
half-written file, and destroyed the complete one an earlier run had saved
under that name. Write it beside the target and move it there when complete.
---
 pySailingVLM/results/save_utils.py | 17 ++++++++++++++++-
 1 file changed, 16 insertions(+), 1 deletion(-)

diff --git a/pySailingVLM/results/save_utils.py b/pySailingVLM/results/save_utils.py
index acffb70..3a80685 100644
--- a/pySailingVLM/results/save_utils.py
+++ b/pySailingVLM/results/save_utils.py
@@ -1,5 +1,7 @@
 import pandas as pd
 import os
+import tempfile
+from contextlib import contextmanager
 import numpy as np
 from pySailingVLM.results.inviscid_flow import InviscidFlowResults
 
@@ -43,6 +45,19 @@ def save_results_to_file(myvlm, csys_transformations,
     
 
 
+@contextmanager
+def replaced_when_complete(path : str):
+    """
+    replaced_when_complete gives a temporary path to write to, moved to path only when the block has succeeded
+
+    :param str path: path of the file, which keeps its old content until then
+    """
+    with tempfile.TemporaryDirectory(dir=os.path.dirname(path)) as tmp_dir:
+        tmp_path = os.path.join(tmp_dir, os.path.basename(path))
+        yield tmp_path
+        os.replace(tmp_path, path)
+
+
 def save_to_excel(output_dir : str, list_of_df : List[pd.DataFrame], output_file_name : str, df_inviscid_flow_integral : pd.DataFrame, df_inlet_conditions_integral: pd.DataFrame):
     
     df_merged = pd.concat(list_of_df, axis=1, sort=False)
@@ -50,7 +65,7 @@ def save_to_excel(output_dir : str, list_of_df : List[pd.DataFrame], output_file
     last_col = df_merged.shape[1]
     os.makedirs(output_dir, exist_ok=True)
 
-    with pd.ExcelWriter(os.path.join(output_dir, output_file_name)) as writer:
+    with replaced_when_complete(os.path.join(output_dir, output_file_name)) as path, pd.ExcelWriter(path) as writer:
         df_merged.to_excel(writer, startrow=0, sheet_name='Components', float_format="%.8f", index=False)
 
         workbook = writer.book
-- 
2.43.0


From da219d223797e477509749287b31c37654bcffac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:51:50 +0000
Subject: [PATCH 5/9] fix: plot the lift coefficients as lift and the drag
 coefficients as drag

The command passed them the wrong way round, so section_cl.png showed the drag
of the sails and section_cd.png their lift.
---
 pySailingVLM/runner/cli.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pySailingVLM/runner/cli.py b/pySailingVLM/runner/cli.py
index 8cd596d..e555420 100644
--- a/pySailingVLM/runner/cli.py
+++ b/pySailingVLM/runner/cli.py
@@ -89,6 +89,6 @@ def main():
     plot_cp(sail_set.zero_mesh, myvlm.p_coeffs, out.name)
     
     mean_cp, cl_data, cd_data = get_data_for_coeff_plot(myvlm, solver)
-    plot_section_coeff(cd_data, mean_cp,  out.name,  'lift', ['blue', 'green'])
-    plot_section_coeff(cl_data, mean_cp, out.name,  'drag',  ['teal', 'purple'])
+    plot_section_coeff(cl_data, mean_cp,  out.name,  'lift', ['blue', 'green'])
+    plot_section_coeff(cd_data, mean_cp, out.name,  'drag',  ['teal', 'purple'])
     
\ No newline at end of file
-- 
2.43.0


From ddef9908be750da1a46469a950260c14097a3417 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:51:51 +0000
Subject: [PATCH 6/9] fix: exit with a failure status when the input is missing
 or refused

Without a variables.py, or with input that is refused, the command printed a
message, wrote no results and exited with status 0, as if it had succeeded.
---
 pySailingVLM/runner/cli.py    | 2 +-
 pySailingVLM/runner/sail.py   | 4 ++--
 pySailingVLM/solver/forces.py | 2 +-
 3 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/pySailingVLM/runner/cli.py b/pySailingVLM/runner/cli.py
index e555420..b9e8d34 100644
--- a/pySailingVLM/runner/cli.py
+++ b/pySailingVLM/runner/cli.py
@@ -21,7 +21,7 @@ def load_variable_module(args):
         globals()['vr'] = __import__('variables')
     except ImportError as e:
         print(f'No variables.py file found in {args.dvars}\n{e}')
-        sys.exit(0)
+        sys.exit(1)
     
 def parse_cli():
 
diff --git a/pySailingVLM/runner/sail.py b/pySailingVLM/runner/sail.py
index 28d131c..5b85e6f 100644
--- a/pySailingVLM/runner/sail.py
+++ b/pySailingVLM/runner/sail.py
@@ -52,7 +52,7 @@ class Wind:
                 raise ValueError("ERROR in flat mode!: wind_exp_coeff or wind_reference_measurment_height badly defined!")
         except ValueError as err:
             print(err)
-            sys.exit()
+            sys.exit(1)
             
     def __get_profile(self):
         if self.conditions.wind_profile == 'exponential':
@@ -106,7 +106,7 @@ class Sail:
                 check_input_arr_shapes(main_stuff[1:], self.rig.sails_def)
         except ValueError as e:
             print(e)
-            sys.exit()
+            sys.exit(1)
 
     def __get_sail_set(self):
         
diff --git a/pySailingVLM/solver/forces.py b/pySailingVLM/solver/forces.py
index 38ea759..a594921 100644
--- a/pySailingVLM/solver/forces.py
+++ b/pySailingVLM/solver/forces.py
@@ -74,7 +74,7 @@ def calc_force_wrapper(V_app_infw: np.ndarray, gamma_magnitude: np.ndarray, rho:
             raise ValueError(f'Force name is not allowed. You can use one of these: {force_name_allowed}')
     except ValueError as e:
         print(e)
-        sys.exit()
+        sys.exit(1)
     
     # Katz and Plotkin, p. 346 Chapter 12 / Three-Dimensional Numerical Solution
     # f. Secondary Computations: Pressures, Loads, Velocities, Etc
-- 
2.43.0


From 6996cb530f17858838d8964d8dbdef3eae42f29f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:51:51 +0000
Subject: [PATCH 7/9] fix: check the boundary condition under python -O too

The check raises by itself; written inside an assert statement it was not run
at all with assertions disabled, and a wrong solution was returned.
---
 pySailingVLM/runner/aircraft.py | 2 +-
 pySailingVLM/solver/vlm.py      | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/pySailingVLM/runner/aircraft.py b/pySailingVLM/runner/aircraft.py
index 1de797e..ac9b2dc 100644
--- a/pySailingVLM/runner/aircraft.py
+++ b/pySailingVLM/runner/aircraft.py
@@ -62,7 +62,7 @@ class Aircraft:
         self.__gamma_magnitude = solve_eq(coefs, self.__RHS)
         
         _,  V_app_fs_at_ctrl_p = calculate_app_fs(self.__V_app_infw,  v_ind_coeff,  self.__gamma_magnitude)
-        assert is_no_flux_BC_satisfied(V_app_fs_at_ctrl_p, panels, areas, normals)
+        is_no_flux_BC_satisfied(V_app_fs_at_ctrl_p, panels, areas, normals)
         self.__force, _, _ = calc_force_wrapper(self.__V_app_infw, self.__gamma_magnitude, self.rho, cp, rings, self.n_spanwise, normals, span_vectors, trailing_edge_info, leading_edge_info, 'force_xyz', self.gamma_orientation)
         self.__pressure = calc_pressure(self.__force, normals, areas)
 
diff --git a/pySailingVLM/solver/vlm.py b/pySailingVLM/solver/vlm.py
index 8402cdb..bbe62a2 100644
--- a/pySailingVLM/solver/vlm.py
+++ b/pySailingVLM/solver/vlm.py
@@ -65,7 +65,7 @@ class Vlm:
         self.V_induced_at_ctrl,  self.V_app_fs_at_ctrl_p = velocity.calculate_app_fs(self.inlet_conditions.V_app_infs,  self.v_ind_coeff,  self.gamma_magnitude)
 
         # boundary condition calculated in collocation points (control points)
-        assert forces.is_no_flux_BC_satisfied(self.V_app_fs_at_ctrl_p, self.panels, self.areas, self.normals)
+        forces.is_no_flux_BC_satisfied(self.V_app_fs_at_ctrl_p, self.panels, self.areas, self.normals)
         self.force, self.V_app_fs_at_cp, self.V_induced_at_cp = forces.calc_force_wrapper(self.inlet_conditions.V_app_infs, self.gamma_magnitude, self.rho, self.cp, self.rings, self.n_spanwise, self.normals, self.span_vectors, self.trailing_edge_info, self.leading_edge_info, 'force_xyz', self.gamma_orientation)
         self.pressure = forces.calc_pressure(self.force, self.normals, self.areas)
 
-- 
2.43.0


From 2ad88f38244b5c6742323afb13a6d043ad3e32e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:52:39 +0000
Subject: [PATCH 8/9] fix: run, and keep a copy of, the variables.py of the
 directory asked for

sys.path.append and __import__('variables') take any variables module found
earlier on the path, or loaded by an earlier run in the same process, before
the one in the directory given with --dvars, so the command silently analysed
other input. And it copied the input to the results from case_dir, in the
shipped templates the current directory: with --dvars that failed, or kept a
file that was not the input. Read the file once; run that and keep that.
---
 pySailingVLM/runner/cli.py | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/pySailingVLM/runner/cli.py b/pySailingVLM/runner/cli.py
index b9e8d34..ee698d0 100644
--- a/pySailingVLM/runner/cli.py
+++ b/pySailingVLM/runner/cli.py
@@ -2,7 +2,7 @@ import numpy as np
 import sys
 import os
 import argparse
-import shutil
+import types
 
 from pySailingVLM.rotations.csys_transformations import CSYS_transformations
 from pySailingVLM.yacht_geometry.hull_geometry import HullGeometry
@@ -18,8 +18,13 @@ from pySailingVLM.solver.coefs import get_data_for_coeff_plot
 def load_variable_module(args):
     try:
         sys.path.append(args.dvars)
-        globals()['vr'] = __import__('variables')
-    except ImportError as e:
+        globals()['vr'] = types.ModuleType('variables')
+        vr.__file__ = os.path.join(args.dvars, 'variables.py')
+        with open(vr.__file__, 'rb') as f:
+            source = f.read()
+        exec(compile(source, vr.__file__, 'exec'), vr.__dict__)
+        vr.__source__ = source
+    except (ImportError, FileNotFoundError) as e:
         print(f'No variables.py file found in {args.dvars}\n{e}')
         sys.exit(1)
     
@@ -78,7 +83,8 @@ def main():
           f"\tNumber of panels (sail sail_set with mirror): {sail_set.panels.shape}")
 
     df_components, df_integrals, df_inlet_IC = save_results_to_file(myvlm, csys_transformations, inviscid_flow_results, sail_set, out.name, out.file_name)
-    shutil.copy(os.path.join(out.case_dir, out.case_name), os.path.join(out.name, out.case_name))
+    with open(os.path.join(out.name, out.case_name), 'wb') as f:
+        f.write(vr.__source__)
 
     print(df_integrals)
     #print(f"\nCPU time: {float(timeit.default_timer() - start):.2f} [s]")
-- 
2.43.0


From 00fc85b2d97ba1fae308f831ebdd31b713cf2f1f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:52:39 +0000
Subject: [PATCH 9/9] fix: do not label the main sail 'jib' in the section
 plots of a run without a jib

---
 pySailingVLM/runner/cli.py            | 5 +++--
 pySailingVLM/solver/panels_plotter.py | 4 ++--
 2 files changed, 5 insertions(+), 4 deletions(-)

diff --git a/pySailingVLM/runner/cli.py b/pySailingVLM/runner/cli.py
index ee698d0..c9fe250 100644
--- a/pySailingVLM/runner/cli.py
+++ b/pySailingVLM/runner/cli.py
@@ -95,6 +95,7 @@ def main():
     plot_cp(sail_set.zero_mesh, myvlm.p_coeffs, out.name)
     
     mean_cp, cl_data, cd_data = get_data_for_coeff_plot(myvlm, solver)
-    plot_section_coeff(cl_data, mean_cp,  out.name,  'lift', ['blue', 'green'])
-    plot_section_coeff(cd_data, mean_cp, out.name,  'drag',  ['teal', 'purple'])
+    labels = ['main'] if rig.sails_def == 'main' else ['jib', 'main']
+    plot_section_coeff(cl_data, mean_cp,  out.name,  'lift', ['blue', 'green'], labels)
+    plot_section_coeff(cd_data, mean_cp, out.name,  'drag',  ['teal', 'purple'], labels)
     
\ No newline at end of file
diff --git a/pySailingVLM/solver/panels_plotter.py b/pySailingVLM/solver/panels_plotter.py
index ee058b8..1af5ddb 100644
--- a/pySailingVLM/solver/panels_plotter.py
+++ b/pySailingVLM/solver/panels_plotter.py
@@ -369,7 +369,7 @@ def plot_cp(mesh : np.ndarray, p_coeffs : np.ndarray, path_to_save : str):
     except NameError:
         hv.save(hvpolys, path_to_save + '/cp_plot.html', backend='bokeh')
         
-def plot_section_coeff(x_data : list, y_data: list, file_name: str, coeff_name: str, colors : list):
+def plot_section_coeff(x_data : list, y_data: list, file_name: str, coeff_name: str, colors : list, labels : list = ('jib', 'main')):
     
     allowed_names = ('lift', 'drag')
     try:
@@ -384,7 +384,7 @@ def plot_section_coeff(x_data : list, y_data: list, file_name: str, coeff_name:
     ax1 = fig.add_subplot(111)
     
     l = len(y_data)
-    lbs = ['jib', 'main']
+    lbs = labels
     markers = ["o", "^"]
     
     c_name = 'cl'
-- 
2.43.0

