From 3cebdfb9c23caec974ff1fe0ae54c9bda9bb11e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:54:12 +0000
Subject: [PATCH 01/26] fix: keep the sequence admittance matrices of the
 three-phase power flow

With pandapower 2.9 runpp_3ph only leaves Ybus in the internal ppc when recycling, so
every three-phase simulation failed in make_y_bus.
---
 src/simulation/network_3ph.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/simulation/network_3ph.py b/src/simulation/network_3ph.py
index f6abec3..4813ae3 100644
--- a/src/simulation/network_3ph.py
+++ b/src/simulation/network_3ph.py
@@ -104,7 +104,9 @@ class NetData3P(Net):
         :return: Admittance matrix as numpy array
         """
         run_net = self.deepcopy()
-        pp.runpp_3ph(run_net, numba=False)
+        # The sequence admittance matrices are only kept when recycling is enabled. Always rebuild them from the network.
+        run_net['_ppc0'], run_net['_ppc1'], run_net['_ppc2'] = None, None, None
+        pp.runpp_3ph(run_net, numba=False, recycle={"Ybus": True, "bus_pq": False, "gen": False, "trafo": False})
 
         if type(run_net['_ppc0']['internal']['Ybus']) is not np.ndarray:
             y_bus0 = run_net['_ppc0']['internal']['Ybus'].todense()
-- 
2.43.0


From d402b6c340159dd15d2c6d6358d261cfb610108f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:54:12 +0000
Subject: [PATCH 02/26] fix: weight the currents with their own covariance in
 the EIV regression

The weight of z was replaced by the weight of x.
---
 src/models/error_in_variable.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/models/error_in_variable.py b/src/models/error_in_variable.py
index 345a477..5238fc4 100644
--- a/src/models/error_in_variable.py
+++ b/src/models/error_in_variable.py
@@ -207,7 +207,7 @@ class BayesianEIVRegression(GridIdentificationModel, MisfitWeightedModel):
         if x_weight is not None:
             x_weight = sp.csr_matrix(x_weight, dtype=cp.float32)
         if z_weight is not None:
-            z_weight = sp.csr_matrix(x_weight, dtype=cp.float32)
+            z_weight = sp.csr_matrix(z_weight, dtype=cp.float32)
 
         y_mat = y_init
         M, mu, penalty = self.prior.log_distribution(y.get() if conf.GPU_AVAILABLE else y)
-- 
2.43.0


From cb244d19bd0ffea8f7127c34e34c528b3da62c0c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:54:25 +0000
Subject: [PATCH 03/26] fix: start every fit of the iterative estimators with
 an empty history

Fitting an estimator again compared the new targets with the ones of the previous fit.
---
 src/models/error_in_variable.py | 1 +
 src/models/regression.py        | 1 +
 2 files changed, 2 insertions(+)

diff --git a/src/models/error_in_variable.py b/src/models/error_in_variable.py
index 5238fc4..c7ea0a0 100644
--- a/src/models/error_in_variable.py
+++ b/src/models/error_in_variable.py
@@ -211,6 +211,7 @@ class BayesianEIVRegression(GridIdentificationModel, MisfitWeightedModel):
 
         y_mat = y_init
         M, mu, penalty = self.prior.log_distribution(y.get() if conf.GPU_AVAILABLE else y)
+        self._iterations = []
 
         # start iterating
         for it in (tqdm(range(self._max_iterations)) if self._verbose else range(self._max_iterations)):
diff --git a/src/models/regression.py b/src/models/regression.py
index 9b576fa..b1062af 100644
--- a/src/models/regression.py
+++ b/src/models/regression.py
@@ -121,6 +121,7 @@ class BayesianRegression(GridIdentificationModel):
 
         y_mat = y_init
         M, mu, penalty = self.prior.log_distribution(y.get() if conf.GPU_AVAILABLE else y)
+        self._iterations = []
 
         # start iterating
         for it in (tqdm(range(self._max_iterations)) if self._verbose else range(self._max_iterations)):
-- 
2.43.0


From e16b50fc55b7da0337ea50a0a5e1e72685a056d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:54:25 +0000
Subject: [PATCH 04/26] fix: append the new iterations to the loaded history
 when continuing an identification

---
 identify_network.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/identify_network.py b/identify_network.py
index 9055694..a1fcb8a 100644
--- a/identify_network.py
+++ b/identify_network.py
@@ -99,7 +99,7 @@ def identify(network, max_iterations, standard, bayesian_eiv, continue_id, phase
                                                                         not unsynchronized, verbose)
 
     if continue_id:
-        sparse_tls_cov_iterations = sparse_tls_cov_old_iterations.extend(sparse_tls_cov_iterations)
+        sparse_tls_cov_iterations = list(sparse_tls_cov_old_iterations) + list(sparse_tls_cov_iterations)
 
         pprint("Saving updated result...")
         sim_STLS = {'y': y_sparse_tls_cov, 'i': sparse_tls_cov_iterations}
-- 
2.43.0


From f97bd3f2d157aa380e2c019cc3e9c062644f8f10 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:54:25 +0000
Subject: [PATCH 05/26] fix: use the defined variable to select the uncertainty
 analysis

---
 identify_network.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/identify_network.py b/identify_network.py
index a1fcb8a..ee833cd 100644
--- a/identify_network.py
+++ b/identify_network.py
@@ -107,7 +107,7 @@ def identify(network, max_iterations, standard, bayesian_eiv, continue_id, phase
         pprint("Done!")
 
     # Error covariance analysis
-    if uncertainty and not three_phases and not unsynchronized:
+    if uncertainty and not three_phased and not unsynchronized:
         fim_wtls, cov_wtls, expected_max_rrms = run_fcns.eiv_fim(name, voltage, current,
                                                                  voltage_magnitude_sd + 1j * voltage_phase_sd,
                                                                  current_magnitude_sd + 1j * current_phase_sd,
-- 
2.43.0


From 2568751caad47479c1fc89e48648fcea611a826b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:54:41 +0000
Subject: [PATCH 06/26] fix: three-phase Gaussian loads

The generator was not imported, its outputs were not in the order the simulation expects and the
symmetric loads had the shape of the asymmetric ones.
---
 src/simulation/run3ph.py | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/src/simulation/run3ph.py b/src/simulation/run3ph.py
index e362fda..7050bd7 100644
--- a/src/simulation/run3ph.py
+++ b/src/simulation/run3ph.py
@@ -2,7 +2,7 @@ import numpy as np
 
 from conf import conf, simulation
 from src.simulation.simulation_3ph import SimulatedNet3P
-from src.simulation.load_profile import load_profile_from_numpy
+from src.simulation.load_profile import load_profile_from_numpy, generate_gaussian_load
 from src.simulation.noise import filter_and_resample_measurement, add_polar_noise_to_measurement
 from src.simulation import net_templates_3ph
 from src.simulation.net_templates_3ph import ieee123_types
@@ -99,7 +99,8 @@ def generate_loads(net, load_params=None, verbose=True):
         else:
             _, _, load_std, days, constant_load_nodes = load_params
             pprint("Generating random loads...")
-            load_asym = generate_gaussian_load(load_std, len(times),
+            pa, qa, pb, qb, pc, qc = \
+                generate_gaussian_load(load_std, len(times),
                                                load_p_reference=np.array(
                                                    [net.asymmetric_load.p_a_mw[net.asymmetric_load.p_a_mw.index[i]]
                                                     for i in range(len(net.asymmetric_load.p_a_mw))]),
@@ -119,7 +120,13 @@ def generate_loads(net, load_params=None, verbose=True):
                                                    [net.asymmetric_load.q_c_mvar[net.asymmetric_load.q_c_mvar.index[i]]
                                                     for i in range(len(net.asymmetric_load.q_c_mvar))]))
 
-            load_p, load_q = np.zeros_like(load_asym[0]), np.zeros_like(load_asym[0])
+            load_asym = (pa, pb, pc, qa, qb, qc)
+
+            load_p, load_q = generate_gaussian_load(load_std, len(times),
+                                                    load_p_reference=np.array([net.load.p_mw[net.load.p_mw.index[i]]
+                                                                               for i in range(len(net.load.p_mw))]),
+                                                    load_q_reference=np.array([net.load.q_mvar[net.load.q_mvar.index[i]]
+                                                                               for i in range(len(net.load.q_mvar))]))
             pprint("Done!")
 
         a = simulation.load_constantness
-- 
2.43.0


From 22c480cf9c10ad63f37f5d88505bdcdf75b39515 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:54:41 +0000
Subject: [PATCH 07/26] fix: report the filter length used for the noise in
 three-phase equivalent noise mode

As for single-phase networks, and as when the filtered measurements are loaded from the disk.
---
 src/simulation/run3ph.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/simulation/run3ph.py b/src/simulation/run3ph.py
index 7050bd7..9b291f8 100644
--- a/src/simulation/run3ph.py
+++ b/src/simulation/run3ph.py
@@ -263,6 +263,7 @@ def add_noise_and_filter(net, voltage, current, times, fmeas, steps, noise_param
 
     ts = np.linspace(0, np.max(times), round(np.max(times) * fmeas))
     fparam = int(np.floor(ts.size / steps))
+    fparam_ret = fparam
 
     if noise_params is not None:
         # Noise Generation
@@ -323,7 +324,7 @@ def add_noise_and_filter(net, voltage, current, times, fmeas, steps, noise_param
         noisy_voltage, noisy_current, voltage, current = sim_IV["v"], sim_IV["i"], sim_IV["w"], sim_IV["j"]
         pprint("Done!")
 
-    return noisy_voltage, noisy_current, voltage, current, pmu_ratings, fparam
+    return noisy_voltage, noisy_current, voltage, current, pmu_ratings, fparam_ret
 
 
 def reduce_network(net, voltage, current, hidden_nodes, laplacian=False, reduce_single=True, verbose=True):
-- 
2.43.0


From e354738cac05f229aea61da9532a26d10dc57fe1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:55:00 +0000
Subject: [PATCH 08/26] fix: give every simulation run an output directory of
 its own

Runs starting within the same second, in parallel or after the clock was set back, wrote into the
same directory and read each other's results.
---
 src/simulation/output_dir.py     | 20 ++++++++++++++++++++
 src/simulation/simulation.py     |  4 ++--
 src/simulation/simulation_3ph.py |  4 ++--
 3 files changed, 24 insertions(+), 4 deletions(-)
 create mode 100644 src/simulation/output_dir.py

diff --git a/src/simulation/output_dir.py b/src/simulation/output_dir.py
new file mode 100644
index 0000000..3a11249
--- /dev/null
+++ b/src/simulation/output_dir.py
@@ -0,0 +1,20 @@
+from datetime import datetime
+from pathlib import Path
+
+
+def make_output_dir(output_path: Path) -> Path:
+    """
+    Creates a new directory for the output of one simulation run, named after the current time.
+    The directory is never shared: a suffix is added if another run already uses the same name.
+
+    :param output_path: path of the parent directory
+    :return: path of the created directory
+    """
+    name, n = f"sim_{datetime.now().strftime('%Y%m%d_%H%M%S')}", 0
+    while True:
+        path = output_path / (name if n == 0 else f"{name}_{n}")
+        try:
+            path.mkdir(parents=True)
+            return path
+        except FileExistsError:
+            n = n + 1
diff --git a/src/simulation/simulation.py b/src/simulation/simulation.py
index 07cebfd..c277ac3 100644
--- a/src/simulation/simulation.py
+++ b/src/simulation/simulation.py
@@ -1,5 +1,4 @@
 from dataclasses import dataclass
-from datetime import datetime
 from pathlib import Path
 from typing import Tuple
 
@@ -13,6 +12,7 @@ from tqdm import tqdm
 from conf.conf import SIM_DIR
 
 from src.simulation.network import NetData
+from src.simulation.output_dir import make_output_dir
 
 
 """
@@ -73,7 +73,7 @@ class SimulatedNet(NetData):
                      variable='q_mvar', data_source=load_df, profile_name=self.load.index)
 
         # Create file path and writer
-        timed_out_path = output_path / f"sim_{datetime.now().strftime('%Y%m%d_%H%M%S')}"
+        timed_out_path = make_output_dir(output_path)
         ow = OutputWriter(controlled_net, output_path=timed_out_path, output_file_type=".csv")
 
         # Define variables to save
diff --git a/src/simulation/simulation_3ph.py b/src/simulation/simulation_3ph.py
index 3b4cba4..bc8eafa 100644
--- a/src/simulation/simulation_3ph.py
+++ b/src/simulation/simulation_3ph.py
@@ -1,5 +1,4 @@
 from dataclasses import dataclass
-from datetime import datetime
 from pathlib import Path
 from typing import Tuple
 
@@ -13,6 +12,7 @@ from tqdm import tqdm
 from conf.conf import SIM_DIR
 
 from src.simulation.network_3ph import NetData3P
+from src.simulation.output_dir import make_output_dir
 
 
 """
@@ -86,7 +86,7 @@ class SimulatedNet3P(NetData3P):
                              variable=variables[i], data_source=load_df, profile_name=self.asymmetric_load.index)
 
         # Create file path and writer
-        timed_out_path = output_path / f"sim_{datetime.now().strftime('%Y%m%d_%H%M%S')}"
+        timed_out_path = make_output_dir(output_path)
         ow = OutputWriter(controlled_net, output_path=timed_out_path, output_file_type=".csv", log_variables=[])
 
         # Define variables to save
-- 
2.43.0


From f6ad058a40c78c0fb84e38c8e118893d6a645317 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:55:00 +0000
Subject: [PATCH 09/26] fix: do not add the PCC to the configured hidden nodes

The list of conf.simulation grew with every simulation of the same process.
---
 simulate_network.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/simulate_network.py b/simulate_network.py
index 75e4cbe..fca4046 100644
--- a/simulate_network.py
+++ b/simulate_network.py
@@ -41,7 +41,7 @@ def simulate(network, active_profiles, reactive_profiles, gaussian_loads, loads,
     net, bus_data, _ = run3ph.make_net(network) if three_phased else run.make_net(network)
 
     # How to deal with hidden nodes
-    hidden_nodes = conf.simulation.hidden_nodes
+    hidden_nodes = list(conf.simulation.hidden_nodes)
     constant_load_nodes = hidden_nodes if conf.simulation.constant_load_hidden_nodes else None
     if not laplacian and not three_phased:
         for b in bus_data:
-- 
2.43.0


From 18ae9c8fbef9c092201d0602ad0be047c50c19ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:55:00 +0000
Subject: [PATCH 10/26] fix: fail when no valid load information is given

The simulation stopped with the exit status of a success.
---
 simulate_network.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/simulate_network.py b/simulate_network.py
index fca4046..0a1591d 100644
--- a/simulate_network.py
+++ b/simulate_network.py
@@ -57,7 +57,7 @@ def simulate(network, active_profiles, reactive_profiles, gaussian_loads, loads,
                        conf.simulation.days, constant_load_nodes)
     elif redo_loads:
         print("Please provide valid load information")
-        exit(0)
+        exit(1)
 
     if three_phased:
         load_p, load_q, load_asym, times = run3ph.generate_loads(net, load_params, verbose=verbose)
-- 
2.43.0


From 865c3d3c64348d44e7f1bf710f903f684d237a31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:55:25 +0000
Subject: [PATCH 11/26] fix: load the complete three-phase Bayesian result when
 it is not recomputed

The complete matrix was loaded once per sequence and could not be assembled.
---
 src/identification/run3ph.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/identification/run3ph.py b/src/identification/run3ph.py
index cb0e983..d6c5467 100644
--- a/src/identification/run3ph.py
+++ b/src/identification/run3ph.py
@@ -243,6 +243,13 @@ def bayesian_eiv(name, voltage, current, phases_ids, voltage_sd_polar, current_s
     else:
         pprint = lambda a: None
 
+    if max_iterations <= 0 or voltage is None or current is None:
+        # The saved result already contains all the phases/sequences
+        pprint("Loading STLS result...")
+        sim_STLS = np.load(DATA_DIR / ("simulations_output/bayesian_results_" + name + ".npz"), allow_pickle=True)
+        pprint("Done!")
+        return sim_STLS["y"], sim_STLS["i"]
+
     y_fin = np.zeros_like(y_init)
 
     if np.any(phases_ids == 0):
-- 
2.43.0


From b7bcf832f6a0aa64b82e8f6aebf9f33aa49313dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:55:25 +0000
Subject: [PATCH 12/26] fix: order the three-phase PMU ratings like the
 measurements

The measurements are ordered bus by bus, the ratings were phase by phase, and the rating of the
external grid was written at the index of a load instead of the index of its bus.
---
 src/simulation/run3ph.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/simulation/run3ph.py b/src/simulation/run3ph.py
index 9b291f8..1f1b720 100644
--- a/src/simulation/run3ph.py
+++ b/src/simulation/run3ph.py
@@ -253,13 +253,13 @@ def add_noise_and_filter(net, voltage, current, times, fmeas, steps, noise_param
     pmu_ratings = np.tile(pmu_safety_factor, (1, len(net.bus.index))) * total_loads
 
     # External grid connections provide power for all loads
-    for i in range(len(net.load.bus)):
-        if net.load.bus.iloc[i] in net.ext_grid.bus.values:
+    for i in range(len(net.bus.index)):
+        if net.bus.index[i] in net.ext_grid.bus.values:
             pmu_ratings[0, i] = np.sum(pmu_ratings[0, :])
             pmu_ratings[1, i] = np.sum(pmu_ratings[1, :])
             pmu_ratings[2, i] = np.sum(pmu_ratings[2, :])
 
-    pmu_ratings = pmu_ratings.reshape((3 * len(net.bus.index),))
+    pmu_ratings = pmu_ratings.reshape((3 * len(net.bus.index),), order='F')
 
     ts = np.linspace(0, np.max(times), round(np.max(times) * fmeas))
     fparam = int(np.floor(ts.size / steps))
-- 
2.43.0


From 251eaa7bccc01b5178e54292be2a5f3901b2c7f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:55:25 +0000
Subject: [PATCH 13/26] fix: use the configured safety factor when the noisy
 measurements are loaded

---
 src/simulation/run.py    | 2 +-
 src/simulation/run3ph.py | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/simulation/run.py b/src/simulation/run.py
index e0f3961..307a116 100644
--- a/src/simulation/run.py
+++ b/src/simulation/run.py
@@ -170,7 +170,7 @@ def add_noise_and_filter(net, voltage, current, times, fmeas, steps, noise_param
         voltage_magnitude_sd, current_magnitude_sd, voltage_phase_sd, current_phase_sd,\
             use_equivalent_noise, pmu_safety_factor = noise_params
     else:
-        pmu_safety_factor = 4
+        pmu_safety_factor = simulation.safety_factor
 
     pmu_ratings = pmu_safety_factor * np.array([np.sum(i*i) for i in net.load[["p_mw","q_mvar"]].values])
     # External grid connections provide power for all loads
diff --git a/src/simulation/run3ph.py b/src/simulation/run3ph.py
index 1f1b720..47de1ef 100644
--- a/src/simulation/run3ph.py
+++ b/src/simulation/run3ph.py
@@ -233,7 +233,7 @@ def add_noise_and_filter(net, voltage, current, times, fmeas, steps, noise_param
             use_equivalent_noise, pmu_safety_factor = noise_params
         pmu_safety_factor = pmu_safety_factor.reshape((len(pmu_safety_factor), 1))
     else:
-        pmu_safety_factor = np.array([[4], [4], [4]])
+        pmu_safety_factor = simulation.safety_factor * np.ones((3, 1))
 
     total_loads = np.zeros((3, len(net.bus.index)))
     for i in range(len(net.bus.index)):
-- 
2.43.0


From 993ac2adf2a937766342d42d41e7d7c85a67b073 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:02:13 +0000
Subject: [PATCH 14/26] fix: reduce the hidden and passive nodes next to the
 PCC

Their indices, shifted by the removal of the PCC, were compared with its original index.
---
 src/simulation/run.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/simulation/run.py b/src/simulation/run.py
index 307a116..62b7580 100644
--- a/src/simulation/run.py
+++ b/src/simulation/run.py
@@ -287,7 +287,7 @@ def reduce_network(net, voltage, current, hidden_nodes, laplacian=False, verbose
     # Kron reduction of passive and hidden nodes
     shunts = np.zeros(y_bus.shape[0], dtype=y_bus.dtype)
     shunts[hidden_idx] = np.divide(np.mean(current[:, hidden_idx], axis=0), np.mean(voltage[:, hidden_idx], axis=0))
-    y_bus = net.kron_reduction(list(set(hidden_idx).union(passive_idx).difference(pcc_idx)),
+    y_bus = net.kron_reduction(list(set(hidden_idx).union(passive_idx)),
                                y_bus + np.diag(shunts))
     pprint("Done!")
     pprint("reduced nodes: " + str(np.array(idx_todel) + 1))
-- 
2.43.0


From 72d0d925571d63815ba9c6869efe6a7ae074ae60 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:02:13 +0000
Subject: [PATCH 15/26] fix: do not append the loaded history to itself when
 only redoing the standard methods

---
 identify_network.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/identify_network.py b/identify_network.py
index ee833cd..01fc2c1 100644
--- a/identify_network.py
+++ b/identify_network.py
@@ -98,7 +98,7 @@ def identify(network, max_iterations, standard, bayesian_eiv, continue_id, phase
                                                                         weighted, max_iterations if redo_STLS else 0,
                                                                         not unsynchronized, verbose)
 
-    if continue_id:
+    if continue_id and redo_STLS:
         sparse_tls_cov_iterations = list(sparse_tls_cov_old_iterations) + list(sparse_tls_cov_iterations)
 
         pprint("Saving updated result...")
-- 
2.43.0


From 871b7f6429216739091c8d43ea0a8dc745c60c1e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:42:53 +0000
Subject: [PATCH 16/26] fix: use the measurements of the hidden nodes
 themselves for their equivalent shunts

---
 src/simulation/run.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/simulation/run.py b/src/simulation/run.py
index 62b7580..69cc79b 100644
--- a/src/simulation/run.py
+++ b/src/simulation/run.py
@@ -275,6 +275,9 @@ def reduce_network(net, voltage, current, hidden_nodes, laplacian=False, verbose
     idx_todel = list(set(hidden_idx).union(passive_idx))
     hidden_idx = [idx for idx in hidden_idx if idx not in pcc_idx]
 
+    # Equivalent shunts of the hidden loads, before any index shift
+    hidden_shunts = np.divide(np.mean(current[:, hidden_idx], axis=0), np.mean(voltage[:, hidden_idx], axis=0))
+
     # subKron reducing the ext_grid
     if not laplacian:
         y_bus = np.delete(np.delete(y_bus, pcc_idx, axis=1), pcc_idx, axis=0)
@@ -286,7 +289,7 @@ def reduce_network(net, voltage, current, hidden_nodes, laplacian=False, verbose
 
     # Kron reduction of passive and hidden nodes
     shunts = np.zeros(y_bus.shape[0], dtype=y_bus.dtype)
-    shunts[hidden_idx] = np.divide(np.mean(current[:, hidden_idx], axis=0), np.mean(voltage[:, hidden_idx], axis=0))
+    shunts[hidden_idx] = hidden_shunts
     y_bus = net.kron_reduction(list(set(hidden_idx).union(passive_idx)),
                                y_bus + np.diag(shunts))
     pprint("Done!")
-- 
2.43.0


From 1b85084704a5dff80804563e938e80c52e224caf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:44:27 +0000
Subject: [PATCH 17/26] fix: reduce the right three-phase elements when the
 external grid is not the last node

---
 src/simulation/run3ph.py | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/src/simulation/run3ph.py b/src/simulation/run3ph.py
index 47de1ef..356bd7d 100644
--- a/src/simulation/run3ph.py
+++ b/src/simulation/run3ph.py
@@ -361,21 +361,28 @@ def reduce_network(net, voltage, current, hidden_nodes, laplacian=False, reduce_
         idx_todel.extend([i, i + 1, i + 2])
         y_bus = np.delete(np.delete(y_bus, [i, i + 1, i + 2], axis=1), [i, i + 1, i + 2], axis=0)
 
+    pcc_idx = list(idx_todel)
+
     passive_nodes = net.give_passive_nodes()
     if not reduce_single:
         # Reduce only nodes passive on all three phases
         passive_nodes = np.intersect1d(passive_nodes[0], np.intersect1d(passive_nodes[1], passive_nodes[2]))
         passive_nodes = (passive_nodes, passive_nodes, passive_nodes)
 
+    # y_bus has no ext_grid anymore, so the elements after it are shifted
+    y_idx = lambda i: i - int(np.sum(np.array(pcc_idx) < i))
+
     idx_tored = []
     shunts = np.zeros(y_bus.shape[0], dtype=y_bus.dtype)
     for ph in range(3):
         for idx in passive_nodes[ph]:
-            idx_tored.append(3 * net.bus.index.tolist().index(idx) + ph)
+            idx_todel.append(3 * net.bus.index.tolist().index(idx) + ph)
+            idx_tored.append(y_idx(idx_todel[-1]))
         for idx in hidden_nodes:
             i = 3 * net.bus.index.tolist().index(idx) + ph
-            idx_tored.append(i)
-            shunts[i] = np.divide(np.mean(current[:, i], axis=0), np.mean(voltage[:, i], axis=0))
+            idx_todel.append(i)
+            idx_tored.append(y_idx(i))
+            shunts[y_idx(i)] = np.divide(np.mean(current[:, i], axis=0), np.mean(voltage[:, i], axis=0))
 
     idx_tored = np.array(idx_tored)
     y_bus = admittance_phase_to_sequence(y_bus + np.diag(shunts))
@@ -383,7 +390,6 @@ def reduce_network(net, voltage, current, hidden_nodes, laplacian=False, reduce_
             + np.kron(net.kron_reduction((idx_tored[idx_tored % 3 == 1] - 1)/3, y_bus[1::3,1::3]), np.diag([0, 1, 0])) \
             + np.kron(net.kron_reduction((idx_tored[idx_tored % 3 == 2] - 2)/3, y_bus[2::3,2::3]), np.diag([0, 0, 1]))
     y_bus = admittance_sequence_to_phase(y_bus)
-    idx_todel.extend(idx_tored.tolist())
 
     pprint("Done!")
     pprint("reduced elements: " + str(np.array(idx_todel) + 1))
-- 
2.43.0


From bf138b59a744035f7651b66e8d8775b57947463a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:38:26 +0000
Subject: [PATCH 18/26] fix: accept a scalar noise level for the measurements
 of a single node

---
 src/models/noise_transformation.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/models/noise_transformation.py b/src/models/noise_transformation.py
index e50c5bb..9ae8980 100644
--- a/src/models/noise_transformation.py
+++ b/src/models/noise_transformation.py
@@ -29,7 +29,7 @@ def exact_noise_covariance(
     :return: covariance matrix (or inverse) as a sparse csc_matrix
     """
     # If we have a vector standard derivation
-    if type(sd_magnitude) is not float and sd_magnitude.size == measurement.shape[1]:
+    if np.ndim(sd_magnitude) > 0 and sd_magnitude.size == measurement.shape[1]:
         real_var = np.zeros(measurement.shape)
         imag_var = np.zeros(measurement.shape)
         cov = np.zeros(measurement.shape)
@@ -58,7 +58,7 @@ def exact_noise_covariance(
 
     # If we have the same standard derivation everywhere
     else:
-        if type(sd_magnitude) is not float and sd_magnitude.size > 1:
+        if np.ndim(sd_magnitude) > 0 and sd_magnitude.size > 1:
             sd_magnitude = sd_magnitude[0]
 
         # Vectorize data
@@ -104,7 +104,7 @@ def naive_noise_covariance(
     :return: covariance matrix (or inverse) as a sparse csc_matrix
     """
     # If we have a vector standard derivation
-    if type(sd_magnitude) is not float and sd_magnitude.size == measurement.shape[1]:
+    if np.ndim(sd_magnitude) > 0 and sd_magnitude.size == measurement.shape[1]:
         real_variance = np.zeros(measurement.shape)
         imag_variance = np.zeros(measurement.shape)
         real_imag_covariance = np.zeros(measurement.shape)
@@ -129,7 +129,7 @@ def naive_noise_covariance(
 
     # If we have the same standard derivation everywhere
     else:
-        if type(sd_magnitude) is not float and sd_magnitude.size > 1:
+        if np.ndim(sd_magnitude) > 0 and sd_magnitude.size > 1:
             sd_magnitude = sd_magnitude[0]
 
         # Vectorize data
@@ -248,7 +248,7 @@ def average_true_noise_covariance(
     :return: covariance matrix (or inverse) as a sparse csc_matrix
     """
     # If we have a vector standard derivation
-    if type(sd_magnitude) is not float and sd_magnitude.size == measurement.shape[1]:
+    if np.ndim(sd_magnitude) > 0 and sd_magnitude.size == measurement.shape[1]:
         real_variance = np.zeros(measurement.shape)
         imag_variance = np.zeros(measurement.shape)
         real_imag_covariance = np.zeros(measurement.shape)
@@ -267,7 +267,7 @@ def average_true_noise_covariance(
 
     # If we have the same standard derivation everywhere
     else:
-        if type(sd_magnitude) is not float and sd_magnitude.size > 1:
+        if np.ndim(sd_magnitude) > 0 and sd_magnitude.size > 1:
             sd_magnitude = sd_magnitude[0]
 
         # Vectorize data
-- 
2.43.0


From 5f2d2ad523cb39d5a2e69c0954e47041e3bb58ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:52:39 +0000
Subject: [PATCH 19/26] fix: show the voltages of the identified phase

---
 plot_results.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/plot_results.py b/plot_results.py
index 2a18995..957c683 100644
--- a/plot_results.py
+++ b/plot_results.py
@@ -42,8 +42,9 @@ def plot_results(network, max_plot_y, max_plot_err, color_scale, sequence, verbo
 
     correct_component = lambda x: x
     if phases != "012" and phases != "123":
-        idx_todel = (phases_ids != 1).nonzero()
-        voltage = np.delete(voltage, idx_todel, axis=1)
+        if np.any(phases_ids != 1):
+            idx_todel = (phases_ids != int(phases)).nonzero()
+            voltage = np.delete(voltage, idx_todel, axis=1)
     elif phases == "012" and not sequence:
         correct_component = admittance_sequence_to_phase
         voltage = measurement_sequence_to_phase(voltage)
-- 
2.43.0


From c12d50446922b6bc89856eed94b8f7b5b3d7cde9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:08:12 +0000
Subject: [PATCH 20/26] fix: keep the total least squares estimate of a single
 node a matrix

---
 src/models/error_in_variable.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/models/error_in_variable.py b/src/models/error_in_variable.py
index c7ea0a0..961a56e 100644
--- a/src/models/error_in_variable.py
+++ b/src/models/error_in_variable.py
@@ -47,7 +47,7 @@ class TotalLeastSquares(GridIdentificationModel, UnweightedModel):
         v_xy = v[:n, n:]
         v_yy = v[n:, n:]
         beta = - v_xy @ np.linalg.inv(v_yy)
-        beta_reshaped = beta.copy() if beta.shape[1] > 1 else beta.flatten()
+        beta_reshaped = beta.copy() if len(y.shape) > 1 else beta.flatten()
         self._admittance_matrix = beta_reshaped
 
     def fisher_info(self, x: np.array, z: np.array, x_cov: np.array, z_cov: np.array, y_mat: np.array):
-- 
2.43.0


From 85f69c1908b6204f3a03c1993e11dae50ae37361 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:29:47 +0000
Subject: [PATCH 21/26] fix: weigh every sample of the Fisher information with
 its own noise

---
 src/models/error_in_variable.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/models/error_in_variable.py b/src/models/error_in_variable.py
index 961a56e..4280e94 100644
--- a/src/models/error_in_variable.py
+++ b/src/models/error_in_variable.py
@@ -106,7 +106,7 @@ class TotalLeastSquares(GridIdentificationModel, UnweightedModel):
 
         bigy = sp.kron(sp.eye(samples, dtype=cp.float64), y[:, None], format='csr')
         Ws = bigy.T @ sp.kron(perm @ x_cov @ perm.T, sp.eye(n, dtype=cp.float64)) @ bigy
-        Ws = (perm.T @ sp.kron(sp.eye(2*n, dtype=cp.float64), Ws) @ perm) + z_cov
+        Ws = (perm.T @ sp.kron(Ws, sp.eye(2*n, dtype=cp.float64)) @ perm) + z_cov
 
         #inverse of W
         w1 = Ws[:, n*samples:][n*samples:, :].diagonal()
-- 
2.43.0


From ee3747f2feac6d2e053e70e79a75615ab38689bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:10 +0000
Subject: [PATCH 22/26] fix: weigh the real part of the Fisher information with
 the noise of the real part

---
 src/models/error_in_variable.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/models/error_in_variable.py b/src/models/error_in_variable.py
index 4280e94..2194535 100644
--- a/src/models/error_in_variable.py
+++ b/src/models/error_in_variable.py
@@ -122,7 +122,7 @@ class TotalLeastSquares(GridIdentificationModel, UnweightedModel):
         del z_cov
         Ar = sp.kron(sp.eye(n, dtype=cp.float64), cp.real(x), format='csr')
         Ai = sp.kron(sp.eye(n, dtype=cp.float64), cp.imag(x), format='csr')
-        F = sp.bmat([[Ar.T @ w1i @ Ar, Ar.T @ w2i @ Ai], [Ai.T @ w2i @ Ar, Ai.T @ w3i @ Ai]], format='csr').toarray()
+        F = sp.bmat([[Ar.T @ w3i @ Ar, Ar.T @ w2i @ Ai], [Ai.T @ w2i @ Ar, Ai.T @ w1i @ Ai]], format='csr').toarray()
 
         return F.get() if conf.GPU_AVAILABLE else F, cp.linalg.inv(F).get() if conf.GPU_AVAILABLE else cp.linalg.inv(F)
 
-- 
2.43.0


From 70c28f6e4985cec0594b3a4115e3472f4304cfa3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:54:55 +0000
Subject: [PATCH 23/26] fix: do not store single sequences under the name of
 the complete result

---
 src/identification/run.py    | 22 ++++++++++++----------
 src/identification/run3ph.py |  4 ++--
 2 files changed, 14 insertions(+), 12 deletions(-)

diff --git a/src/identification/run.py b/src/identification/run.py
index 955a7cb..aa51d77 100644
--- a/src/identification/run.py
+++ b/src/identification/run.py
@@ -247,7 +247,7 @@ def standard_methods(name, voltage, current, phases_ids=None, laplacian=False, m
     """
     # Performing the ordinary least squares, total least squares, and lasso indentifications of the network.
 
-    :param name: name of the network (for saves)
+    :param name: name of the network (for saves), None not to save
     :param voltage: voltage measurements (complex)
     :param current: current measurements (complex)
     :param phases_ids: Do not use (None), only for overloading with 3 phases
@@ -329,10 +329,11 @@ def standard_methods(name, voltage, current, phases_ids=None, laplacian=False, m
         else:
             y_lasso = y_ols
 
-        pprint("Saving standard results...")
-        sim_ST = {'o': y_ols, 't': y_tls, 'l': y_lasso}
-        np.savez(DATA_DIR / ("simulations_output/standard_results_" + name + ".npz"), **sim_ST)
-        pprint("Done!")
+        if name is not None:
+            pprint("Saving standard results...")
+            sim_ST = {'o': y_ols, 't': y_tls, 'l': y_lasso}
+            np.savez(DATA_DIR / ("simulations_output/standard_results_" + name + ".npz"), **sim_ST)
+            pprint("Done!")
 
     else:
         pprint("Loading standard results...")
@@ -356,7 +357,7 @@ def bayesian_eiv(name, voltage, current, phases_ids, voltage_sd_polar, current_s
     #
     # Covariance matrices of currents and voltages are calculated using the average true noise method.
 
-    :param name: name of the network (for saves)
+    :param name: name of the network (for saves), None not to save
     :param voltage: voltage measurements (complex)
     :param current: current measurements (complex)
     :param phases_ids: Do not use (None), only for overloading with 3 phases
@@ -440,10 +441,11 @@ def bayesian_eiv(name, voltage, current, phases_ids, voltage_sd_polar, current_s
         sparse_tls_cov_iterations = sparse_tls_cov.iterations
         pprint("Done!")
 
-        pprint("Saving final result...")
-        sim_STLS = {'y': y_sparse_tls_cov, 'i': sparse_tls_cov_iterations}
-        np.savez(DATA_DIR / ("simulations_output/bayesian_results_" + name + ".npz"), **sim_STLS)
-        pprint("Done!")
+        if name is not None:
+            pprint("Saving final result...")
+            sim_STLS = {'y': y_sparse_tls_cov, 'i': sparse_tls_cov_iterations}
+            np.savez(DATA_DIR / ("simulations_output/bayesian_results_" + name + ".npz"), **sim_STLS)
+            pprint("Done!")
 
     else:
         pprint("Loading STLS result...")
diff --git a/src/identification/run3ph.py b/src/identification/run3ph.py
index d6c5467..ff9cdc6 100644
--- a/src/identification/run3ph.py
+++ b/src/identification/run3ph.py
@@ -188,7 +188,7 @@ def standard_methods(name, voltage, current, phases_ids=None, laplacian=False, m
                 pprint("Identifying phase/sequence " + str(i))
 
                 y_ols_i, y_tls_i, y_lasso_i = \
-                    run.standard_methods(name, voltage[:, phases_ids == i], current[:, phases_ids == i], None,
+                    run.standard_methods(None, voltage[:, phases_ids == i], current[:, phases_ids == i], None,
                                          laplacian, max_iterations, verbose)
 
                 y_ols[np.outer(phases_ids == i, phases_ids == i)] = y_ols_i.flatten()
@@ -258,7 +258,7 @@ def bayesian_eiv(name, voltage, current, phases_ids, voltage_sd_polar, current_s
             pprint("Identifying phase/sequence " + str(i))
 
             y_sparse_tls_cov, iterations[i] = \
-                run.bayesian_eiv(name, voltage[:, phases_ids == i], current[:, phases_ids == i], None,
+                run.bayesian_eiv(None, voltage[:, phases_ids == i], current[:, phases_ids == i], None,
                                  voltage_sd_polar, current_sd_polar, pmu_ratings[phases_ids == i],
                                  y_init[phases_ids == i, :][:, phases_ids == i], None if y_exact is None else
                                  y_exact[phases_ids == i, :][:, phases_ids == i], laplacian, weighted, max_iterations,
-- 
2.43.0


From ae8451bed1c2682d05b204fc069a59408b564507 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:54:55 +0000
Subject: [PATCH 24/26] fix: keep the stored iterations until a continued
 identification is complete

---
 identify_network.py          |  7 +++++--
 src/identification/run3ph.py | 11 ++++++-----
 2 files changed, 11 insertions(+), 7 deletions(-)

diff --git a/identify_network.py b/identify_network.py
index 01fc2c1..2bc63dd 100644
--- a/identify_network.py
+++ b/identify_network.py
@@ -91,14 +91,17 @@ def identify(network, max_iterations, standard, bayesian_eiv, continue_id, phase
 
     y_exact = y_bus if exact and not laplacian else None
 
-    y_sparse_tls_cov, sparse_tls_cov_iterations = run_fcns.bayesian_eiv(name, noisy_voltage, noisy_current, phases_ids,
+    # A continued identification is saved once, with all its iterations
+    extend = continue_id and redo_STLS and max_iterations > 0
+    y_sparse_tls_cov, sparse_tls_cov_iterations = run_fcns.bayesian_eiv(None if extend else name,
+                                                                        noisy_voltage, noisy_current, phases_ids,
                                                                         voltage_magnitude_sd + 1j*voltage_phase_sd,
                                                                         current_magnitude_sd + 1j*current_phase_sd,
                                                                         pmu_ratings, y_init, y_exact, laplacian,
                                                                         weighted, max_iterations if redo_STLS else 0,
                                                                         not unsynchronized, verbose)
 
-    if continue_id and redo_STLS:
+    if extend:
         sparse_tls_cov_iterations = list(sparse_tls_cov_old_iterations) + list(sparse_tls_cov_iterations)
 
         pprint("Saving updated result...")
diff --git a/src/identification/run3ph.py b/src/identification/run3ph.py
index ff9cdc6..e4cd0cc 100644
--- a/src/identification/run3ph.py
+++ b/src/identification/run3ph.py
@@ -222,7 +222,7 @@ def bayesian_eiv(name, voltage, current, phases_ids, voltage_sd_polar, current_s
     #
     # Covariance matrices of currents and voltages are calculated using the average true noise method.
 
-    :param name: name of the network (for saves)
+    :param name: name of the network (for saves), None not to save
     :param voltage: voltage measurements (complex)
     :param current: current measurements (complex)
     :param phases_ids: indices of the phase or sequence for each measurement sequence
@@ -278,10 +278,11 @@ def bayesian_eiv(name, voltage, current, phases_ids, voltage_sd_polar, current_s
         # TODO: implement 3-phase Bayesian eiv identification
         raise NotImplementedError("bayesian three phased identification is only available for sequence values")
 
-    pprint("Saving final result...")
-    sim_STLS = {'y': y_fin, 'i': sparse_tls_cov_iterations}
-    np.savez(DATA_DIR / ("simulations_output/bayesian_results_" + name + ".npz"), **sim_STLS)
-    pprint("Done!")
+    if name is not None:
+        pprint("Saving final result...")
+        sim_STLS = {'y': y_fin, 'i': sparse_tls_cov_iterations}
+        np.savez(DATA_DIR / ("simulations_output/bayesian_results_" + name + ".npz"), **sim_STLS)
+        pprint("Done!")
 
     return y_fin, sparse_tls_cov_iterations
 
-- 
2.43.0


From c93fd30f8a5a856efee9603f25e0f9d29d60f367 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:18:22 +0000
Subject: [PATCH 25/26] fix: keep the ratings and the filter length of stored
 measurements when the configuration changed

A simulation that does not redo the noise took the ratings and the filter length from the current configuration,
although the measurements it stores were made with another one.
---
 src/simulation/run.py    | 5 ++++-
 src/simulation/run3ph.py | 5 ++++-
 2 files changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/simulation/run.py b/src/simulation/run.py
index 69cc79b..9737ace 100644
--- a/src/simulation/run.py
+++ b/src/simulation/run.py
@@ -230,7 +230,7 @@ def add_noise_and_filter(net, voltage, current, times, fmeas, steps, noise_param
         pprint("Done!")
 
         pprint("Saving filtered data...")
-        sim_IV = {'i': noisy_current, 'v': noisy_voltage, 'j': current, 'w': voltage}
+        sim_IV = {'i': noisy_current, 'v': noisy_voltage, 'j': current, 'w': voltage, 'p': pmu_ratings, 'f': fparam_ret}
         np.savez(conf.DATA_DIR / ("simulations_output/filtered_results_" + net.name + ".npz"), **sim_IV)
         pprint("Done!")
 
@@ -238,6 +238,9 @@ def add_noise_and_filter(net, voltage, current, times, fmeas, steps, noise_param
         pprint("Loading filtered data...")
         sim_IV = np.load(conf.DATA_DIR / ("simulations_output/filtered_results_" + net.name + ".npz"))
         noisy_voltage, noisy_current, voltage, current = sim_IV["v"], sim_IV["i"], sim_IV["w"], sim_IV["j"]
+        if "p" in sim_IV and "f" in sim_IV:
+            # The ratings and the filter length these data were made with
+            pmu_ratings, fparam_ret = sim_IV["p"], int(sim_IV["f"])
         pprint("Done!")
 
     return noisy_voltage, noisy_current, voltage, current, pmu_ratings, fparam_ret
diff --git a/src/simulation/run3ph.py b/src/simulation/run3ph.py
index 356bd7d..c5b4c7e 100644
--- a/src/simulation/run3ph.py
+++ b/src/simulation/run3ph.py
@@ -314,7 +314,7 @@ def add_noise_and_filter(net, voltage, current, times, fmeas, steps, noise_param
         pprint("Done!")
 
         pprint("Saving filtered data...")
-        sim_IV = {'i': noisy_current, 'v': noisy_voltage, 'j': current, 'w': voltage}
+        sim_IV = {'i': noisy_current, 'v': noisy_voltage, 'j': current, 'w': voltage, 'p': pmu_ratings, 'f': fparam_ret}
         np.savez(conf.DATA_DIR / ("simulations_output/filtered_results_" + net.name + ".npz"), **sim_IV)
         pprint("Done!")
 
@@ -322,6 +322,9 @@ def add_noise_and_filter(net, voltage, current, times, fmeas, steps, noise_param
         pprint("Loading filtered data...")
         sim_IV = np.load(conf.DATA_DIR / ("simulations_output/filtered_results_" + net.name + ".npz"))
         noisy_voltage, noisy_current, voltage, current = sim_IV["v"], sim_IV["i"], sim_IV["w"], sim_IV["j"]
+        if "p" in sim_IV and "f" in sim_IV:
+            # The ratings and the filter length these data were made with
+            pmu_ratings, fparam_ret = sim_IV["p"], int(sim_IV["f"])
         pprint("Done!")
 
     return noisy_voltage, noisy_current, voltage, current, pmu_ratings, fparam_ret
-- 
2.43.0


From 1d2a61f43a65ae15e185e0022e6bb0a817ce7ac9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:33:16 +0000
Subject: [PATCH 26/26] fix: give parameters estimated as exactly zero a finite
 adaptive weight

---
 src/models/bayesian_prior.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/models/bayesian_prior.py b/src/models/bayesian_prior.py
index 037d1bd..5a4d637 100644
--- a/src/models/bayesian_prior.py
+++ b/src/models/bayesian_prior.py
@@ -92,6 +92,9 @@ class BayesianPrior(object):
         :param indices: indices of the parameters on which the prior apply
         :param values: values of the parameters for corresponding indices
         """
+        # A parameter estimated as exactly zero gets a finite weight
+        values = np.where(np.abs(values) < np.finfo(float).eps, np.finfo(float).eps, values)
+
         self.mu = np.concatenate((self.mu, np.zeros(len(indices))))
         added_L = np.zeros((len(indices), self.n))
         for i in range(len(indices)):
-- 
2.43.0

