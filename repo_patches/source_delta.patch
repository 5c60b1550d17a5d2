From 147aedcad842971755aea096ab30306a2319c651 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:43:20 +0000
Subject: [PATCH 01/41] fix: weight currents with their own inverse covariance
 in BayesianEIVRegression

---
 src/models/error_in_variable.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/models/error_in_variable.py b/src/models/error_in_variable.py
index 345a477..5238fc4 100644
--- a/src/models/error_in_variable.py
+++ b/src/models/error_in_variable.py
@@ -207,7 +207,7 @@ class BayesianEIVRegression(GridIdentificationModel, MisfitWeightedModel):
         if x_weight is not None:
             x_weight = sp.csr_matrix(x_weight, dtype=cp.float32)
         if z_weight is not None:
-            z_weight = sp.csr_matrix(x_weight, dtype=cp.float32)
+            z_weight = sp.csr_matrix(z_weight, dtype=cp.float32)
 
         y_mat = y_init
         M, mu, penalty = self.prior.log_distribution(y.get() if conf.GPU_AVAILABLE else y)
-- 
2.43.0


From 900b4be2177cf51f4a3b418a4ccca0156728852f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:43:20 +0000
Subject: [PATCH 02/41] fix: use the real voltage correction in the unweighted
 EIV cost function

---
 src/models/error_in_variable.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/models/error_in_variable.py b/src/models/error_in_variable.py
index 5238fc4..d3fe963 100644
--- a/src/models/error_in_variable.py
+++ b/src/models/error_in_variable.py
@@ -254,7 +254,7 @@ class BayesianEIVRegression(GridIdentificationModel, MisfitWeightedModel):
 
                 # Solve the Delta V sub-problem using projection
                 e_qp = (cp.hstack((x, z)) @ projor)[:, :n]
-                da = vectorize_matrix(e_qp)
+                da = make_real_vector(vectorize_matrix(x - e_qp))
                 AmdA = make_real_matrix(sp.kron(sp.eye(n), e_qp, format='csr') @ DT)
 
                 # Update y equation
-- 
2.43.0


From 11c2ae19dc27f1b2d376ffa0dd971520fb4ac727 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:43:20 +0000
Subject: [PATCH 03/41] fix: uncertainty analysis used an undefined variable

---
 identify_network.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/identify_network.py b/identify_network.py
index 9055694..d18ddef 100644
--- a/identify_network.py
+++ b/identify_network.py
@@ -107,7 +107,7 @@ def identify(network, max_iterations, standard, bayesian_eiv, continue_id, phase
         pprint("Done!")
 
     # Error covariance analysis
-    if uncertainty and not three_phases and not unsynchronized:
+    if uncertainty and not three_phased and not unsynchronized:
         fim_wtls, cov_wtls, expected_max_rrms = run_fcns.eiv_fim(name, voltage, current,
                                                                  voltage_magnitude_sd + 1j * voltage_phase_sd,
                                                                  current_magnitude_sd + 1j * current_phase_sd,
-- 
2.43.0


From 2ec3f358798c85e992893ea35cde6bcd2925ec7e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:43:20 +0000
Subject: [PATCH 04/41] fix: continuing an identification appends the new
 iterations to the saved ones

---
 identify_network.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/identify_network.py b/identify_network.py
index d18ddef..01fc2c1 100644
--- a/identify_network.py
+++ b/identify_network.py
@@ -98,8 +98,8 @@ def identify(network, max_iterations, standard, bayesian_eiv, continue_id, phase
                                                                         weighted, max_iterations if redo_STLS else 0,
                                                                         not unsynchronized, verbose)
 
-    if continue_id:
-        sparse_tls_cov_iterations = sparse_tls_cov_old_iterations.extend(sparse_tls_cov_iterations)
+    if continue_id and redo_STLS:
+        sparse_tls_cov_iterations = list(sparse_tls_cov_old_iterations) + list(sparse_tls_cov_iterations)
 
         pprint("Saving updated result...")
         sim_STLS = {'y': y_sparse_tls_cov, 'i': sparse_tls_cov_iterations}
-- 
2.43.0


From a2aff27b51dc4ffc61a8661166ea834722f0f07e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:44:31 +0000
Subject: [PATCH 05/41] fix: load the saved three-phase Bayesian result when no
 iteration is requested

---
 src/identification/run3ph.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/identification/run3ph.py b/src/identification/run3ph.py
index cb0e983..c11bcb9 100644
--- a/src/identification/run3ph.py
+++ b/src/identification/run3ph.py
@@ -243,6 +243,12 @@ def bayesian_eiv(name, voltage, current, phases_ids, voltage_sd_polar, current_s
     else:
         pprint = lambda a: None
 
+    if max_iterations <= 0:
+        pprint("Loading STLS result...")
+        sim_STLS = np.load(DATA_DIR / ("simulations_output/bayesian_results_" + name + ".npz"), allow_pickle=True)
+        pprint("Done!")
+        return sim_STLS["y"], sim_STLS["i"]
+
     y_fin = np.zeros_like(y_init)
 
     if np.any(phases_ids == 0):
-- 
2.43.0


From 8221935f7f2c6ceddf0da183c695b38228bdb114 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:45:23 +0000
Subject: [PATCH 06/41] fix: obtain the sequence admittance matrices of
 three-phase networks

---
 src/simulation/network_3ph.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/simulation/network_3ph.py b/src/simulation/network_3ph.py
index f6abec3..767003e 100644
--- a/src/simulation/network_3ph.py
+++ b/src/simulation/network_3ph.py
@@ -104,7 +104,8 @@ class NetData3P(Net):
         :return: Admittance matrix as numpy array
         """
         run_net = self.deepcopy()
-        pp.runpp_3ph(run_net, numba=False)
+        # the sequence admittance matrices are only kept when they are to be recycled
+        pp.runpp_3ph(run_net, numba=False, recycle={"bus_pq": False, "trafo": False, "gen": False, "Ybus": True})
 
         if type(run_net['_ppc0']['internal']['Ybus']) is not np.ndarray:
             y_bus0 = run_net['_ppc0']['internal']['Ybus'].todense()
-- 
2.43.0


From 2d0fc95a6bcd1053aae04fad3e2f0a0c8226958b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:45:23 +0000
Subject: [PATCH 07/41] fix: reduce_network mixed node indices before and after
 removing the PCC

---
 src/simulation/run.py | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/src/simulation/run.py b/src/simulation/run.py
index e0f3961..4903536 100644
--- a/src/simulation/run.py
+++ b/src/simulation/run.py
@@ -275,20 +275,20 @@ def reduce_network(net, voltage, current, hidden_nodes, laplacian=False, verbose
     idx_todel = list(set(hidden_idx).union(passive_idx))
     hidden_idx = [idx for idx in hidden_idx if idx not in pcc_idx]
 
+    shunts = np.zeros(y_bus.shape[0], dtype=y_bus.dtype)
+    shunts[hidden_idx] = np.divide(np.mean(current[:, hidden_idx], axis=0), np.mean(voltage[:, hidden_idx], axis=0))
+
     # subKron reducing the ext_grid
     if not laplacian:
         y_bus = np.delete(np.delete(y_bus, pcc_idx, axis=1), pcc_idx, axis=0)
+        shunts = np.delete(shunts, pcc_idx)
 
         # Shift larger indices because y_bus gets smaller
-        for i in pcc_idx:
-            hidden_idx = [(idx - 1 if idx > i else idx) for idx in hidden_idx]
-            passive_idx = [(idx - 1 if idx > i else idx) for idx in passive_idx]
+        hidden_idx = [idx - np.sum(np.array(pcc_idx) < idx) for idx in hidden_idx]
+        passive_idx = [idx - np.sum(np.array(pcc_idx) < idx) for idx in passive_idx]
 
     # Kron reduction of passive and hidden nodes
-    shunts = np.zeros(y_bus.shape[0], dtype=y_bus.dtype)
-    shunts[hidden_idx] = np.divide(np.mean(current[:, hidden_idx], axis=0), np.mean(voltage[:, hidden_idx], axis=0))
-    y_bus = net.kron_reduction(list(set(hidden_idx).union(passive_idx).difference(pcc_idx)),
-                               y_bus + np.diag(shunts))
+    y_bus = net.kron_reduction(list(set(hidden_idx).union(passive_idx)), y_bus + np.diag(shunts))
     pprint("Done!")
     pprint("reduced nodes: " + str(np.array(idx_todel) + 1))
 
-- 
2.43.0


From 146f1bfd248489ddae73464161c32fe6d552d061 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:46:22 +0000
Subject: [PATCH 08/41] fix: three-phase reduce_network mixed node indices
 before and after removing the PCC

---
 src/simulation/run3ph.py | 15 ++++++++-------
 1 file changed, 8 insertions(+), 7 deletions(-)

diff --git a/src/simulation/run3ph.py b/src/simulation/run3ph.py
index e362fda..d37e447 100644
--- a/src/simulation/run3ph.py
+++ b/src/simulation/run3ph.py
@@ -346,12 +346,11 @@ def reduce_network(net, voltage, current, hidden_nodes, laplacian=False, reduce_
     y_bus = net.make_y_bus()
 
     pprint("Kron reducing loads with no current...")
-    idx_todel = []
+    idx_pcc = []
     # subKron reducing the ext_grid
     for idx in net.ext_grid.bus.values:
         i = 3 * net.bus.index.tolist().index(idx)
-        idx_todel.extend([i, i + 1, i + 2])
-        y_bus = np.delete(np.delete(y_bus, [i, i + 1, i + 2], axis=1), [i, i + 1, i + 2], axis=0)
+        idx_pcc.extend([i, i + 1, i + 2])
 
     passive_nodes = net.give_passive_nodes()
     if not reduce_single:
@@ -369,14 +368,16 @@ def reduce_network(net, voltage, current, hidden_nodes, laplacian=False, reduce_
             idx_tored.append(i)
             shunts[i] = np.divide(np.mean(current[:, i], axis=0), np.mean(voltage[:, i], axis=0))
 
-    idx_tored = np.array(idx_tored)
-    y_bus = admittance_phase_to_sequence(y_bus + np.diag(shunts))
+    idx_todel = idx_pcc + idx_tored
+    y_bus = np.delete(np.delete(y_bus + np.diag(shunts), idx_pcc, axis=1), idx_pcc, axis=0)
+
+    # Shift larger indices because y_bus gets smaller
+    idx_tored = np.array([idx - np.sum(np.array(idx_pcc) < idx) for idx in idx_tored])
+    y_bus = admittance_phase_to_sequence(y_bus)
     y_bus = np.kron(net.kron_reduction(idx_tored[idx_tored % 3 == 0]/3, y_bus[::3,::3]), np.diag([1, 0, 0])) \
             + np.kron(net.kron_reduction((idx_tored[idx_tored % 3 == 1] - 1)/3, y_bus[1::3,1::3]), np.diag([0, 1, 0])) \
             + np.kron(net.kron_reduction((idx_tored[idx_tored % 3 == 2] - 2)/3, y_bus[2::3,2::3]), np.diag([0, 0, 1]))
     y_bus = admittance_sequence_to_phase(y_bus)
-    idx_todel.extend(idx_tored.tolist())
-
     pprint("Done!")
     pprint("reduced elements: " + str(np.array(idx_todel) + 1))
 
-- 
2.43.0


From ba9acacf57bd62f75aa68894aadc251487d20e66 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:46:48 +0000
Subject: [PATCH 09/41] fix: reduce each phase separately when passive nodes
 differ between phases

---
 src/simulation/run3ph.py | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/src/simulation/run3ph.py b/src/simulation/run3ph.py
index d37e447..895e363 100644
--- a/src/simulation/run3ph.py
+++ b/src/simulation/run3ph.py
@@ -373,11 +373,15 @@ def reduce_network(net, voltage, current, hidden_nodes, laplacian=False, reduce_
 
     # Shift larger indices because y_bus gets smaller
     idx_tored = np.array([idx - np.sum(np.array(idx_pcc) < idx) for idx in idx_tored])
-    y_bus = admittance_phase_to_sequence(y_bus)
-    y_bus = np.kron(net.kron_reduction(idx_tored[idx_tored % 3 == 0]/3, y_bus[::3,::3]), np.diag([1, 0, 0])) \
-            + np.kron(net.kron_reduction((idx_tored[idx_tored % 3 == 1] - 1)/3, y_bus[1::3,1::3]), np.diag([0, 1, 0])) \
-            + np.kron(net.kron_reduction((idx_tored[idx_tored % 3 == 2] - 2)/3, y_bus[2::3,2::3]), np.diag([0, 0, 1]))
-    y_bus = admittance_sequence_to_phase(y_bus)
+    if reduce_single:
+        # The reduced nodes can be different for each phase
+        y_bus = net.kron_reduction(idx_tored, y_bus)
+    else:
+        y_bus = admittance_phase_to_sequence(y_bus)
+        y_bus = np.kron(net.kron_reduction(idx_tored[idx_tored % 3 == 0]/3, y_bus[::3,::3]), np.diag([1, 0, 0])) \
+                + np.kron(net.kron_reduction((idx_tored[idx_tored % 3 == 1] - 1)/3, y_bus[1::3,1::3]), np.diag([0, 1, 0])) \
+                + np.kron(net.kron_reduction((idx_tored[idx_tored % 3 == 2] - 2)/3, y_bus[2::3,2::3]), np.diag([0, 0, 1]))
+        y_bus = admittance_sequence_to_phase(y_bus)
     pprint("Done!")
     pprint("reduced elements: " + str(np.array(idx_todel) + 1))
 
-- 
2.43.0


From f5a5becd47cc70773d21d8e43aee7a668e9a8ac2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:46:48 +0000
Subject: [PATCH 10/41] fix: return the averaging factor of the measurements
 with three-phase equivalent noise

---
 src/simulation/run3ph.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/simulation/run3ph.py b/src/simulation/run3ph.py
index 895e363..f3d1f03 100644
--- a/src/simulation/run3ph.py
+++ b/src/simulation/run3ph.py
@@ -256,6 +256,7 @@ def add_noise_and_filter(net, voltage, current, times, fmeas, steps, noise_param
 
     ts = np.linspace(0, np.max(times), round(np.max(times) * fmeas))
     fparam = int(np.floor(ts.size / steps))
+    fparam_ret = fparam
 
     if noise_params is not None:
         # Noise Generation
@@ -316,7 +317,7 @@ def add_noise_and_filter(net, voltage, current, times, fmeas, steps, noise_param
         noisy_voltage, noisy_current, voltage, current = sim_IV["v"], sim_IV["i"], sim_IV["w"], sim_IV["j"]
         pprint("Done!")
 
-    return noisy_voltage, noisy_current, voltage, current, pmu_ratings, fparam
+    return noisy_voltage, noisy_current, voltage, current, pmu_ratings, fparam_ret
 
 
 def reduce_network(net, voltage, current, hidden_nodes, laplacian=False, reduce_single=True, verbose=True):
-- 
2.43.0


From 89a34e081c35186c31b23f72a26cc0022edb05b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:46:48 +0000
Subject: [PATCH 11/41] fix: three-phase PCC rating was assigned to the wrong
 node

---
 src/simulation/run3ph.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/simulation/run3ph.py b/src/simulation/run3ph.py
index f3d1f03..0a9cd3c 100644
--- a/src/simulation/run3ph.py
+++ b/src/simulation/run3ph.py
@@ -246,8 +246,8 @@ def add_noise_and_filter(net, voltage, current, times, fmeas, steps, noise_param
     pmu_ratings = np.tile(pmu_safety_factor, (1, len(net.bus.index))) * total_loads
 
     # External grid connections provide power for all loads
-    for i in range(len(net.load.bus)):
-        if net.load.bus.iloc[i] in net.ext_grid.bus.values:
+    for i in range(len(net.bus.index)):
+        if net.bus.index[i] in net.ext_grid.bus.values:
             pmu_ratings[0, i] = np.sum(pmu_ratings[0, :])
             pmu_ratings[1, i] = np.sum(pmu_ratings[1, :])
             pmu_ratings[2, i] = np.sum(pmu_ratings[2, :])
-- 
2.43.0


From a83defc71e92cb3e05f88320d80533e6f8a09b4f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:46:48 +0000
Subject: [PATCH 12/41] fix: order three-phase ratings like the measurements

---
 src/simulation/run3ph.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/simulation/run3ph.py b/src/simulation/run3ph.py
index 0a9cd3c..4d91b9c 100644
--- a/src/simulation/run3ph.py
+++ b/src/simulation/run3ph.py
@@ -252,7 +252,8 @@ def add_noise_and_filter(net, voltage, current, times, fmeas, steps, noise_param
             pmu_ratings[1, i] = np.sum(pmu_ratings[1, :])
             pmu_ratings[2, i] = np.sum(pmu_ratings[2, :])
 
-    pmu_ratings = pmu_ratings.reshape((3 * len(net.bus.index),))
+    # Same order as the measurements, i.e. the three phases of each node one after the other
+    pmu_ratings = pmu_ratings.T.reshape((3 * len(net.bus.index),))
 
     ts = np.linspace(0, np.max(times), round(np.max(times) * fmeas))
     fparam = int(np.floor(ts.size / steps))
-- 
2.43.0


From 515342aa2a0fffc4805cbc4a6018ee0c019b57e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:48:23 +0000
Subject: [PATCH 13/41] fix: return three-phase Gaussian loads in the order of
 the load profiles

---
 src/simulation/load_profile.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/simulation/load_profile.py b/src/simulation/load_profile.py
index 6aebe4c..1f5e755 100644
--- a/src/simulation/load_profile.py
+++ b/src/simulation/load_profile.py
@@ -76,7 +76,7 @@ def generate_gaussian_load(
         load_qb = np.random.normal(load_q_rb, load_q_rb * load_sd, (n_samples, n_load))
         load_pc = np.random.normal(load_p_rc, load_p_rc * load_sd, (n_samples, n_load))
         load_qc = np.random.normal(load_q_rc, load_q_rc * load_sd, (n_samples, n_load))
-        return load_pa, load_qa, load_pb, load_qb, load_pc, load_qc
+        return load_pa, load_pb, load_pc, load_qa, load_qb, load_qc
 
 
 def load_profile_from_csv(
-- 
2.43.0


From d042fb00fce4231859bcd8af79353457c2bec491 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:48:23 +0000
Subject: [PATCH 14/41] fix: three-phase Gaussian loads could not be generated

---
 src/simulation/run3ph.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/simulation/run3ph.py b/src/simulation/run3ph.py
index 4d91b9c..e4f8065 100644
--- a/src/simulation/run3ph.py
+++ b/src/simulation/run3ph.py
@@ -2,7 +2,7 @@ import numpy as np
 
 from conf import conf, simulation
 from src.simulation.simulation_3ph import SimulatedNet3P
-from src.simulation.load_profile import load_profile_from_numpy
+from src.simulation.load_profile import load_profile_from_numpy, generate_gaussian_load
 from src.simulation.noise import filter_and_resample_measurement, add_polar_noise_to_measurement
 from src.simulation import net_templates_3ph
 from src.simulation.net_templates_3ph import ieee123_types
@@ -119,7 +119,8 @@ def generate_loads(net, load_params=None, verbose=True):
                                                    [net.asymmetric_load.q_c_mvar[net.asymmetric_load.q_c_mvar.index[i]]
                                                     for i in range(len(net.asymmetric_load.q_c_mvar))]))
 
-            load_p, load_q = np.zeros_like(load_asym[0]), np.zeros_like(load_asym[0])
+            load_p = np.zeros((len(times), len(net.load.p_mw)))
+            load_q = np.zeros((len(times), len(net.load.q_mvar)))
             pprint("Done!")
 
         a = simulation.load_constantness
-- 
2.43.0


From 90cb8fa5fa7c347c0f3c6185033e22ef1b34ef5a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:49:14 +0000
Subject: [PATCH 15/41] fix: networks can be created from nodes without lines

---
 src/simulation/network.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/simulation/network.py b/src/simulation/network.py
index 25eb560..1b239b6 100644
--- a/src/simulation/network.py
+++ b/src/simulation/network.py
@@ -18,7 +18,7 @@ class NetData(Net):
     def __init__(self, ns: list=None, ls: list=None, other=None):
         Net.__init__(self, other)
         ns = [] if ns is None else ns
-        ls = [] if ns is None else ls
+        ls = [] if ls is None else ls
 
         self.create_buses(ns)
         self.create_lines(ls)
-- 
2.43.0


From a2c8e3b4040ab5f656bdfd4e5de842af9342ff47 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:49:14 +0000
Subject: [PATCH 16/41] fix: NetData.create_line could not find its buses

---
 src/simulation/network.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/simulation/network.py b/src/simulation/network.py
index 1b239b6..e31b1b4 100644
--- a/src/simulation/network.py
+++ b/src/simulation/network.py
@@ -58,8 +58,8 @@ class NetData(Net):
         """
         if f > t:
             f, t = t, f
-        pp.create_line_from_parameters(self, pp.get_element_index(self, "bus", f),
-                                       pp.get_element_index(self, "bus", t),
+        pp.create_line_from_parameters(self, pp.get_element_index(self, "bus", str(f)),
+                                       pp.get_element_index(self, "bus", str(t)),
                                        l, r / l, x / l, 0, 1e10, "(" + str(f) + "," + str(t) + ")")
         return self
 
-- 
2.43.0


From 92c206e466f012d08a8499f13f47c567a62a30be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:49:14 +0000
Subject: [PATCH 17/41] fix: use the voltage of the right bus when creating
 lines from an admittance matrix

---
 src/simulation/network.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/simulation/network.py b/src/simulation/network.py
index e31b1b4..242e4cd 100644
--- a/src/simulation/network.py
+++ b/src/simulation/network.py
@@ -92,7 +92,7 @@ class NetData(Net):
         for i in range(y_bus.shape[0]):
             for j in range(i):
                 if np.abs(y_bus[i, j]) > 0:
-                    y = -y_bus[i, j]/(self.bus.vn_kv[i]*self.bus.vn_kv[i])*self.sn_mva
+                    y = -y_bus[i, j]/(self.bus.vn_kv.values[i]*self.bus.vn_kv.values[i])*self.sn_mva
                     pp.create_line_from_parameters(self, pp.get_element_index(self, "bus", str(self.bus.index[i])),
                                                    pp.get_element_index(self, "bus", str(self.bus.index[j])),
                                                    1.0, np.real(1.0/y), np.imag(1.0/y), 0, 1e10,
-- 
2.43.0


From c4f62483b798a209d8e24ac72b39116c2374cb5b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:50:02 +0000
Subject: [PATCH 18/41] fix: remove_line and remove_lines could not remove
 lines

---
 src/simulation/abstract_network.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/simulation/abstract_network.py b/src/simulation/abstract_network.py
index 5b1f7c9..4ee5e4a 100644
--- a/src/simulation/abstract_network.py
+++ b/src/simulation/abstract_network.py
@@ -53,10 +53,10 @@ class Net(pp.pandapowerNet, ABC):
         pp.drop_buses(self, bus)
 
     def remove_line(self, line):
-        pp.drop_lines(self, line)
+        pp.drop_lines(self, [line])
 
     def remove_lines(self, lines):
-        pp.drop_buses(self, lines)
+        pp.drop_lines(self, lines)
 
     def give_passive_nodes(self):
         """
-- 
2.43.0


From 08615b57ee0f79415ecb22e5a712edc7abfc45cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:50:22 +0000
Subject: [PATCH 19/41] fix: last line of the 21 bus sub-network connected the
 wrong nodes

---
 src/simulation/net_templates.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/simulation/net_templates.py b/src/simulation/net_templates.py
index e525738..444eee6 100644
--- a/src/simulation/net_templates.py
+++ b/src/simulation/net_templates.py
@@ -253,7 +253,7 @@ bolognani21_net = \
      LineData(16, 17, 150, None, 0.0005024484*17.3, 0.0010294060*17.3, 1.13538851848272E-008, 100, 100, 100, 0, 0, 1, -360, 360),
      LineData(16, 18, 250, None, 0.0008374139*17.3, 0.0017156767*17.3, 1.89231419747120E-008, 100, 100, 100, 0, 0, 1, -360, 360),
      LineData(18, 19, 250, None, 0.0008374139*17.3, 0.0017156767*17.3, 1.89231419747120E-008, 100, 100, 100, 0, 0, 1, -360, 360),
-     LineData(20, 21, 250, None, 0.0008374139*17.3, 0.0017156767*17.3, 1.89231419747120E-008, 100, 100, 100, 0, 0, 1, -360, 360)]
+     LineData(19, 20, 250, None, 0.0008374139*17.3, 0.0017156767*17.3, 1.89231419747120E-008, 100, 100, 100, 0, 0, 1, -360, 360)]
 
 
 cigre_mv_feeder1_bus = \
-- 
2.43.0


From 9e7b566a827c1b70c1f664bb902d50b4ccc1207d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:50:22 +0000
Subject: [PATCH 20/41] fix: make_complex_matrix used float slices

---
 src/models/gpu_matrix_operations.py | 2 +-
 src/models/matrix_operations.py     | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/models/gpu_matrix_operations.py b/src/models/gpu_matrix_operations.py
index 9183c68..3280446 100644
--- a/src/models/gpu_matrix_operations.py
+++ b/src/models/gpu_matrix_operations.py
@@ -93,4 +93,4 @@ def make_complex_matrix(m):
     :param m: block 2x2 real matrix as numpy/scipy array
     :return: complex matrix as numpy/scipy array
     """
-    return m[:m.shape[0]/2, :m.shape[1]/2] + 1j * m[m.shape[0]/2:, :m.shape[1]/2]
+    return m[:m.shape[0]//2, :m.shape[1]//2] + 1j * m[m.shape[0]//2:, :m.shape[1]//2]
diff --git a/src/models/matrix_operations.py b/src/models/matrix_operations.py
index c9c93e9..63c9bb0 100644
--- a/src/models/matrix_operations.py
+++ b/src/models/matrix_operations.py
@@ -93,7 +93,7 @@ def make_complex_matrix(m):
     :param m: block 2x2 real matrix as numpy/scipy array
     :return: complex matrix as numpy/scipy array
     """
-    return m[:m.shape[0]/2, :m.shape[1]/2] + 1j * m[m.shape[0]/2:, :m.shape[1]/2]
+    return m[:m.shape[0]//2, :m.shape[1]//2] + 1j * m[m.shape[0]//2:, :m.shape[1]//2]
 
 
 def duplication_matrix(n):
-- 
2.43.0


From 4dd35788eda87404863635d6d52bc31c70c8b7ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:50:59 +0000
Subject: [PATCH 21/41] fix: adaptive lasso weights were inverted twice

---
 src/identification/run.py    | 3 ++-
 src/identification/run3ph.py | 3 ++-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/identification/run.py b/src/identification/run.py
index 955a7cb..05ce48c 100644
--- a/src/identification/run.py
+++ b/src/identification/run.py
@@ -28,7 +28,8 @@ def build_lasso_prior(nodes, y_ols, laplacian):
         E = elimination_sym_matrix(nodes)
 
     y_sym_ols = unvectorize_matrix(DT @ E @ vectorize_matrix(y_ols), (nodes, nodes))
-    adaptive_lasso = np.divide(1.0, np.power(np.abs(make_real_vector(E @ vectorize_matrix(y_sym_ols))), 1.0))
+    # The adaptive sparsity prior takes the inverse of these values as weights
+    adaptive_lasso = np.abs(make_real_vector(E @ vectorize_matrix(y_sym_ols)))
 
     prior = SparseSmoothPrior(smoothness_param=0.00001, n=len(E @ vectorize_matrix(y_ols))*2)
     prior.add_adaptive_sparsity_prior(np.arange(prior.n), adaptive_lasso, SmoothPrior.LAPLACE)
diff --git a/src/identification/run3ph.py b/src/identification/run3ph.py
index c11bcb9..5258e22 100644
--- a/src/identification/run3ph.py
+++ b/src/identification/run3ph.py
@@ -25,7 +25,8 @@ def build_lasso_prior(nodes, y_ols, E, DT):
     :param DT: duplication matrix
     """
     y_sym_ols = unvectorize_matrix(DT @ E @ vectorize_matrix(y_ols), (nodes, nodes))
-    adaptive_lasso = np.divide(1.0, np.power(np.abs(make_real_vector(E @ vectorize_matrix(y_sym_ols))), 1.0))
+    # The adaptive sparsity prior takes the inverse of these values as weights
+    adaptive_lasso = np.abs(make_real_vector(E @ vectorize_matrix(y_sym_ols)))
 
     prior = SparseSmoothPrior(smoothness_param=0.00001, n=len(E @ vectorize_matrix(y_ols))*2)
     prior.add_adaptive_sparsity_prior(np.arange(prior.n), adaptive_lasso, SmoothPrior.LAPLACE)
-- 
2.43.0


From c4f9e401ec5b49a4ac7b781637f2b836916553f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:50:59 +0000
Subject: [PATCH 22/41] fix: suboptimal known lines selected the optimal ones

---
 src/identification/run.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/identification/run.py b/src/identification/run.py
index 05ce48c..c204a2e 100644
--- a/src/identification/run.py
+++ b/src/identification/run.py
@@ -171,7 +171,7 @@ def add_known_lines(nodes, prior, lambdaprime, y_bus, laplacian=False, prior_typ
     tls_bus_weights = np.zeros_like(y_bus)
     tls_bus_centers = np.zeros_like(y_bus)
 
-    if "optimal" in prior_type:
+    if "optimal" in prior_type and "suboptimal" not in prior_type:
         # Node 2
         tls_bus_weights[0, :], tls_bus_weights[:, 0] = (1+1j), (1+1j)
         tls_bus_weights[0, 0] = 0
-- 
2.43.0


From 4bdacebb6316ea671ef5e77bac9630714e15b3bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:51:45 +0000
Subject: [PATCH 23/41] fix: simulating a network changed the hidden nodes of
 the configuration

---
 simulate_network.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/simulate_network.py b/simulate_network.py
index 75e4cbe..fca4046 100644
--- a/simulate_network.py
+++ b/simulate_network.py
@@ -41,7 +41,7 @@ def simulate(network, active_profiles, reactive_profiles, gaussian_loads, loads,
     net, bus_data, _ = run3ph.make_net(network) if three_phased else run.make_net(network)
 
     # How to deal with hidden nodes
-    hidden_nodes = conf.simulation.hidden_nodes
+    hidden_nodes = list(conf.simulation.hidden_nodes)
     constant_load_nodes = hidden_nodes if conf.simulation.constant_load_hidden_nodes else None
     if not laplacian and not three_phased:
         for b in bus_data:
-- 
2.43.0


From 74040cbca56f8ab6f98a3b822e69e75eaed07115 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:51:45 +0000
Subject: [PATCH 24/41] fix: plot the results of the identified phase or
 sequence

---
 plot_results.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/plot_results.py b/plot_results.py
index 2a18995..dcd3f24 100644
--- a/plot_results.py
+++ b/plot_results.py
@@ -42,8 +42,9 @@ def plot_results(network, max_plot_y, max_plot_err, color_scale, sequence, verbo
 
     correct_component = lambda x: x
     if phases != "012" and phases != "123":
-        idx_todel = (phases_ids != 1).nonzero()
-        voltage = np.delete(voltage, idx_todel, axis=1)
+        if np.any(phases_ids != 1):
+            idx_todel = (phases_ids != int(str(phases))).nonzero()
+            voltage = np.delete(voltage, idx_todel, axis=1)
     elif phases == "012" and not sequence:
         correct_component = admittance_sequence_to_phase
         voltage = measurement_sequence_to_phase(voltage)
-- 
2.43.0


From 204c25354209cd8b985a5c931aed0168d5ab93ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:15:51 +0000
Subject: [PATCH 25/41] fix: sparse priors made of a single belief could not be
 evaluated

---
 src/models/smooth_prior.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/models/smooth_prior.py b/src/models/smooth_prior.py
index c9a3c2c..b197edd 100644
--- a/src/models/smooth_prior.py
+++ b/src/models/smooth_prior.py
@@ -143,7 +143,7 @@ class SparseSmoothPrior(SmoothPrior):
         W = sparse.diags(np.divide(1, w), format='csr')
 
         A = self.L.T @ W @ self.L
-        b = self.L.T @ W @ self.mu.squeeze()
+        b = self.L.T @ W @ self.mu
 
         return A, b, np.sum(w)
 
-- 
2.43.0


From 51509fdeeb911043955e36dce8110eb55e54a507 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:42:02 +0000
Subject: [PATCH 26/41] fix: BayesianRegression depended on scipy.sparse.linalg
 being imported elsewhere

---
 src/models/regression.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/models/regression.py b/src/models/regression.py
index 9b576fa..7177f81 100644
--- a/src/models/regression.py
+++ b/src/models/regression.py
@@ -3,6 +3,7 @@ from typing import Tuple
 import numpy as np
 from scipy import sparse
 from scipy.linalg import pinv
+from scipy.sparse.linalg import spsolve
 from tqdm import tqdm
 
 from conf import conf
-- 
2.43.0


From ae596b0962cb726eeaa87ca495027f38706d61b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:42:02 +0000
Subject: [PATCH 27/41] fix: voltage correction used the transposed parameters

---
 src/models/error_in_variable.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/models/error_in_variable.py b/src/models/error_in_variable.py
index d3fe963..9c9041e 100644
--- a/src/models/error_in_variable.py
+++ b/src/models/error_in_variable.py
@@ -216,8 +216,8 @@ class BayesianEIVRegression(GridIdentificationModel, MisfitWeightedModel):
         for it in (tqdm(range(self._max_iterations)) if self._verbose else range(self._max_iterations)):
             if z_weight is not None and x_weight is not None:
                 # Create \bar Y from y
-                real_beta_kron = sp.kron(cp.real(y_mat), sp.eye(samples), format='csr')
-                imag_beta_kron = sp.kron(cp.imag(y_mat), sp.eye(samples), format='csr')
+                real_beta_kron = sp.kron(cp.real(y_mat).T, sp.eye(samples), format='csr')
+                imag_beta_kron = sp.kron(cp.imag(y_mat).T, sp.eye(samples), format='csr')
                 underline_y = sp.bmat([[real_beta_kron, -imag_beta_kron],
                                            [imag_beta_kron, real_beta_kron]], format='csr')
 
-- 
2.43.0


From e749ece6da95f5d60687c3e4d49588e982b05a8a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:11:06 +0000
Subject: [PATCH 28/41] fix: three-phase Gaussian loads left out the balanced
 loads

---
 src/simulation/run3ph.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/simulation/run3ph.py b/src/simulation/run3ph.py
index e4f8065..4f1e53f 100644
--- a/src/simulation/run3ph.py
+++ b/src/simulation/run3ph.py
@@ -119,8 +119,11 @@ def generate_loads(net, load_params=None, verbose=True):
                                                    [net.asymmetric_load.q_c_mvar[net.asymmetric_load.q_c_mvar.index[i]]
                                                     for i in range(len(net.asymmetric_load.q_c_mvar))]))
 
-            load_p = np.zeros((len(times), len(net.load.p_mw)))
-            load_q = np.zeros((len(times), len(net.load.q_mvar)))
+            load_p, load_q = generate_gaussian_load(load_std, len(times),
+                                                    load_p_reference=np.array([net.load.p_mw[net.load.p_mw.index[i]]
+                                                                               for i in range(len(net.load.p_mw))]),
+                                                    load_q_reference=np.array([net.load.q_mvar[net.load.q_mvar.index[i]]
+                                                                               for i in range(len(net.load.q_mvar))]))
             pprint("Done!")
 
         a = simulation.load_constantness
-- 
2.43.0


From 1379308af6ae97868f48a412e3b1eb1142d2757a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:27:59 +0000
Subject: [PATCH 29/41] fix: diagonal regularization left a prior with more
 centers than beliefs when laplacian

---
 src/identification/run.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/identification/run.py b/src/identification/run.py
index c204a2e..1cc3452 100644
--- a/src/identification/run.py
+++ b/src/identification/run.py
@@ -127,7 +127,8 @@ def build_complex_prior(nodes, lambdaprime, y_tls, laplacian=False,
                                  weights=lambdaprime * np.concatenate((-np.ones(nodes), np.ones(nodes))),
                                  orders=SmoothPrior.LAPLACE)
 
-        if regularize_diag:
+        # A laplacian matrix has no diagonal parameter to regularize
+        if regularize_diag and not laplacian:
             idx_diag = np.where(np.abs(make_real_vector((1+1j)*E @ vectorize_matrix(np.eye(nodes)))) > 0)[0]
 
             prior.add_exact_adaptive_prior(indices=idx_diag,
-- 
2.43.0


From 9e2aec836ebb0cbccbe2d8e4cf12f68a762d6d0a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:13:59 +0000
Subject: [PATCH 30/41] fix: identification accepted phases without data and
 labelled other data with them

---
 identify_network.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/identify_network.py b/identify_network.py
index 01fc2c1..4c10ae9 100644
--- a/identify_network.py
+++ b/identify_network.py
@@ -49,12 +49,12 @@ def identify(network, max_iterations, standard, bayesian_eiv, continue_id, phase
     current, voltage, y_bus = sim_STLS['j'], sim_STLS['w'], sim_STLS['y']
     pmu_ratings, fparam, phases_ids = sim_STLS['p'], sim_STLS['f'], sim_STLS['h']
 
+    if not all(np.any(phases_ids == int(p)) for p in phases):
+        raise IndexError("Error: Trying to identify phase or sequence " + phases +
+                         " but no data is available for it")
+
     if not three_phased and np.any(phases_ids != 1):
-        if not np.any(phases_ids == int(phases)):
-            raise IndexError("Error: Trying to identify phase or sequence " + phases +
-                             " but no data is available for it")
-        else:
-            pprint("Identifying " + ("sequence" if sequence else "phase") + " " + phases + "...")
+        pprint("Identifying " + ("sequence" if sequence else "phase") + " " + phases + "...")
 
         # Keep chosen phase/sequence
         idx_todel = (phases_ids != int(phases)).nonzero()
-- 
2.43.0


From 4ab140861b25ee5bf11ff9c5a51fc4b7b89e2b63 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:13:59 +0000
Subject: [PATCH 31/41] fix: continuing an identification without iterations
 duplicated the saved ones

---
 identify_network.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/identify_network.py b/identify_network.py
index 4c10ae9..eab1235 100644
--- a/identify_network.py
+++ b/identify_network.py
@@ -98,7 +98,7 @@ def identify(network, max_iterations, standard, bayesian_eiv, continue_id, phase
                                                                         weighted, max_iterations if redo_STLS else 0,
                                                                         not unsynchronized, verbose)
 
-    if continue_id and redo_STLS:
+    if continue_id and redo_STLS and max_iterations > 0:
         sparse_tls_cov_iterations = list(sparse_tls_cov_old_iterations) + list(sparse_tls_cov_iterations)
 
         pprint("Saving updated result...")
-- 
2.43.0


From 92d54582cea64e6187d11e378039c7d937e5f2b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:49 +0000
Subject: [PATCH 32/41] fix: regularized regression failed with its default
 elimination of parameters

---
 src/models/regression.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/models/regression.py b/src/models/regression.py
index 7177f81..c44339f 100644
--- a/src/models/regression.py
+++ b/src/models/regression.py
@@ -54,7 +54,7 @@ class BayesianRegression(GridIdentificationModel):
     """
 
     def __init__(self, prior, lambda_value=10e-2, abs_tol=10e-6, rel_tol=10e-6, max_iterations=50, verbose=True,
-                 dt_matrix_builder=lambda n: sparse.eye(n*n), e_matrix_builder=lambda n: sparse.eye(n*n)):
+                 dt_matrix_builder=lambda n: np.eye(n*n), e_matrix_builder=lambda n: np.eye(n*n)):
         """
         :param prior: Bayesian prior for the estimation
         :param lambda_value: initial or fixed sparsity parameter
-- 
2.43.0


From 02a281fbcca7f8cc9940ba364a4ee1d676e0690d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:13:22 +0000
Subject: [PATCH 33/41] fix: plot_series failed as soon as labels were given

---
 src/identification/utils.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/identification/utils.py b/src/identification/utils.py
index c7a38e8..39b5fcc 100644
--- a/src/identification/utils.py
+++ b/src/identification/utils.py
@@ -131,8 +131,8 @@ def plot_series(m: np.array, name: str, labels=None, s=10, colormap='hsv', ar=No
         if labels is None or len(labels) != m.shape[1]:
             ax1.plot(np.arange(m.shape[0]), m[:, i], linewidth=s, linestyle='solid', color=cmap[i])
         else:
-            ax1.scaplottter(np.arange(m.shape[0]), m[:, i], linewidth=s,
-                            linestyle='solid', color=cmap[i], label=labels[i])
+            ax1.plot(np.arange(m.shape[0]), m[:, i], linewidth=s,
+                     linestyle='solid', color=cmap[i], label=labels[i])
             plt.legend(loc='upper right')
     with open(DATA_DIR / ("tikz/" + name + ".tex"), 'w') as f:
         print(tikzplotlib.get_tikz_code(), file=f)
-- 
2.43.0


From b2db6b58db16abd5b7af0dbc45440c39ef87114e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:13:22 +0000
Subject: [PATCH 34/41] fix: report failed when all parameters of the network
 are lines

---
 src/models/error_metrics.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/models/error_metrics.py b/src/models/error_metrics.py
index 05546b2..24c5170 100644
--- a/src/models/error_metrics.py
+++ b/src/models/error_metrics.py
@@ -28,7 +28,7 @@ def max_error(y: np.array, y_hat: np.array) -> float:
     :param y_hat: estimated parameters as numpy array
     :return: infinity norm of the estimation error
     """
-    return np.max(np.abs(y - y_hat))
+    return np.max(np.abs(y - y_hat), initial=0)
 
 
 def rrms_error(y: np.array, y_hat: np.array) -> float:
-- 
2.43.0


From c5c0652c2697ab3378397c4cf2bdb72861c854db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:19:04 +0000
Subject: [PATCH 35/41] fix: fitting a regression model again starts a new
 history of iterations

---
 src/models/error_in_variable.py | 1 +
 src/models/regression.py        | 1 +
 2 files changed, 2 insertions(+)

diff --git a/src/models/error_in_variable.py b/src/models/error_in_variable.py
index 9c9041e..4b73d87 100644
--- a/src/models/error_in_variable.py
+++ b/src/models/error_in_variable.py
@@ -213,6 +213,7 @@ class BayesianEIVRegression(GridIdentificationModel, MisfitWeightedModel):
         M, mu, penalty = self.prior.log_distribution(y.get() if conf.GPU_AVAILABLE else y)
 
         # start iterating
+        self._iterations = []
         for it in (tqdm(range(self._max_iterations)) if self._verbose else range(self._max_iterations)):
             if z_weight is not None and x_weight is not None:
                 # Create \bar Y from y
diff --git a/src/models/regression.py b/src/models/regression.py
index c44339f..55f7f1a 100644
--- a/src/models/regression.py
+++ b/src/models/regression.py
@@ -124,6 +124,7 @@ class BayesianRegression(GridIdentificationModel):
         M, mu, penalty = self.prior.log_distribution(y.get() if conf.GPU_AVAILABLE else y)
 
         # start iterating
+        self._iterations = []
         for it in (tqdm(range(self._max_iterations)) if self._verbose else range(self._max_iterations)):
             # Update y
             iASA = (A.T @ A) + self._lambda * sp.csr_matrix(M)
-- 
2.43.0


From 555ac2b18c9e16acc81cc997df145774d8a99eb2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:02:58 +0000
Subject: [PATCH 36/41] fix: three-phase reduce_network eliminated another node
 when the PCC is among the hidden nodes

---
 src/simulation/run3ph.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/simulation/run3ph.py b/src/simulation/run3ph.py
index 4f1e53f..3c5b487 100644
--- a/src/simulation/run3ph.py
+++ b/src/simulation/run3ph.py
@@ -371,6 +371,8 @@ def reduce_network(net, voltage, current, hidden_nodes, laplacian=False, reduce_
             idx_tored.append(3 * net.bus.index.tolist().index(idx) + ph)
         for idx in hidden_nodes:
             i = 3 * net.bus.index.tolist().index(idx) + ph
+            if i in idx_pcc:  # already removed
+                continue
             idx_tored.append(i)
             shunts[i] = np.divide(np.mean(current[:, i], axis=0), np.mean(voltage[:, i], axis=0))
 
-- 
2.43.0


From c6d066039702a45051a936b883d8de61db508c2f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:50:20 +0000
Subject: [PATCH 37/41] fix: nodes were looked up among the numbers of the
 loads instead of their buses when finding passive nodes

---
 src/simulation/abstract_network.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/simulation/abstract_network.py b/src/simulation/abstract_network.py
index 4ee5e4a..9e3b993 100644
--- a/src/simulation/abstract_network.py
+++ b/src/simulation/abstract_network.py
@@ -73,13 +73,13 @@ class Net(pp.pandapowerNet, ABC):
             else:
                 passive = (True, True, True)
 
-                if idx in self.load.bus:
+                if idx in self.load.bus.values:
                     passive = passive if self.load.p_mw[self.load.bus[self.load.bus == idx].index.values[0]] == 0 \
                                            and self.load.q_mvar[
                                                self.load.bus[self.load.bus == idx].index.values[0]] == 0 else (
                     False, False, False)
 
-                if idx in self.asymmetric_load.bus:
+                if idx in self.asymmetric_load.bus.values:
                     idxload = self.asymmetric_load.bus[self.asymmetric_load.bus == idx].index.values[0]
                     passive = passive[0] if \
                         self.asymmetric_load.p_a_mw[idxload] == 0 and self.asymmetric_load.q_a_mvar[idxload] == 0 \
-- 
2.43.0


From b64c6bddd49b52bbb8c1a3e5743215a4e0472721 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:54:52 +0000
Subject: [PATCH 38/41] fix: single-phase sensor ratings were those of the
 loads, which are in another order than the measurements or fewer than the
 nodes

---
 src/simulation/run.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/simulation/run.py b/src/simulation/run.py
index 4903536..1a60dca 100644
--- a/src/simulation/run.py
+++ b/src/simulation/run.py
@@ -172,10 +172,12 @@ def add_noise_and_filter(net, voltage, current, times, fmeas, steps, noise_param
     else:
         pmu_safety_factor = 4
 
-    pmu_ratings = pmu_safety_factor * np.array([np.sum(i*i) for i in net.load[["p_mw","q_mvar"]].values])
+    pmu_ratings = np.array([np.sum(i*i) for i in net.load[["p_mw","q_mvar"]].values])
+    # One PMU per bus, in the same order as the measurements
+    pmu_ratings = pmu_safety_factor * np.array([np.sum(pmu_ratings[net.load.bus.values == b]) for b in net.bus.index])
     # External grid connections provide power for all loads
-    for i in range(len(net.load.bus)):
-        if net.load.bus.iloc[i] in net.ext_grid.bus.values:
+    for i in range(len(net.bus.index)):
+        if net.bus.index[i] in net.ext_grid.bus.values:
             pmu_ratings[i] = np.sum(pmu_ratings)
 
     ts = np.linspace(0, np.max(times), round(np.max(times) * fmeas))
-- 
2.43.0


From 2960eb78047308bb0e84a7ac8d89c48bd0aee131 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:31:36 +0000
Subject: [PATCH 39/41] fix: only the first load of a bus was considered when
 finding passive nodes

---
 src/simulation/abstract_network.py | 19 +++++++------------
 1 file changed, 7 insertions(+), 12 deletions(-)

diff --git a/src/simulation/abstract_network.py b/src/simulation/abstract_network.py
index 9e3b993..9dcc330 100644
--- a/src/simulation/abstract_network.py
+++ b/src/simulation/abstract_network.py
@@ -74,20 +74,15 @@ class Net(pp.pandapowerNet, ABC):
                 passive = (True, True, True)
 
                 if idx in self.load.bus.values:
-                    passive = passive if self.load.p_mw[self.load.bus[self.load.bus == idx].index.values[0]] == 0 \
-                                           and self.load.q_mvar[
-                                               self.load.bus[self.load.bus == idx].index.values[0]] == 0 else (
-                    False, False, False)
+                    loads = self.load[self.load.bus == idx]
+                    passive = passive if np.all(loads[["p_mw", "q_mvar"]].values == 0) else (False, False, False)
 
                 if idx in self.asymmetric_load.bus.values:
-                    idxload = self.asymmetric_load.bus[self.asymmetric_load.bus == idx].index.values[0]
-                    passive = passive[0] if \
-                        self.asymmetric_load.p_a_mw[idxload] == 0 and self.asymmetric_load.q_a_mvar[idxload] == 0 \
-                        else False, passive[1] if \
-                        self.asymmetric_load.p_b_mw[idxload] == 0 and self.asymmetric_load.q_b_mvar[idxload] == 0 \
-                        else False, passive[2] if \
-                        self.asymmetric_load.p_c_mw[idxload] == 0 and self.asymmetric_load.q_c_mvar[idxload] == 0 \
-                        else False
+                    loads = self.asymmetric_load[self.asymmetric_load.bus == idx]
+                    passive = \
+                        passive[0] if np.all(loads[["p_a_mw", "q_a_mvar"]].values == 0) else False, \
+                        passive[1] if np.all(loads[["p_b_mw", "q_b_mvar"]].values == 0) else False, \
+                        passive[2] if np.all(loads[["p_c_mw", "q_c_mvar"]].values == 0) else False
 
             for i in range(3):
                 if passive[i]:
-- 
2.43.0


From 13da841794509e4c0002ea56353914c28862167c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:31:36 +0000
Subject: [PATCH 40/41] fix: load windows did not add up to the requested days
 when these are not a multiple of the weeks

---
 src/simulation/run.py    | 5 +++--
 src/simulation/run3ph.py | 7 ++++---
 2 files changed, 7 insertions(+), 5 deletions(-)

diff --git a/src/simulation/run.py b/src/simulation/run.py
index 1a60dca..d3f4948 100644
--- a/src/simulation/run.py
+++ b/src/simulation/run.py
@@ -55,14 +55,15 @@ def generate_loads(net, load_params=None, verbose=True):
 
         if active_file is not None and reactive_file is not None:
             pprint("Reading standard profiles...")
+            # the windows share the minutes of the requested days
+            window_lengths = np.diff(np.arange(len(selected_weeks) + 1) * days * 24 * 60 // len(selected_weeks))
             times = np.array(range(days * 24 * 60)) * 60  # [s]
 
             # load_p, load_q = generate_gaussian_load(net.load.p_mw, net.load.q_mvar, load_cv, steps)
             load_p, load_q = load_profile_from_numpy(active_file=active_file,
                                                      reactive_file=reactive_file,
                                                      skip_header=selected_weeks * 7 * 24 * 60,
-                                                     length=np.array(days / len(selected_weeks) * 24 * 60,
-                                                                     dtype=np.int64),
+                                                     length=window_lengths,
                                                      load_p_reference=np.array([net.load.p_mw[net.load.p_mw.index[i]]
                                                                                 for i in range(len(net.load.p_mw))]),
                                                      load_q_reference=np.array([net.load.q_mvar[net.load.q_mvar.index[i]]
diff --git a/src/simulation/run3ph.py b/src/simulation/run3ph.py
index 3c5b487..bce2168 100644
--- a/src/simulation/run3ph.py
+++ b/src/simulation/run3ph.py
@@ -55,13 +55,14 @@ def generate_loads(net, load_params=None, verbose=True):
 
         if active_file is not None and reactive_file is not None:
             pprint("Reading standard profiles...")
+            # the windows share the minutes of the requested days
+            window_lengths = np.diff(np.arange(len(selected_weeks) + 1) * days * 24 * 60 // len(selected_weeks))
 
             # load_p, load_q = generate_gaussian_load(net.load.p_mw, net.load.q_mvar, load_cv, steps)
             load_p, load_q = load_profile_from_numpy(active_file=active_file,
                                                      reactive_file=reactive_file,
                                                      skip_header=selected_weeks * 7 * 24 * 60,
-                                                     length=np.array(days / len(selected_weeks) * 24 * 60,
-                                                                     dtype=np.int64),
+                                                     length=window_lengths,
                                                      load_p_reference=np.array([net.load.p_mw[net.load.p_mw.index[i]]
                                                                                 for i in range(len(net.load.p_mw))]),
                                                      load_q_reference=np.array([net.load.q_mvar[net.load.q_mvar.index[i]]
@@ -73,7 +74,7 @@ def generate_loads(net, load_params=None, verbose=True):
             load_asym = load_profile_from_numpy(active_file=active_file,
                                                 reactive_file=reactive_file,
                                                 skip_header=selected_weeks * 7 * 24 * 60,
-                                                length=np.array(days / len(selected_weeks) * 24 * 60, dtype=np.int64),
+                                                length=window_lengths,
                                                 load_p_reference=np.array(
                                                     [net.asymmetric_load.p_a_mw[net.asymmetric_load.p_a_mw.index[i]]
                                                      for i in range(len(net.asymmetric_load.p_a_mw))]),
-- 
2.43.0


From 3e34a43734253ac7179f6fbddb28c8d5bfc9004a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:50:00 +0000
Subject: [PATCH 41/41] fix: hidden nodes were reduced with the wrong sign of
 their load admittance

Currents are those injected in the network, so that a load draws minus its measured current: the admittance to the ground that replaces a hidden node is -mean(I)/mean(V).
---
 src/simulation/run.py    | 2 +-
 src/simulation/run3ph.py | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/simulation/run.py b/src/simulation/run.py
index d3f4948..11ba3c3 100644
--- a/src/simulation/run.py
+++ b/src/simulation/run.py
@@ -279,7 +279,7 @@ def reduce_network(net, voltage, current, hidden_nodes, laplacian=False, verbose
     hidden_idx = [idx for idx in hidden_idx if idx not in pcc_idx]
 
     shunts = np.zeros(y_bus.shape[0], dtype=y_bus.dtype)
-    shunts[hidden_idx] = np.divide(np.mean(current[:, hidden_idx], axis=0), np.mean(voltage[:, hidden_idx], axis=0))
+    shunts[hidden_idx] = -np.divide(np.mean(current[:, hidden_idx], axis=0), np.mean(voltage[:, hidden_idx], axis=0))
 
     # subKron reducing the ext_grid
     if not laplacian:
diff --git a/src/simulation/run3ph.py b/src/simulation/run3ph.py
index bce2168..0338480 100644
--- a/src/simulation/run3ph.py
+++ b/src/simulation/run3ph.py
@@ -375,7 +375,7 @@ def reduce_network(net, voltage, current, hidden_nodes, laplacian=False, reduce_
             if i in idx_pcc:  # already removed
                 continue
             idx_tored.append(i)
-            shunts[i] = np.divide(np.mean(current[:, i], axis=0), np.mean(voltage[:, i], axis=0))
+            shunts[i] = -np.divide(np.mean(current[:, i], axis=0), np.mean(voltage[:, i], axis=0))
 
     idx_todel = idx_pcc + idx_tored
     y_bus = np.delete(np.delete(y_bus + np.diag(shunts), idx_pcc, axis=1), idx_pcc, axis=0)
-- 
2.43.0

