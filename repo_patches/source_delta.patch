From 9e31954411c233d16543388d85b5edd7787e8c58 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:56:07 +0000
Subject: [PATCH 01/30] fix: convert the PMAX limit of loads to per-unit

---
 gym_anm/simulator/components/devices.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/gym_anm/simulator/components/devices.py b/gym_anm/simulator/components/devices.py
index 85763ca..90da451 100644
--- a/gym_anm/simulator/components/devices.py
+++ b/gym_anm/simulator/components/devices.py
@@ -139,6 +139,8 @@ class Load(Device):
             raise LoadSpecError(
                 "Trying to create a load with P_max > 0. Loads" " can only withdraw power from the grid."
             )
+        else:
+            self.p_max /= baseMVA  # to p.u.
 
         self.p_min = dev_spec[DEV_H["PMIN"]]
         if self.p_min is None:
-- 
2.43.0


From e5a6c739d4bd32df21890f056deb40ff91926887 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:56:07 +0000
Subject: [PATCH 02/30] fix: order the reactive power bounds of loads for any
 Q/P sign

---
 gym_anm/simulator/components/devices.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/gym_anm/simulator/components/devices.py b/gym_anm/simulator/components/devices.py
index 90da451..dd08914 100644
--- a/gym_anm/simulator/components/devices.py
+++ b/gym_anm/simulator/components/devices.py
@@ -152,8 +152,9 @@ class Load(Device):
         if self.p_max < self.p_min:
             raise LoadSpecError("Device %d has P_max < P_min." % self.dev_id)
 
-        self.q_max = self.p_max * self.qp_ratio
-        self.q_min = self.p_min * self.qp_ratio
+        # A zero or negative Q/P flips the order of (or removes) the bounds.
+        q_bounds = [0.0, 0.0] if self.qp_ratio == 0 else [self.p_min * self.qp_ratio, self.p_max * self.qp_ratio]
+        self.q_min, self.q_max = min(q_bounds), max(q_bounds)
 
     def map_pq(self, p):
         """
-- 
2.43.0


From cd31a95dd08bdef1471d5f8ae33c1c46bf08ad97 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:56:07 +0000
Subject: [PATCH 03/30] fix: raise the device error for an unknown DEV_TYPE

---
 gym_anm/simulator/components/devices.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gym_anm/simulator/components/devices.py b/gym_anm/simulator/components/devices.py
index dd08914..c12d2d1 100644
--- a/gym_anm/simulator/components/devices.py
+++ b/gym_anm/simulator/components/devices.py
@@ -85,7 +85,7 @@ class Device(object):
         self.type = dev_spec[DEV_H["DEV_TYPE"]]
         allowed = [-1, 0, 1, 2, 3]
         if self.type is None or self.type not in allowed:
-            raise DeviceSpecError("The DEV_TYPE value for device %d should be" " in %s." % allowed)
+            raise DeviceSpecError("The DEV_TYPE value for device %d should be" " in %s." % (self.dev_id, allowed))
 
         if self.type == 0:
             self.is_slack = True
-- 
2.43.0


From aee755de411917ebe3208c586309c14594459740 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:56:07 +0000
Subject: [PATCH 04/30] fix: bound the available generation in MW by p_max

---
 gym_anm/simulator/simulator.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gym_anm/simulator/simulator.py b/gym_anm/simulator/simulator.py
index 1752905..ca79232 100644
--- a/gym_anm/simulator/simulator.py
+++ b/gym_anm/simulator/simulator.py
@@ -427,7 +427,7 @@ class Simulator(object):
                 }
             if isinstance(dev, Generator) and not dev.is_slack:
                 gen_p_max[dev_id] = {
-                    "MW": (dev.p_min * self.baseMVA, dev.q_max * self.baseMVA),
+                    "MW": (dev.p_min * self.baseMVA, dev.p_max * self.baseMVA),
                     "pu": (dev.p_min, dev.p_max),
                 }
 
-- 
2.43.0


From b7c9fd7cea9221b90565f611c304bdc370baf7ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:56:07 +0000
Subject: [PATCH 05/30] fix: units of branch_i_magn are a tuple

---
 gym_anm/simulator/components/constants.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gym_anm/simulator/components/constants.py b/gym_anm/simulator/components/constants.py
index 50b9596..ee55977 100644
--- a/gym_anm/simulator/components/constants.py
+++ b/gym_anm/simulator/components/constants.py
@@ -42,7 +42,7 @@ STATE_VARIABLES = {
     "branch_p": ("MW", "pu"),
     "branch_q": ("MVAr", "pu"),
     "branch_s": ("MVA", "pu"),
-    "branch_i_magn": ("pu"),
+    "branch_i_magn": ("pu",),
     "branch_i_ang": ("degree", "rad"),
     "aux": (None,),
 }
-- 
2.43.0


From 7ce110c3d864b6eac8681c1cad383bc7b3bfd1ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:56:07 +0000
Subject: [PATCH 06/30] fix: sign of the branch current magnitude

---
 gym_anm/simulator/simulator.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gym_anm/simulator/simulator.py b/gym_anm/simulator/simulator.py
index ca79232..48202c6 100644
--- a/gym_anm/simulator/simulator.py
+++ b/gym_anm/simulator/simulator.py
@@ -610,7 +610,7 @@ class Simulator(object):
             branch_s["pu"][(f, t)] = branch.s_apparent_max
             branch_s["MVA"][(f, t)] = branch.s_apparent_max * self.baseMVA
 
-            branch_i_magn["pu"][(f, t)] = np.sign(branch.i_from).real * np.abs(branch.i_from)
+            branch_i_magn["pu"][(f, t)] = np.sign(branch.i_from.real) * np.abs(branch.i_from)
 
             branch_i_ang["rad"][(f, t)] = np.angle(branch.i_from)
             branch_i_ang["degree"][(f, t)] = np.angle(branch.i_from) * 180 / np.pi
-- 
2.43.0


From f0a07b285f90ff1afd2f78efa98b8d6ef83429f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:56:07 +0000
Subject: [PATCH 07/30] fix: keep the initial state of charge within its limits

---
 gym_anm/simulator/simulator.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gym_anm/simulator/simulator.py b/gym_anm/simulator/simulator.py
index 48202c6..f129213 100644
--- a/gym_anm/simulator/simulator.py
+++ b/gym_anm/simulator/simulator.py
@@ -284,7 +284,7 @@ class Simulator(object):
         soc_idx = 0
         for dev in self.devices.values():
             if isinstance(dev, StorageUnit):
-                dev.soc = soc[soc_idx] / self.baseMVA
+                dev.soc = np.clip(soc[soc_idx] / self.baseMVA, dev.soc_min, dev.soc_max)
                 soc_idx += 1
 
         # 5. Re-construct the state dictionary after modifying the SoC.
-- 
2.43.0


From 70ba128b317d1cb15cd021fe7aa6e1f6f5d60614 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:56:07 +0000
Subject: [PATCH 08/30] fix: initialization error when no initial state is
 solvable

---
 gym_anm/envs/anm_env.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/gym_anm/envs/anm_env.py b/gym_anm/envs/anm_env.py
index 66fa8fb..623591b 100644
--- a/gym_anm/envs/anm_env.py
+++ b/gym_anm/envs/anm_env.py
@@ -281,10 +281,10 @@ class ANMEnv(gym.Env):
                 warnings.simplefilter("ignore", MatrixRankWarning)
                 init_state_found = self.simulator.reset(self.state)
 
-            if n_init_states == n_init_states_max:
+            if not init_state_found and n_init_states == n_init_states_max:
                 msg = "No non-terminal state found out of %d initial states for " "environment %s" % (
                     n_init_states_max,
-                    self.__name__,
+                    type(self).__name__,
                 )
                 raise EnvInitializationError(msg)
 
-- 
2.43.0


From 1889f6749bc9854ffabe23ac36128f28d5e88b5b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:56:07 +0000
Subject: [PATCH 09/30] fix: observation space of callable observations accepts
 float64

---
 gym_anm/envs/anm_env.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/gym_anm/envs/anm_env.py b/gym_anm/envs/anm_env.py
index 623591b..016ea2b 100644
--- a/gym_anm/envs/anm_env.py
+++ b/gym_anm/envs/anm_env.py
@@ -296,7 +296,9 @@ class ANMEnv(gym.Env):
 
         # Update the observation space bounds if required.
         if self.observation_space is None:
-            self.observation_space = spaces.Box(low=-np.ones(len(obs)) * np.inf, high=np.ones(len(obs)) * np.inf)
+            self.observation_space = spaces.Box(
+                low=-np.ones(len(obs)) * np.inf, high=np.ones(len(obs)) * np.inf, dtype=np.float64
+            )
             self.observation_N = self.observation_space.shape[0]
 
         err_msg = "Observation %r (%s) invalid." % (obs, type(obs))
-- 
2.43.0


From 5581596545f6e7065e2cdfd16d429e9e02fbda38 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:56:07 +0000
Subject: [PATCH 10/30] fix: observations do not alias the internal state

---
 gym_anm/envs/anm_env.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/gym_anm/envs/anm_env.py b/gym_anm/envs/anm_env.py
index 016ea2b..37d873c 100644
--- a/gym_anm/envs/anm_env.py
+++ b/gym_anm/envs/anm_env.py
@@ -292,7 +292,7 @@ class ANMEnv(gym.Env):
         self.state = self._construct_state()
 
         # Construct the initial observation vector.
-        obs = self.observation(self.state)
+        obs = self.observation(self.state.copy())
 
         # Update the observation space bounds if required.
         if self.observation_space is None:
@@ -438,7 +438,7 @@ class ANMEnv(gym.Env):
             for k in range(self.K):
                 self.state[k - self.K] = aux[k]
             self.state = self._construct_state()
-            obs = self.observation(self.state)
+            obs = self.observation(self.state.copy())
 
             err_msg = "Observation %r (%s) invalid." % (obs, type(obs))
             assert self.observation_space.contains(obs), err_msg
-- 
2.43.0


From 314bd5078c10548f771d1f78ee2270da3b510a5b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:56:07 +0000
Subject: [PATCH 11/30] fix: reject negative auxiliary variable indices

---
 gym_anm/envs/utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gym_anm/envs/utils.py b/gym_anm/envs/utils.py
index e54872a..1e82290 100644
--- a/gym_anm/envs/utils.py
+++ b/gym_anm/envs/utils.py
@@ -99,7 +99,7 @@ def _check_observation_vars(observation, state_bounds, K):
             pass
         elif key == "aux":
             for n in nodes:
-                if n >= K:
+                if n < 0 or n >= K:
                     raise ObsSpaceError("Aux variable index {} is out of bound " "for {} aux variables.".format(n, K))
         elif isinstance(nodes, list):
             for n in nodes:
-- 
2.43.0


From f065863df848a720df24aa66bd871b0b200370df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:56:07 +0000
Subject: [PATCH 12/30] fix: ANM6Easy initial state in MVAr and MWh

---
 gym_anm/envs/anm6_env/anm6_easy.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/gym_anm/envs/anm6_env/anm6_easy.py b/gym_anm/envs/anm6_env/anm6_easy.py
index b128e53..2812232 100644
--- a/gym_anm/envs/anm6_env/anm6_easy.py
+++ b/gym_anm/envs/anm6_env/anm6_easy.py
@@ -39,13 +39,13 @@ class ANM6Easy(ANM6):
         for idx, (dev_id, p_max) in enumerate(zip([2, 4], self.P_maxs)):
             state[2 * n_dev + n_des + idx] = p_max[t_0]
             state[dev_id] = p_max[t_0]
-            state[n_dev + dev_id] = self.np_random.uniform(
+            state[n_dev + dev_id] = self.simulator.baseMVA * self.np_random.uniform(
                 self.simulator.devices[dev_id].q_min, self.simulator.devices[dev_id].q_max
             )
 
         # Energy storage unit.
         for idx, dev_id in enumerate([6]):
-            state[2 * n_dev + idx] = self.np_random.uniform(
+            state[2 * n_dev + idx] = self.simulator.baseMVA * self.np_random.uniform(
                 self.simulator.devices[dev_id].soc_min, self.simulator.devices[dev_id].soc_max
             )
 
-- 
2.43.0


From eb33e3be5290bf5c6e4b598c4ed6869ad3023c4d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:56:07 +0000
Subject: [PATCH 13/30] fix: slack device balances the other devices of the
 slack bus

---
 gym_anm/simulator/solve_load_flow.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/gym_anm/simulator/solve_load_flow.py b/gym_anm/simulator/solve_load_flow.py
index 92f25ec..d12b93d 100644
--- a/gym_anm/simulator/solve_load_flow.py
+++ b/gym_anm/simulator/solve_load_flow.py
@@ -65,11 +65,12 @@ def solve_pfe_newton_raphson(simulator, xtol=1e-5):
             bus.p = s.real if not np.isnan(s.real) else np.inf
             bus.q = s.imag if not np.isnan(s.imag) else np.inf
 
-    # Update slack device injections.
+    # Update slack device injections (other devices may share the slack bus).
     for dev in simulator.devices.values():
         if dev.is_slack:
-            dev.p = simulator.buses[dev.bus_id].p
-            dev.q = simulator.buses[dev.bus_id].q
+            others = [d for d in simulator.devices.values() if d.bus_id == dev.bus_id and d is not dev]
+            dev.p = simulator.buses[dev.bus_id].p - sum(d.p for d in others)
+            dev.q = simulator.buses[dev.bus_id].q - sum(d.q for d in others)
 
     # Compute branch I_{ij}, P_{ij}, and Q_{ij} flows.
     for branch in simulator.branches.values():
-- 
2.43.0


From 462061ae161f22c16ec8f4b401318c5d7f7b372e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:59:38 +0000
Subject: [PATCH 14/30] fix: load flow with any bus numbering and slack
 position

---
 gym_anm/simulator/simulator.py       |  5 ++++-
 gym_anm/simulator/solve_load_flow.py | 26 ++++++++++++++------------
 2 files changed, 18 insertions(+), 13 deletions(-)

diff --git a/gym_anm/simulator/simulator.py b/gym_anm/simulator/simulator.py
index f129213..ecd534e 100644
--- a/gym_anm/simulator/simulator.py
+++ b/gym_anm/simulator/simulator.py
@@ -196,7 +196,10 @@ class Simulator(object):
             Y_bus[f, f] += (br.series + br.shunt) / (np.abs(br.tap) ** 2)
             Y_bus[t, t] += br.series + br.shunt
 
-        return csc_matrix(Y_bus)
+        # Only keep the rows and columns of existing buses (IDs may skip numbers).
+        bus_ids = list(self.buses.keys())
+
+        return csc_matrix(Y_bus[bus_ids, :][:, bus_ids])
 
     def _compute_bus_bounds(self):
         """
diff --git a/gym_anm/simulator/solve_load_flow.py b/gym_anm/simulator/solve_load_flow.py
index d12b93d..7c5257d 100644
--- a/gym_anm/simulator/solve_load_flow.py
+++ b/gym_anm/simulator/solve_load_flow.py
@@ -27,29 +27,31 @@ def solve_pfe_newton_raphson(simulator, xtol=1e-5):
         otherwise.
     """
 
+    # Positions of the buses in `simulator.Y_bus`, with the slack bus first.
+    buses = list(simulator.buses.values())
+    slack = [i for i, bus in enumerate(buses) if bus.is_slack][0]
+    order = [slack] + [i for i in range(len(buses)) if i != slack]
+
     # Collect P and Q nodal power injections (except slack bus).
     p, q = [], []
-    for i in range(simulator.N_bus):
-        if i in simulator.buses.keys():
-            if not simulator.buses[i].is_slack:
-                p.append(simulator.buses[i].p)
-                q.append(simulator.buses[i].q)
-        else:
-            p.append(0)
-            q.append(0)
+    for i in order[1:]:
+        p.append(buses[i].p)
+        q.append(buses[i].q)
 
     # Construct initial guess for nodal V.
     v_guess = [0.0] * (simulator.N_bus - 1) + [1.0] * (simulator.N_bus - 1)
     v_guess = np.array(v_guess)
 
     # Solve power flow equations using Netwon-Raphson method.
-    v, n_iter, diff, converged = _newton_raphson_sparse(v_guess, np.array(p), np.array(q), simulator.Y_bus, x_tol=xtol)
+    Y_bus = simulator.Y_bus[order, :][:, order]
+    v, n_iter, diff, converged = _newton_raphson_sparse(v_guess, np.array(p), np.array(q), Y_bus, x_tol=xtol)
 
     # Check if a stable solution has been reached.
     stable = True if converged and diff <= xtol else False
 
-    # Reconstruct complex V nodal vector.
-    V = _construct_v_from_guess(v)
+    # Reconstruct complex V nodal vector (in the order of `simulator.buses`).
+    V = np.zeros(len(buses), dtype=np.complex128)
+    V[order] = _construct_v_from_guess(v)
 
     # Compute nodal current injections as I = YV.
     I = np.dot(simulator.Y_bus.toarray(), V)
@@ -61,7 +63,7 @@ def solve_pfe_newton_raphson(simulator, xtol=1e-5):
 
         # Update slack bus power injection (set to np.inf if nan).
         if bus.is_slack:
-            s = V[0] * np.conj(I[0])
+            s = V[i] * np.conj(I[i])
             bus.p = s.real if not np.isnan(s.real) else np.inf
             bus.q = s.imag if not np.isnan(s.imag) else np.inf
 
-- 
2.43.0


From c5841e5d790fff68d8b23852837946146f96efd0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:59:44 +0000
Subject: [PATCH 15/30] fix: hold the slack bus at its reference voltage VMAX

---
 gym_anm/simulator/solve_load_flow.py | 37 +++++++++++++++++-----------
 1 file changed, 23 insertions(+), 14 deletions(-)

diff --git a/gym_anm/simulator/solve_load_flow.py b/gym_anm/simulator/solve_load_flow.py
index 7c5257d..5379fbc 100644
--- a/gym_anm/simulator/solve_load_flow.py
+++ b/gym_anm/simulator/solve_load_flow.py
@@ -44,14 +44,17 @@ def solve_pfe_newton_raphson(simulator, xtol=1e-5):
 
     # Solve power flow equations using Netwon-Raphson method.
     Y_bus = simulator.Y_bus[order, :][:, order]
-    v, n_iter, diff, converged = _newton_raphson_sparse(v_guess, np.array(p), np.array(q), Y_bus, x_tol=xtol)
+    v_slack = buses[slack].v_slack
+    v, n_iter, diff, converged = _newton_raphson_sparse(
+        v_guess, np.array(p), np.array(q), Y_bus, x_tol=xtol, v_slack=v_slack
+    )
 
     # Check if a stable solution has been reached.
     stable = True if converged and diff <= xtol else False
 
     # Reconstruct complex V nodal vector (in the order of `simulator.buses`).
     V = np.zeros(len(buses), dtype=np.complex128)
-    V[order] = _construct_v_from_guess(v)
+    V[order] = _construct_v_from_guess(v, v_slack)
 
     # Compute nodal current injections as I = YV.
     I = np.dot(simulator.Y_bus.toarray(), V)
@@ -84,7 +87,7 @@ def solve_pfe_newton_raphson(simulator, xtol=1e-5):
     return V, stable
 
 
-def _f(guess, p, q, Y):
+def _f(guess, p, q, Y, v_slack=1.0):
     """
     The function f(x) = 0 to be solved.
 
@@ -103,6 +106,8 @@ def _f(guess, p, q, Y):
         the slack bus.
     Y : scipy.sparse.csc_matrix
         The nodal admittance matrix of shape (N, N) as a sparse matrix.
+    v_slack : float, optional
+        The voltage magnitude of the slack bus (p.u.).
 
     Returns
     -------
@@ -111,8 +116,8 @@ def _f(guess, p, q, Y):
         F[N-1,...,2(N-1)] the imaginary part of f(x).
     """
 
-    # Construct nodal voltage vector V, setting V_slack = 1+0j.
-    v = _construct_v_from_guess(guess)
+    # Construct nodal voltage vector V, setting V_slack = v_slack+0j.
+    v = _construct_v_from_guess(guess, v_slack)
 
     # Compute the difference between V (YV)^* and the real power injections S.
     s = p + 1j * q
@@ -123,7 +128,7 @@ def _f(guess, p, q, Y):
     return F
 
 
-def _dfdx(guess, Y):
+def _dfdx(guess, Y, v_slack=1.0):
     """
     Compute the Jacobian matrix.
 
@@ -136,6 +141,8 @@ def _dfdx(guess, Y):
         excluded.
     Y : scipy.sparse.csc_matrix
         The nodal admittance matrix of shape (N, N) as a sparse matrix.
+    v_slack : float, optional
+        The voltage magnitude of the slack bus (p.u.).
 
     Returns
     -------
@@ -143,8 +150,8 @@ def _dfdx(guess, Y):
         The Jacobian matrix as a sparse matrix.
     """
 
-    # Construct nodal voltage vector V, setting V_slack = 1+0j.
-    v = _construct_v_from_guess(guess)
+    # Construct nodal voltage vector V, setting V_slack = v_slack+0j.
+    v = _construct_v_from_guess(guess, v_slack)
 
     index = np.array(range(len(v)))
 
@@ -167,16 +174,16 @@ def _dfdx(guess, Y):
     return J
 
 
-def _construct_v_from_guess(guess):
+def _construct_v_from_guess(guess, v_slack=1.0):
     assert len(guess) % 2 == 0
     n = int(len(guess) / 2)
     v_nonslack = guess[n:] * np.exp(1j * guess[:n])
-    v = np.concatenate((np.array([1 + 0j]), v_nonslack))
+    v = np.concatenate((np.array([v_slack + 0j]), v_nonslack))
 
     return v
 
 
-def _newton_raphson_sparse(v_guess, p, q, Y, x_tol=1e-10, lim_iter=100):
+def _newton_raphson_sparse(v_guess, p, q, Y, x_tol=1e-10, lim_iter=100, v_slack=1.0):
     """
     Solve f(x) = 0 with initial v_guess for x and dfdx(x).
 
@@ -202,6 +209,8 @@ def _newton_raphson_sparse(v_guess, p, q, Y, x_tol=1e-10, lim_iter=100):
         The tolerance to achieve in the solution.
     lim_iter : int
         The maximum number of iterations.
+    v_slack : float, optional
+        The voltage magnitude of the slack bus (p.u.).
 
     Returns:
     v_guess : numpy.ndarray
@@ -215,13 +224,13 @@ def _newton_raphson_sparse(v_guess, p, q, Y, x_tol=1e-10, lim_iter=100):
     """
 
     n_iter = 0
-    F = _f(v_guess, p, q, Y)
+    F = _f(v_guess, p, q, Y, v_slack)
     diff = norm(F, np.inf)
 
     while diff > x_tol and n_iter < lim_iter:
         n_iter += 1
-        v_guess = v_guess - spsolve(_dfdx(v_guess, Y), F)
-        F = _f(v_guess, p, q, Y)
+        v_guess = v_guess - spsolve(_dfdx(v_guess, Y, v_slack), F)
+        F = _f(v_guess, p, q, Y, v_slack)
         diff = norm(F, np.inf)
 
     converged = False if np.isnan(diff) else True
-- 
2.43.0


From b2062431f8c8678150febcce88746177e9bddfa1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:59:44 +0000
Subject: [PATCH 16/30] fix: fix the voltage angle of the slack bus in the DC
 OPF

---
 gym_anm/agents/mpc.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/gym_anm/agents/mpc.py b/gym_anm/agents/mpc.py
index 571af71..bd6f52b 100644
--- a/gym_anm/agents/mpc.py
+++ b/gym_anm/agents/mpc.py
@@ -298,8 +298,8 @@ class MPCAgent(object):
         constraints += _make_list_le_constraints([-np.pi] * self.n_bus, V_bus_ang)
         constraints += _make_list_le_constraints(V_bus_ang, [np.pi] * self.n_bus)
 
-        # V_angle[0] = 0
-        constraints.append(V_bus_ang[self.dev_id_mapping[self.slack_dev_id]] == 0.0)
+        # V_angle[slack] = 0
+        constraints.append(V_bus_ang[self.bus_id_mapping[self.dev_to_bus[self.slack_dev_id]]] == 0.0)
 
         # 4. Construct the objective function.
         cost_1 = 0.0
-- 
2.43.0


From 1523af881cb8be68c3ee405400dd3e0500551a13 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:00:35 +0000
Subject: [PATCH 17/30] fix: set-point constraints of devices with infinite
 limits

---
 gym_anm/simulator/components/devices.py | 26 +++++++++++++------------
 1 file changed, 14 insertions(+), 12 deletions(-)

diff --git a/gym_anm/simulator/components/devices.py b/gym_anm/simulator/components/devices.py
index c12d2d1..8d2972b 100644
--- a/gym_anm/simulator/components/devices.py
+++ b/gym_anm/simulator/components/devices.py
@@ -274,11 +274,12 @@ class Generator(Device):
             self.tau_1 = 0.0
             self.tau_2 = 0.0
         else:
-            self.tau_1 = (self.q_plus - self.q_max) / (self.p_max - self.p_plus)
-            self.tau_2 = (self.q_minus - self.q_min) / (self.p_max - self.p_plus)
+            self.tau_1 = (self.q_plus - self.q_max) / (self.p_max - self.p_plus) if self.q_plus != self.q_max else 0.0
+            self.tau_2 = (self.q_minus - self.q_min) / (self.p_max - self.p_plus) if self.q_minus != self.q_min else 0.0
 
-        self.rho_1 = self.q_max - self.tau_1 * self.p_plus
-        self.rho_2 = self.q_min - self.tau_2 * self.p_plus
+        # Without a slope, the limits (and p_plus) may be infinite.
+        self.rho_1 = self.q_max - self.tau_1 * self.p_plus if self.tau_1 != 0 else self.q_max
+        self.rho_2 = self.q_min - self.tau_2 * self.p_plus if self.tau_2 != 0 else self.q_min
 
     def map_pq(self, p, q):
         """
@@ -428,21 +429,22 @@ class StorageUnit(Device):
             self.tau_1 = 0.0
             self.tau_2 = 0.0
         else:
-            self.tau_1 = (self.q_plus - self.q_max) / (self.p_max - self.p_plus)
-            self.tau_2 = (self.q_minus - self.q_min) / (self.p_max - self.p_plus)
+            self.tau_1 = (self.q_plus - self.q_max) / (self.p_max - self.p_plus) if self.q_plus != self.q_max else 0.0
+            self.tau_2 = (self.q_minus - self.q_min) / (self.p_max - self.p_plus) if self.q_minus != self.q_min else 0.0
 
-        self.rho_1 = self.q_max - self.tau_1 * self.p_plus
-        self.rho_2 = self.q_min - self.tau_2 * self.p_plus
+        # Without a slope, the limits (and p_plus) may be infinite.
+        self.rho_1 = self.q_max - self.tau_1 * self.p_plus if self.tau_1 != 0 else self.q_max
+        self.rho_2 = self.q_min - self.tau_2 * self.p_plus if self.tau_2 != 0 else self.q_min
 
         if self.p_min == self.p_minus:
             self.tau_3 = 0.0
             self.tau_4 = 0.0
         else:
-            self.tau_3 = (self.q_min - self.q_minus) / (self.p_minus - self.p_min)
-            self.tau_4 = (self.q_max - self.q_plus) / (self.p_minus - self.p_min)
+            self.tau_3 = (self.q_min - self.q_minus) / (self.p_minus - self.p_min) if self.q_minus != self.q_min else 0.0
+            self.tau_4 = (self.q_max - self.q_plus) / (self.p_minus - self.p_min) if self.q_plus != self.q_max else 0.0
 
-        self.rho_3 = self.q_min - self.tau_3 * self.p_minus
-        self.rho_4 = self.q_max - self.tau_4 * self.p_minus
+        self.rho_3 = self.q_min - self.tau_3 * self.p_minus if self.tau_3 != 0 else self.q_min
+        self.rho_4 = self.q_max - self.tau_4 * self.p_minus if self.tau_4 != 0 else self.q_max
 
         self.soc_min = dev_spec[DEV_H["SOC_MIN"]]
         if self.soc_min is None:
-- 
2.43.0


From 0cec58c9f9cc6b3a44df00b434351a44e10461d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:22:51 +0000
Subject: [PATCH 18/30] fix: direction of the apparent power of a branch
 without active flow

The sign is documented as + if P_ij >= 0 and - otherwise; np.sign made the
reported flow 0 when P_ij is exactly 0.
---
 gym_anm/simulator/components/branch.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gym_anm/simulator/components/branch.py b/gym_anm/simulator/components/branch.py
index e2d1d08..21c7ac0 100644
--- a/gym_anm/simulator/components/branch.py
+++ b/gym_anm/simulator/components/branch.py
@@ -195,4 +195,4 @@ class TransmissionLine(object):
         self.q_to = s_to.imag
 
         # Compute directed apparent power flow.
-        self.s_apparent_max = np.sign(self.p_from) * np.maximum(np.abs(s_from), np.abs(s_to))
+        self.s_apparent_max = np.where(self.p_from >= 0, 1.0, -1.0) * np.maximum(np.abs(s_from), np.abs(s_to))
-- 
2.43.0


From c5727ccb2d3c2bac43b90a88db3fc5ea4536e28c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:24:21 +0000
Subject: [PATCH 19/30] fix: magnitude of a purely reactive branch current

np.sign made the reported magnitude 0 when the real part is exactly 0.
---
 gym_anm/simulator/simulator.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/gym_anm/simulator/simulator.py b/gym_anm/simulator/simulator.py
index ecd534e..3179a84 100644
--- a/gym_anm/simulator/simulator.py
+++ b/gym_anm/simulator/simulator.py
@@ -613,7 +613,8 @@ class Simulator(object):
             branch_s["pu"][(f, t)] = branch.s_apparent_max
             branch_s["MVA"][(f, t)] = branch.s_apparent_max * self.baseMVA
 
-            branch_i_magn["pu"][(f, t)] = np.sign(branch.i_from.real) * np.abs(branch.i_from)
+            direction = np.where(branch.i_from.real >= 0, 1.0, -1.0)
+            branch_i_magn["pu"][(f, t)] = direction * np.abs(branch.i_from)
 
             branch_i_ang["rad"][(f, t)] = np.angle(branch.i_from)
             branch_i_ang["degree"][(f, t)] = np.angle(branch.i_from) * 180 / np.pi
-- 
2.43.0


From bd49330388b06b73072062a4fde2c6c8f67921fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:32:13 +0000
Subject: [PATCH 20/30] fix: raise the bus error for a missing BUS_ID or an
 invalid BUS_TYPE

---
 gym_anm/simulator/components/bus.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/gym_anm/simulator/components/bus.py b/gym_anm/simulator/components/bus.py
index c833915..9f411fd 100644
--- a/gym_anm/simulator/components/bus.py
+++ b/gym_anm/simulator/components/bus.py
@@ -40,7 +40,11 @@ class Bus(object):
             The corresponding bus row in the network file describing the network.
         """
 
+        if bus_spec[BUS_H["BUS_ID"]] is None:
+            raise BusSpecError("The BUS_ID value of a bus should not be None")
         self.id = int(bus_spec[BUS_H["BUS_ID"]])
+        if bus_spec[BUS_H["BUS_TYPE"]] not in [0, 1]:
+            raise BusSpecError("The BUS_TYPE value for bus %d should be in [0, 1]" % (self.id))
         self.type = int(bus_spec[BUS_H["BUS_TYPE"]])
         self.baseKV = bus_spec[BUS_H["BASE_KV"]]
         self.v_max = bus_spec[BUS_H["VMAX"]]
@@ -82,9 +86,6 @@ class Bus(object):
 
     def _check_input_specs(self):
 
-        if self.type is None or self.type not in [0, 1]:
-            raise BusSpecError("The BUS_TYPE value for bus %d should be in [0, 1]" % (self.id))
-
         if self.baseKV is None or self.baseKV <= 0:
             raise BusSpecError("The BASE_KV value for bus %d should be > 0" % (self.id))
 
-- 
2.43.0


From 92368346692300e020fbb04aed6154602e9416f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:32:25 +0000
Subject: [PATCH 21/30] fix: raise the device error for a slack device without
 BUS_ID

---
 gym_anm/simulator/check_network.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gym_anm/simulator/check_network.py b/gym_anm/simulator/check_network.py
index 2a7e890..8a84b17 100644
--- a/gym_anm/simulator/check_network.py
+++ b/gym_anm/simulator/check_network.py
@@ -33,7 +33,7 @@ def check_network_specs(network):
     bus_of_dev = network["device"][np.where(np.array(dev_types) == 0)[0], DEV_H["BUS_ID"]]
     if slack_bus != bus_of_dev:
         raise DeviceSpecError(
-            "The slack bus ID of the slack device is %d but the actual slack bus has ID %d." % (bus_of_dev, slack_bus)
+            "The slack bus ID of the slack device is %s but the actual slack bus has ID %s." % (bus_of_dev, slack_bus)
         )
 
     # Check buses have unique IDs.
-- 
2.43.0


From 7b1dfffb06fa5a5927e3dd8aa5ec723c236fd988 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:34:00 +0000
Subject: [PATCH 22/30] fix: slack bus without VMIN has no lower voltage limit

It is accepted, but the first transition failed on comparing with None.
---
 gym_anm/simulator/components/bus.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/gym_anm/simulator/components/bus.py b/gym_anm/simulator/components/bus.py
index 9f411fd..8672712 100644
--- a/gym_anm/simulator/components/bus.py
+++ b/gym_anm/simulator/components/bus.py
@@ -95,6 +95,8 @@ class Bus(object):
         if self.v_min is None or self.v_min < 0:
             if not self.is_slack:
                 raise BusSpecError("The VMIN value for bus %d should be >= 0" % (self.id))
+            elif self.v_min is None:
+                self.v_min = 0.0  # no lower limit
 
         if not self.is_slack and self.v_max < self.v_min:
             raise BusSpecError("Bus %d has VMAX < VMIN" % (self.id))
-- 
2.43.0


From 93c092b5b18d4a9331dd7808d61b605684d1b6eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:18:11 +0000
Subject: [PATCH 23/30] fix: reject auxiliary elements of observations that are
 not a list

---
 gym_anm/envs/utils.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/gym_anm/envs/utils.py b/gym_anm/envs/utils.py
index 1e82290..892deeb 100644
--- a/gym_anm/envs/utils.py
+++ b/gym_anm/envs/utils.py
@@ -97,18 +97,18 @@ def _check_observation_vars(observation, state_bounds, K):
         nodes = obs[1]
         if isinstance(nodes, str) and nodes == "all":
             pass
+        elif not isinstance(nodes, list):
+            raise ObsSpaceError()
         elif key == "aux":
             for n in nodes:
                 if n < 0 or n >= K:
                     raise ObsSpaceError("Aux variable index {} is out of bound " "for {} aux variables.".format(n, K))
-        elif isinstance(nodes, list):
+        else:
             for n in nodes:
                 if n not in state_bounds[key].keys():
                     raise ObsSpaceError(
                         "Observation {} is not supported for " "device/branch/bus with ID {}.".format(key, n)
                     )
-        else:
-            raise ObsSpaceError()
 
         # Check that the unit specified is supported.
         if len(obs) == 3:
-- 
2.43.0


From 9f1e24c6814f4cfe89cb05aaa0ad8bd7a4e266d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:19:37 +0000
Subject: [PATCH 24/30] fix: a step does not overwrite the previous state
 vector

---
 gym_anm/envs/anm_env.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/gym_anm/envs/anm_env.py b/gym_anm/envs/anm_env.py
index 37d873c..2db2442 100644
--- a/gym_anm/envs/anm_env.py
+++ b/gym_anm/envs/anm_env.py
@@ -435,6 +435,7 @@ class ANMEnv(gym.Env):
 
         # 4. Construct the state and observation vector.
         if not self.terminated:
+            self.state = self.state.copy()
             for k in range(self.K):
                 self.state[k - self.K] = aux[k]
             self.state = self._construct_state()
-- 
2.43.0


From aafaa970a4fd52bf25daab8950168a08bbedd07d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:26:48 +0000
Subject: [PATCH 25/30] fix: advance the displayed date by the whole time step

---
 gym_anm/envs/anm6_env/anm6.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gym_anm/envs/anm6_env/anm6.py b/gym_anm/envs/anm6_env/anm6.py
index 6b68658..967edf6 100644
--- a/gym_anm/envs/anm6_env/anm6.py
+++ b/gym_anm/envs/anm6_env/anm6.py
@@ -35,7 +35,7 @@ class ANM6(ANMEnv):
 
         # Rendering variables.
         self.network_specs = self.simulator.get_rendering_specs()
-        self.timestep_length = dt.timedelta(minutes=int(60 * delta_t))
+        self.timestep_length = dt.timedelta(hours=delta_t)
         self.date = None
         self.date_init = None
         self.year_count = 0
-- 
2.43.0


From 06a0a7ec0807c28f5cdfa90136048aba396404f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:29:45 +0000
Subject: [PATCH 26/30] fix: default range of unlimited costs in the rendering

---
 gym_anm/envs/anm6_env/anm6.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/gym_anm/envs/anm6_env/anm6.py b/gym_anm/envs/anm6_env/anm6.py
index 967edf6..47cd99e 100644
--- a/gym_anm/envs/anm6_env/anm6.py
+++ b/gym_anm/envs/anm6_env/anm6.py
@@ -178,8 +178,8 @@ class ANM6(ANMEnv):
             soc_max.append(network_specs["des_soc"][i]["MWh"][1])
 
         # Set default costs range if not specified.
-        c1 = 100 if self.costs_clipping[0] is None else self.costs_clipping[0]
-        c2 = 10000 if self.costs_clipping[1] is None else self.costs_clipping[1]
+        c1 = 100 if np.isinf(self.costs_clipping[0]) else self.costs_clipping[0]
+        c2 = 10000 if np.isinf(self.costs_clipping[1]) else self.costs_clipping[1]
         costs_range = (c1, c2)
 
         self.http_server, self.ws_server = rendering.start(
-- 
2.43.0


From 2b637c325ca55ba9dd09d0137c4144188f143513 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:06:14 +0000
Subject: [PATCH 27/30] fix: the MPC agent accepts networks without loads,
 generators or storage

---
 gym_anm/agents/mpc.py | 23 +++++++++++++++++------
 1 file changed, 17 insertions(+), 6 deletions(-)

diff --git a/gym_anm/agents/mpc.py b/gym_anm/agents/mpc.py
index bd6f52b..3e49829 100644
--- a/gym_anm/agents/mpc.py
+++ b/gym_anm/agents/mpc.py
@@ -102,9 +102,10 @@ class MPCAgent(object):
         self.P_dev_vars = []
 
         # Define time-varying parameters.
-        self.P_load_forecast = cp.Parameter((self.n_load, self.planning_steps))
-        self.P_gen_forecast = cp.Parameter((self.n_gen - 1, self.planning_steps), nonneg=True)
-        self.init_soc = cp.Parameter(self.n_des, nonneg=True)
+        # (cvxpy does not support parameters without any elements.)
+        self.P_load_forecast = _make_parameter((self.n_load, self.planning_steps))
+        self.P_gen_forecast = _make_parameter((self.n_gen - 1, self.planning_steps), nonneg=True)
+        self.init_soc = _make_parameter((self.n_des,), nonneg=True)
 
         # Define constants.
         bus_ids = [self.bus_id_mapping[i] for i in self.bus_ids]
@@ -412,11 +413,21 @@ class MPCAgent(object):
 
         # Update the parameters of the optimization problem with the
         # forecasted values.
-        self.P_load_forecast.value = np.array(P_load_forecasts)
-        self.P_gen_forecast.value = np.array(P_gen_forecasts)
+        if self.n_load > 0:
+            self.P_load_forecast.value = np.array(P_load_forecasts)
+        if self.n_gen > 1:
+            self.P_gen_forecast.value = np.array(P_gen_forecasts)
 
         # Set the initial state of charge of DES units.
-        self.init_soc.value = [simulator.state["des_soc"]["pu"][i] for i in self.des_ids]
+        if self.n_des > 0:
+            self.init_soc.value = [simulator.state["des_soc"]["pu"][i] for i in self.des_ids]
+
+
+def _make_parameter(shape, **kwargs):
+    """Create a cvxpy parameter, or an empty array if it has no elements."""
+    if 0 in shape:
+        return np.zeros(shape)
+    return cp.Parameter(shape, **kwargs)
 
 
 def _make_list_eq_constraints(a, b):
-- 
2.43.0


From e9d81065aaf124c83ef528a31df94aceab8b371b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:06:14 +0000
Subject: [PATCH 28/30] fix: the MPC agent does not plan more charge than a
 storage unit can take

---
 gym_anm/agents/mpc.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/gym_anm/agents/mpc.py b/gym_anm/agents/mpc.py
index 3e49829..6fa172e 100644
--- a/gym_anm/agents/mpc.py
+++ b/gym_anm/agents/mpc.py
@@ -289,7 +289,10 @@ class MPCAgent(object):
             delta_soc_discharging = -p_discharging * self.delta_t / self.des_eff[i]
             new_soc = soc_prev[i] + delta_soc_charging + delta_soc_discharging
             new_socs.append(new_soc)
-            c.append(P_dev[self.dev_id_mapping[des]] == p_discharging - p_charging)
+            p_des = P_dev[self.dev_id_mapping[des]]
+            c.append(p_des == p_discharging - p_charging)
+            c.append(p_des >= (soc_prev[i] - self.soc_max[i]) / (self.delta_t * self.des_eff[i]))
+            c.append(p_des <= (soc_prev[i] - self.soc_min[i]) * self.des_eff[i] / self.delta_t)
 
         constraints += c
         constraints += _make_list_le_constraints(self.soc_min, new_socs)
-- 
2.43.0


From d7b8462c2b056e4297f65663e6dc00c54dbf2c3f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:06:14 +0000
Subject: [PATCH 29/30] fix: unlimited devices and branches in the MPC problem

---
 gym_anm/agents/mpc.py | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/gym_anm/agents/mpc.py b/gym_anm/agents/mpc.py
index 6fa172e..0a6641e 100644
--- a/gym_anm/agents/mpc.py
+++ b/gym_anm/agents/mpc.py
@@ -313,7 +313,8 @@ class MPCAgent(object):
 
         cost_2 = 0.0
         for p, rate in zip(P_branch, self.branch_rate):
-            cost_2 += cp.maximum(0, cp.abs(p) - self.safety_margin * rate)
+            if not np.isinf(rate):
+                cost_2 += cp.maximum(0, cp.abs(p) - self.safety_margin * rate)
 
         obj = cost_1 + self.lamb * cost_2
 
@@ -445,11 +446,16 @@ def _make_list_eq_constraints(a, b):
 
 
 def _make_list_le_constraints(a, b):
-    """Create a list of cvxpy less than or equal (<=) equality constraints."""
+    """Create a list of cvxpy less than or equal (<=) equality constraints (except with infinite limits)."""
     if isinstance(a, list):
         n = len(a)
     elif isinstance(b, list):
         n = len(b)
     else:
         raise ValueError()
-    return [a[i] <= b[i] for i in range(n)]
+    return [a[i] <= b[i] for i in range(n) if not (_is_infinite(a[i]) or _is_infinite(b[i]))]
+
+
+def _is_infinite(x):
+    """Whether the given number (or cvxpy expression) is an infinite number."""
+    return not isinstance(x, cp.Expression) and np.isinf(x)
-- 
2.43.0


From 6118c3c5b8dd388f0a1e3177b80ed658aff3ff5a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:06:45 +0000
Subject: [PATCH 30/30] fix: resetting the displayed date also resets the year
 count

---
 gym_anm/envs/anm6_env/anm6.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/gym_anm/envs/anm6_env/anm6.py b/gym_anm/envs/anm6_env/anm6.py
index 47cd99e..4baf54b 100644
--- a/gym_anm/envs/anm6_env/anm6.py
+++ b/gym_anm/envs/anm6_env/anm6.py
@@ -144,6 +144,7 @@ class ANM6(ANMEnv):
         """Reset the date displayed in the visualization (and the year count)."""
         self.date_init = date_init
         self.date = date_init
+        self.year_count = 0
 
     def _init_render(self, network_specs):
         """
-- 
2.43.0

