From a0eb72ff7257af32bfe58fa00269cf24e049c243 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:01:08 +0000
Subject: [PATCH 01/28] fix: write checkpoints atomically and report failed
 writes

A write error while a state or solver configuration was saved could be
swallowed (numpy's tofile ignores a failing close), leaving a file that
loads with wrong data, and a crash during a save destroyed the previous
checkpoint of that step. Serialise in memory, write and sync a temporary
file, then rename it over the target.
---
 hydraxmpm/common/sim_io.py | 51 +++++++++++++++++++++++++++++++++++---
 1 file changed, 47 insertions(+), 4 deletions(-)

diff --git a/hydraxmpm/common/sim_io.py b/hydraxmpm/common/sim_io.py
index af5e78f..9ae93e6 100644
--- a/hydraxmpm/common/sim_io.py
+++ b/hydraxmpm/common/sim_io.py
@@ -13,12 +13,53 @@ Explanation:
     It allows files to be loaded/saved as .eqx files using Equinox's serialization utilities.
 """
 
+import io
 import os
 import shutil
 import json
+import threading
 import equinox as eqx
 from datetime import datetime
 
+
+def _write_atomic(path, data):
+    """
+    Replaces the file at `path` with `data`.
+
+    The bytes are written to a temporary file in the same directory and synced
+    before it is renamed over `path`. So a crash or a failing disk leaves either the
+    previous file or the complete new one, and any write error is raised.
+    """
+    tmp_path = f"{path}.{os.getpid()}.{threading.get_ident()}.tmp"
+    try:
+        with open(tmp_path, "wb") as f:
+            f.write(data)
+            f.flush()
+            os.fsync(f.fileno())
+        os.replace(tmp_path, path)
+    except BaseException:
+        try:
+            os.unlink(tmp_path)
+        except OSError:
+            pass
+        raise
+
+    # make the rename itself durable (directories cannot be opened on Windows)
+    if os.name == "posix":
+        dir_fd = os.open(os.path.dirname(path) or ".", os.O_RDONLY)
+        try:
+            os.fsync(dir_fd)
+        finally:
+            os.close(dir_fd)
+
+
+def _serialise_leaves(pytree):
+    """Serialises the leaves of a pytree in memory (see `_write_atomic`)."""
+    buffer = io.BytesIO()
+    eqx.tree_serialise_leaves(buffer, pytree)
+    return buffer.getvalue()
+
+
 class SimIO:
     """
 
@@ -96,7 +137,7 @@ class SimIO:
             meta_info: Optional dictionary of extra metadata to save as JSON.
         """
         path = os.path.join(self.output_dir, "solver_config.eqx")
-        eqx.tree_serialise_leaves(path, solver)
+        solver_bytes = _serialise_leaves(solver)
         
         # Optionally save human readable metadata
         meta = {
@@ -106,8 +147,10 @@ class SimIO:
         if meta_info:
             meta.update(meta_info)
             
-        with open(os.path.join(self.output_dir, "metadata.json"), "w") as f:
-            json.dump(meta, f, indent=4)
+        meta_bytes = json.dumps(meta, indent=4).encode()
+
+        _write_atomic(path, solver_bytes)
+        _write_atomic(os.path.join(self.output_dir, "metadata.json"), meta_bytes)
             
         print(f"Saved Solver Configuration to solver_config.eqx")
 
@@ -126,7 +169,7 @@ class SimIO:
         path = os.path.join(self.output_dir, filename)
         
         # This saves arrays compressed and fast
-        eqx.tree_serialise_leaves(path, state)
+        _write_atomic(path, _serialise_leaves(state))
 
 
         if verbose:
-- 
2.43.0


From d736a3c6a9aa1fc556de9bf22e5820b2f41d3ca4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:01:08 +0000
Subject: [PATCH 02/28] fix: keep force states in step with colliders and
 honour their friction

add_sdf_collider registered a force without a force state, so a gravity or
damping added after it indexed past (or into the wrong entry of) the force
states. It also dropped its friction argument; every collider acted with the
default factor of 1, which stays the default.
---
 hydraxmpm/common/builder.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/hydraxmpm/common/builder.py b/hydraxmpm/common/builder.py
index a9476b8..98e2cc3 100644
--- a/hydraxmpm/common/builder.py
+++ b/hydraxmpm/common/builder.py
@@ -424,7 +424,7 @@ class SimBuilder:
         self,
         sdf_idx: int = None,
         g_idx_list: list[int] = None,
-        friction: float = 0.0,
+        friction: float = 1.0,
         gap: float = 1e-4,
     ):
         """Convenience method for adding objects."""
@@ -440,10 +440,12 @@ class SimBuilder:
             sdf_idx=sdf_idx,
             g_idx_list=g_idx_list,
             gap=gap,
+            friction=friction,
         )
 
         f_idx = self.force_logics.add(sdf_collider)
 
+        self.force_states.append(None)  # Stateless force
         return f_idx
 
     def summary(self, dt: float = None):
-- 
2.43.0


From 1aea19700283b8023ab5339c8bbb9a931152fd9e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:01:08 +0000
Subject: [PATCH 03/28] fix: give the solver the grids and laws its couplings
 index

set_solver built one grid and one law per coupling, while the solver looks
them up by g_idx and c_idx. Bodies got the wrong law or grid (or an index
error) whenever bodies, laws and grids were not registered in the same order.
---
 hydraxmpm/common/builder.py | 10 +++-------
 1 file changed, 3 insertions(+), 7 deletions(-)

diff --git a/hydraxmpm/common/builder.py b/hydraxmpm/common/builder.py
index 98e2cc3..07fde0a 100644
--- a/hydraxmpm/common/builder.py
+++ b/hydraxmpm/common/builder.py
@@ -319,13 +319,9 @@ class SimBuilder:
         sdf_logics = tuple(self.sdf_logics[i] for i in sdf_idx_list)
 
 
-        grid_domains = tuple(self.grid_domains[coupling.g_idx] for coupling in couplings)
-
-        # law can be None if rigid particles are used
-        laws = tuple(
-            self.law_logics[coupling.c_idx] if coupling.c_idx is not None else None
-            for coupling in couplings
-        )
+        # couplings index these by g_idx and c_idx
+        grid_domains = tuple(self.grid_domains)
+        laws = tuple(self.law_logics)
 
         if scheme.lower() == "usl":
             solver = USLSolver(
-- 
2.43.0


From a89614d58ba746c4935e3049ca8555cb9ed2b55d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:01:08 +0000
Subject: [PATCH 04/28] fix: read and write AFLIP solver state by its own index

_g2p used the material point index, _p2g the solver state index; with
couplings in another order than bodies the affine state of one body was
written to another.
---
 hydraxmpm/solvers/usl_asflip.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/hydraxmpm/solvers/usl_asflip.py b/hydraxmpm/solvers/usl_asflip.py
index 26e61c1..41b55b5 100644
--- a/hydraxmpm/solvers/usl_asflip.py
+++ b/hydraxmpm/solvers/usl_asflip.py
@@ -311,7 +311,7 @@ class USLAFLIP(USLSolver):
             grid_domain = self.grid_domains[c.g_idx]
             mp_state = mp_states[c.p_idx]
             intr_cache = sim_cache.interactions[(c.p_idx, c.g_idx)]
-            solver_state = solver_states[c.p_idx]
+            solver_state = solver_states[c.s_idx]
 
             # --- Operations in interaction space ---
             # Gather grid data
@@ -542,7 +542,7 @@ class USLAFLIP(USLSolver):
                 (p_velocity_next, p_position_next, p_volume_next, p_F_next, p_L_next, p_F_store_next),
             )
 
-            solver_states[c.p_idx] = eqx.tree_at(
+            solver_states[c.s_idx] = eqx.tree_at(
                 lambda s: s.Bp_stack, solver_state, p_Bp
             )
 
-- 
2.43.0


From 0f85ed1505844460b371ddc7d84ed53db31e61ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:01:08 +0000
Subject: [PATCH 05/28] fix: keep the volume of a single-particle body an array

squeeze() turned the (1,) volume stack of a body with one particle into a
scalar, and the next step failed.
---
 hydraxmpm/solvers/usl.py        | 2 +-
 hydraxmpm/solvers/usl_asflip.py | 4 +---
 2 files changed, 2 insertions(+), 4 deletions(-)

diff --git a/hydraxmpm/solvers/usl.py b/hydraxmpm/solvers/usl.py
index c5ccdfb..ba6af83 100644
--- a/hydraxmpm/solvers/usl.py
+++ b/hydraxmpm/solvers/usl.py
@@ -714,7 +714,7 @@ class USLSolver(BaseSolver):
                 p_F_next = p_F_next.at[:, 2, 2].set(1.0)
 
             J = jnp.linalg.det(p_F_next)
-            p_volume_next = (J[:, None] * mp_state.volume0_stack[:, None]).squeeze()
+            p_volume_next = J * mp_state.volume0_stack
             mp_state = eqx.tree_at(
                 lambda s: (
                     s.velocity_stack,
diff --git a/hydraxmpm/solvers/usl_asflip.py b/hydraxmpm/solvers/usl_asflip.py
index 41b55b5..375c093 100644
--- a/hydraxmpm/solvers/usl_asflip.py
+++ b/hydraxmpm/solvers/usl_asflip.py
@@ -507,9 +507,7 @@ class USLAFLIP(USLSolver):
 
             J_next = jnp.linalg.det(p_F_next)
 
-            p_volume_next = (
-                J_next[:, None] * mp_state.volume0_stack[:, None]
-            ).squeeze()
+            p_volume_next = J_next * mp_state.volume0_stack
 
             # Separable correction to avoid avoid positional trap
             # Use a mix of PIC and FLIP specifically for position to avoid noise
-- 
2.43.0


From 958fa332d5709a4c4f7b27a18354d160639ec4e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:01:08 +0000
Subject: [PATCH 06/28] fix: gravity on particles used a missing attribute

Gravity has p_idx_list, not p_idx; is_apply_on_grid=False raised an
AttributeError.
---
 hydraxmpm/forces/gravity.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hydraxmpm/forces/gravity.py b/hydraxmpm/forces/gravity.py
index 38a2af0..8821397 100644
--- a/hydraxmpm/forces/gravity.py
+++ b/hydraxmpm/forces/gravity.py
@@ -164,7 +164,7 @@ class Gravity(Force):
                 (mp_state.force_stack + gravity_impulse),
             )
 
-            mp_states[self.p_idx] = mp_state
+            mp_states[p_idx] = mp_state
 
         f_states[self.f_idx] = f_state
 
-- 
2.43.0


From 3f56caa62d730c206e8df25942d53ebd67503abd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:01:08 +0000
Subject: [PATCH 07/28] fix: Drucker-Prager critical time step read a missing
 attribute

---
 hydraxmpm/constitutive_laws/druckerprager.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hydraxmpm/constitutive_laws/druckerprager.py b/hydraxmpm/constitutive_laws/druckerprager.py
index 2a9142b..91afc84 100644
--- a/hydraxmpm/constitutive_laws/druckerprager.py
+++ b/hydraxmpm/constitutive_laws/druckerprager.py
@@ -208,7 +208,7 @@ class DruckerPrager(ConstitutiveLaw):
 
     def get_dt_crit(self, mp_state: MaterialPointState, cell_size: float, alpha: float = 0.5):
         """Critical timestep for stability based on P-wave speed."""
-        rho_stack = mp_state.rho_stack
+        rho_stack = mp_state.density_stack
 
         c_p = jnp.sqrt((self.K + (4.0 / 3.0) * self.G) / rho_stack)
         
-- 
2.43.0


From b39c4a7d9a13b409bad1c298cc45c6090972b863 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:01:33 +0000
Subject: [PATCH 08/28] fix: USL with a collider and a single-particle body

squeeze() dropped the particle axis of the distances when a body has one
particle and the closest-collider lookup failed.
---
 hydraxmpm/solvers/usl.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hydraxmpm/solvers/usl.py b/hydraxmpm/solvers/usl.py
index ba6af83..8c0871d 100644
--- a/hydraxmpm/solvers/usl.py
+++ b/hydraxmpm/solvers/usl.py
@@ -616,7 +616,7 @@ class USLSolver(BaseSolver):
                 # Find Closest SDF for each Particle (Particle Space)
                 dists_stack = jnp.stack(
                     [
-                        sim_cache.mp_geoms[(c.p_idx, s)].dists.squeeze()
+                        sim_cache.mp_geoms[(c.p_idx, s)].dists.reshape(-1)
                         for s in range(num_sdfs)
                     ]
                 )
-- 
2.43.0


From e4df9d6cf5082c1760a2050b0bc4f47bb8d2c5d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:02:19 +0000
Subject: [PATCH 09/28] fix: classic APIC update in the AFLIP solver

use_mls_update=False read a missing coupling attribute, and its velocity
gradient had the opposite sign of the (compression positive) MLS one.
---
 hydraxmpm/solvers/usl_asflip.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/hydraxmpm/solvers/usl_asflip.py b/hydraxmpm/solvers/usl_asflip.py
index 375c093..1fb73eb 100644
--- a/hydraxmpm/solvers/usl_asflip.py
+++ b/hydraxmpm/solvers/usl_asflip.py
@@ -409,7 +409,8 @@ class USLAFLIP(USLSolver):
                 dist_vec_phys = -1.0 * intr_cache.rel_dist *grid_domain.cell_size
 
                 # shape_vals (N,) * outer(v (N,3), dist (N,3)) -> (N,3,3)
-                weighted_Bp_term = intr_cache.shape_vals[:, None, None] * jnp.einsum(
+                # compression positive, as in the MLS update
+                weighted_Bp_term = -intr_cache.shape_vals[:, None, None] * jnp.einsum(
                     "ni,nj->nij", intr_vels_nt_3d, dist_vec_phys
                 )
 
@@ -444,7 +445,7 @@ class USLAFLIP(USLSolver):
             else:
                 # classic APIC needs the inverse of Dp, where
                 # Dp = 1/4 * dx^2 * I (Quadratic) or 1/3 * dx^2 * I (Cubic)
-                if c.shapefunction == "cubic":
+                if c.shape_map.shapefunction == "cubic":
                     coeff = 1.0 / 3.0
                 else:
                     coeff = 1.0 / 4.0
-- 
2.43.0


From 5d3f1aa4c7e179f3931b93c2a42c228020a0e7d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:43:40 +0000
Subject: [PATCH 10/28] fix: add up the forces of bodies that share a grid

P2G started each body's nodal forces from zero, so the internal and particle
forces of all but the last body coupled to a grid were dropped.
---
 hydraxmpm/solvers/usl.py        | 4 +---
 hydraxmpm/solvers/usl_asflip.py | 4 +---
 2 files changed, 2 insertions(+), 6 deletions(-)

diff --git a/hydraxmpm/solvers/usl.py b/hydraxmpm/solvers/usl.py
index 8c0871d..f8e18ed 100644
--- a/hydraxmpm/solvers/usl.py
+++ b/hydraxmpm/solvers/usl.py
@@ -493,9 +493,7 @@ class USLSolver(BaseSolver):
             )
 
             grid_force_stack = (
-                jnp.zeros_like(grid_cache.moment_stack)
-                .at[intr_cache.node_hashes]
-                .add(weighted_intern_force_stack + weighted_ext_force_stack)
+                grid_cache.force_stack.at[intr_cache.node_hashes].add(weighted_intern_force_stack + weighted_ext_force_stack)
             )
 
             grids[c.g_idx] = eqx.tree_at(
diff --git a/hydraxmpm/solvers/usl_asflip.py b/hydraxmpm/solvers/usl_asflip.py
index 1fb73eb..36666a9 100644
--- a/hydraxmpm/solvers/usl_asflip.py
+++ b/hydraxmpm/solvers/usl_asflip.py
@@ -267,9 +267,7 @@ class USLAFLIP(USLSolver):
                 weighted_moment_stack
             )
             grid_force_stack = (
-                jnp.zeros_like(grid_cache.moment_stack)
-                .at[intr_cache.node_hashes]
-                .add(total_intr_force)
+                grid_cache.force_stack.at[intr_cache.node_hashes].add(total_intr_force)
             )
 
             grids[c.g_idx] = eqx.tree_at(
-- 
2.43.0


From 0cf46550a6cd5e0f4f8184247862a49c90ba5f91 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:05:38 +0000
Subject: [PATCH 11/28] fix: raise when a VTK frame cannot be written
 completely

---
 hydraxmpm/common/vtk_io.py | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/hydraxmpm/common/vtk_io.py b/hydraxmpm/common/vtk_io.py
index 3a086dd..d34a730 100644
--- a/hydraxmpm/common/vtk_io.py
+++ b/hydraxmpm/common/vtk_io.py
@@ -4,6 +4,8 @@ import os
 import sys
 
 import pyvista as pv
+from vtkmodules.vtkIOXML import vtkXMLPolyDataWriter
+from .sim_io import _write_atomic
 from .simstate import SimState
 
 
@@ -42,7 +44,15 @@ class VTKVisualizer:
         
         # Construct full file path
         full_path = os.path.join(target_dir, filename)
-        mesh.save(full_path)
+
+        # VTK writers do not raise when the disk is full or failing, so VTK only
+        # encodes the mesh here and the bytes are written (and checked) in Python
+        writer = vtkXMLPolyDataWriter()
+        writer.SetInputData(mesh)
+        writer.WriteToOutputStringOn()
+        if not writer.Write():
+            raise RuntimeError(f"VTK could not encode {full_path}")
+        _write_atomic(full_path, writer.GetOutputString().encode())
         return full_path
     
     def log_particles(
-- 
2.43.0


From 0c332b47ae2c3f0d73726178982ae51b5d45ebb9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:06:46 +0000
Subject: [PATCH 12/28] fix: export VTK particle frames without a property

---
 hydraxmpm/common/vtk_io.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/hydraxmpm/common/vtk_io.py b/hydraxmpm/common/vtk_io.py
index d34a730..1cab65f 100644
--- a/hydraxmpm/common/vtk_io.py
+++ b/hydraxmpm/common/vtk_io.py
@@ -80,6 +80,7 @@ class VTKVisualizer:
 
         _point_radius = _point_radius * scale_radius
         
+        prop_data = None
         if property_name is not None:
             prop_data = getattr(mp_state, property_name, None)
         if positions.shape[1] == 2:
@@ -91,10 +92,8 @@ class VTKVisualizer:
 
         # print(prop_data.mean())
 
-        prop_data = np.array(prop_data)
-        # print(prop_data.shape)
-
         if prop_data is not None:
+            prop_data = np.array(prop_data)
             if len(prop_data.shape) > 1:
                 if  prop_data.shape[1] == 2:
                     zeros = np.zeros((prop_data.shape[0], 1))
@@ -104,7 +103,8 @@ class VTKVisualizer:
 
         cloud = pv.PolyData(positions_3d)
 
-        cloud.point_data[property_name] = prop_data
+        if prop_data is not None:
+            cloud.point_data[property_name] = prop_data
 
         cloud.point_data["Radius"] = np.full(len(positions), _point_radius)
         
-- 
2.43.0


From 2d078fb884de522c3770420de795f7d19f4c625a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:06:46 +0000
Subject: [PATCH 13/28] fix: export a static SDF surface without a step

---
 hydraxmpm/common/vtk_io.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hydraxmpm/common/vtk_io.py b/hydraxmpm/common/vtk_io.py
index 1cab65f..1eac86e 100644
--- a/hydraxmpm/common/vtk_io.py
+++ b/hydraxmpm/common/vtk_io.py
@@ -222,4 +222,4 @@ class VTKVisualizer:
 
                 suffix = f"step_{int(step):05d}" if step is not None else "static"
                 # Standardized save via your _save_vtk method
-                path = self._save_vtk(mesh, label, f"step_{int(step):05d}.vtp")
\ No newline at end of file
+                path = self._save_vtk(mesh, label, f"{suffix}.vtp")
\ No newline at end of file
-- 
2.43.0


From 155c7aa6fb79efaae4e8f6a8543a708a63be9539 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:22:08 +0000
Subject: [PATCH 14/28] fix: save the recording of the first rerun visualizer
 too

---
 hydraxmpm/common/rerun.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/hydraxmpm/common/rerun.py b/hydraxmpm/common/rerun.py
index 2f4af76..725076a 100644
--- a/hydraxmpm/common/rerun.py
+++ b/hydraxmpm/common/rerun.py
@@ -133,8 +133,10 @@ class RerunVisualizer:
 
         self.root_path = root_path
 
+        if mode == "save":
+            rr.save("simulation.rrd")
         # Serve viewer once
-        if not RerunVisualizer._viewer_started:
+        elif not RerunVisualizer._viewer_started:
             if mode == "spawn":
                 rr.spawn()
             elif mode == "serve":
@@ -142,8 +144,6 @@ class RerunVisualizer:
 
             # Mark as started so we don't open a second window next time
             RerunVisualizer._viewer_started = True
-        elif mode == "save":
-            rr.save("simulation.rrd")
 
         if is_3d:
             view = rrb.Spatial3DView(
-- 
2.43.0


From 325a0edc391bba059f35f40847ac5b6a561eec52 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:22:08 +0000
Subject: [PATCH 15/28] fix: keep the axis order of SDF surface normals in
 rerun

---
 hydraxmpm/common/rerun.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/hydraxmpm/common/rerun.py b/hydraxmpm/common/rerun.py
index 725076a..dde943d 100644
--- a/hydraxmpm/common/rerun.py
+++ b/hydraxmpm/common/rerun.py
@@ -383,9 +383,8 @@ class RerunVisualizer:
                 world_z = start[2] + verts[:, 2] * step_size
                 world_verts = np.stack([world_x, world_y, world_z], axis=1)
 
-                # Fix Normal permutation (skimage normals align with index axes Y, X, Z)
-                # We need X, Y, Z
-                world_normals = normals[:, [1, 0, 2]]
+                # skimage normals are in the same axis order as the vertices
+                world_normals = normals
 
                 rr.log(
                     f"{self.root_path}/{label}",
-- 
2.43.0


From 027ff85c891a8dc7fc96b81ef7a089de4bfa49ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:39 +0000
Subject: [PATCH 16/28] fix: keep the full deformation gradient in
 F_store_stack

---
 hydraxmpm/constitutive_laws/constitutive_law.py | 8 ++------
 hydraxmpm/solvers/usl.py                        | 9 ++++++++-
 2 files changed, 10 insertions(+), 7 deletions(-)

diff --git a/hydraxmpm/constitutive_laws/constitutive_law.py b/hydraxmpm/constitutive_laws/constitutive_law.py
index 9fda52c..6785e80 100644
--- a/hydraxmpm/constitutive_laws/constitutive_law.py
+++ b/hydraxmpm/constitutive_laws/constitutive_law.py
@@ -51,12 +51,8 @@ class ConstitutiveLaw(eqx.Module):
 
         new_F_stack = jax.vmap(compute_cbar)(mp_state.F_stack)
 
-        if mp_state.F_store_stack is not None:
-            new_F_store_stack = mp_state.F_stack
-        else:
-            new_F_store_stack = None
-
-        new_mp = eqx.tree_at(lambda m: (m.F_stack,m.F_store_stack), mp_state, (new_F_stack, new_F_store_stack))
+        # F_store_stack keeps the full deformation gradient (advanced by the solver)
+        new_mp = eqx.tree_at(lambda m: m.F_stack, mp_state, new_F_stack)
 
 
         return new_mp
diff --git a/hydraxmpm/solvers/usl.py b/hydraxmpm/solvers/usl.py
index f8e18ed..c3d96af 100644
--- a/hydraxmpm/solvers/usl.py
+++ b/hydraxmpm/solvers/usl.py
@@ -708,6 +708,11 @@ class USLSolver(BaseSolver):
             F_inc = I - p_L * dt
             p_F_next = jnp.einsum("ijk,ikl->ijl", F_inc, mp_state.F_stack)
 
+            if mp_state.F_store_stack is not None:
+                p_F_store_next = jnp.einsum("ijk,ikl->ijl", F_inc, mp_state.F_store_stack)
+            else:
+                p_F_store_next = None
+
             if grid_cache.dim == 2:
                 p_F_next = p_F_next.at[:, 2, 2].set(1.0)
 
@@ -720,9 +725,11 @@ class USLSolver(BaseSolver):
                     s.volume_stack,
                     s.F_stack,
                     s.L_stack,
+                    s.F_store_stack,
                 ),
                 mp_state,
-                (p_velocity_next, p_position_next, p_volume_next, p_F_next, p_L),
+                (p_velocity_next, p_position_next, p_volume_next, p_F_next, p_L, p_F_store_next),
+                is_leaf=lambda x: x is None,
             )
             mp_states[c.p_idx] = mp_state
 
-- 
2.43.0


From 1e6b9bc494d75f10c17bd24728851766e753d809 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:13:18 +0000
Subject: [PATCH 17/28] fix: orient the velocity gradient and its spin like the
 motion

The USL solver stored the transposed velocity gradient, so its deformation
gradient turned the wrong way; and Drucker-Prager and modified Cam-Clay used
the spin of the compression-positive gradient, which turned the stress
against the motion.
---
 hydraxmpm/constitutive_laws/druckerprager.py   | 2 +-
 hydraxmpm/constitutive_laws/modifiedcamclay.py | 2 +-
 hydraxmpm/solvers/usl.py                       | 2 +-
 3 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/hydraxmpm/constitutive_laws/druckerprager.py b/hydraxmpm/constitutive_laws/druckerprager.py
index 91afc84..954ff90 100644
--- a/hydraxmpm/constitutive_laws/druckerprager.py
+++ b/hydraxmpm/constitutive_laws/druckerprager.py
@@ -127,7 +127,7 @@ class DruckerPrager(ConstitutiveLaw):
     ):
         # kinematics
         D = get_sym_tensor(L)
-        W = get_spin_tensor(L)
+        W = -get_spin_tensor(L) # L is compression positive, the spin is that of the motion
         deps = D * dt
 
         # objective rate correction (Jaumann)
diff --git a/hydraxmpm/constitutive_laws/modifiedcamclay.py b/hydraxmpm/constitutive_laws/modifiedcamclay.py
index a68f85b..c664ce5 100644
--- a/hydraxmpm/constitutive_laws/modifiedcamclay.py
+++ b/hydraxmpm/constitutive_laws/modifiedcamclay.py
@@ -385,7 +385,7 @@ class ModifiedCamClay(ConstitutiveLaw):
 
     
         D = get_sym_tensor(L) # symmetric part
-        W = get_spin_tensor(L) # skew-symmetric part
+        W = -get_spin_tensor(L) # skew-symmetric part (L is compression positive)
 
 
         deps_next = D * dt
diff --git a/hydraxmpm/solvers/usl.py b/hydraxmpm/solvers/usl.py
index c3d96af..74a81cc 100644
--- a/hydraxmpm/solvers/usl.py
+++ b/hydraxmpm/solvers/usl.py
@@ -668,7 +668,7 @@ class USLSolver(BaseSolver):
             # As L_ij = v_i * grad_j
             # compression positive convention for L, 
             weighted_L = jnp.einsum(
-                "ij,ik->ijk", intr_cache.shape_grads, -intr_vels_nt_3d
+                "ij,ik->ijk", -intr_vels_nt_3d, intr_cache.shape_grads
             )
 
   
-- 
2.43.0


From 07af762419d72b09dfbe93c6699027083c7b0029 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:39:48 +0000
Subject: [PATCH 18/28] fix: dilatant Drucker-Prager flow raises the pressure

The return to the cone moved the pressure the wrong way and left the stress
outside the yield surface whenever mu_1_hat was not zero.
---
 hydraxmpm/constitutive_laws/druckerprager.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hydraxmpm/constitutive_laws/druckerprager.py b/hydraxmpm/constitutive_laws/druckerprager.py
index 954ff90..71c86b9 100644
--- a/hydraxmpm/constitutive_laws/druckerprager.py
+++ b/hydraxmpm/constitutive_laws/druckerprager.py
@@ -159,7 +159,7 @@ class DruckerPrager(ConstitutiveLaw):
             # Pull to Cone
             pmulti = yf / (self.G + self.K * self.mu_1 * self.mu_1_hat + self.H * self.mu_2 * self.mu_2)
             
-            p_cone = p_tr - self.K * pmulti * self.mu_1_hat
+            p_cone = p_tr + self.K * pmulti * self.mu_1_hat
             sqrt_J2_cone = sqrt_J2_tr - self.G * pmulti
             
             # If sqrt_J2_cone < 0, we hit the apex
-- 
2.43.0


From 9eed5dd82a8a14b8a85118e1ba9628213a6be06f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:39:48 +0000
Subject: [PATCH 19/28] fix: Drucker-Prager hardens at the apex

The accumulated plastic strain fell there: the plastic volume change is
negative in tension.
---
 hydraxmpm/constitutive_laws/druckerprager.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/hydraxmpm/constitutive_laws/druckerprager.py b/hydraxmpm/constitutive_laws/druckerprager.py
index 71c86b9..bc2f890 100644
--- a/hydraxmpm/constitutive_laws/druckerprager.py
+++ b/hydraxmpm/constitutive_laws/druckerprager.py
@@ -184,10 +184,10 @@ class DruckerPrager(ConstitutiveLaw):
                 alpha = self.mu_2 / jnp.maximum(self.mu_1, 1e-8)
                 
                 # Solve deps_p_v
-                deps_p_v = (self.mu_1 * p_tr + self.mu_2 * (self.c0 + self.H * eps_p_acc_prev)) / jnp.maximum(self.K * self.mu_1 - self.H * self.mu_2 * alpha, 1e-12)
+                deps_p_v = (self.mu_1 * p_tr + self.mu_2 * (self.c0 + self.H * eps_p_acc_prev)) / jnp.maximum(self.K * self.mu_1 + self.H * self.mu_2 * alpha, 1e-12)
                 
                 p_apex = p_tr - self.K * deps_p_v
-                eps_p_acc_apex = eps_p_acc_prev + alpha * deps_p_v
+                eps_p_acc_apex = eps_p_acc_prev - alpha * deps_p_v # deps_p_v < 0 in tension
                 
                 stress_apex = +p_apex * jnp.eye(3)
                 eps_e_v_apex = (p_apex - p_0) / self.K
-- 
2.43.0


From b3265b7c81b6955fb1335db51827bb8eb539304d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:39:48 +0000
Subject: [PATCH 20/28] fix: mu(I) rheology gave half the friction

---
 hydraxmpm/constitutive_laws/mu_i_rheology.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/hydraxmpm/constitutive_laws/mu_i_rheology.py b/hydraxmpm/constitutive_laws/mu_i_rheology.py
index a9dd603..aee8ce0 100644
--- a/hydraxmpm/constitutive_laws/mu_i_rheology.py
+++ b/hydraxmpm/constitutive_laws/mu_i_rheology.py
@@ -177,7 +177,8 @@ class MuI_LC(ConstitutiveLaw):
             eta_total = eta_s + eta_d
             
 
-            stress = p_safe * jnp.eye(3) + eta_total * deps_dev
+            # dot_gamma is that of 2 * deps_dev, so that |s| = mu(I) * p
+            stress = p_safe * jnp.eye(3) + 2.0 * eta_total * deps_dev
             return stress
 
 
-- 
2.43.0


From c37a7950d09e4a925022b3fa9dae8067397e3599 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:44:22 +0000
Subject: [PATCH 21/28] fix: modified Cam-Clay lost its stress on the yield
 surface

The inputs of the return mapping were replaced by placeholders where is_ep
was false. On the yield surface, to within round-off, the compiled code
evaluated is_ep differently there and where the result is chosen, and the
point came out with the placeholders' pressure of 1 and p_c of 2.
---
 hydraxmpm/constitutive_laws/modifiedcamclay.py | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/hydraxmpm/constitutive_laws/modifiedcamclay.py b/hydraxmpm/constitutive_laws/modifiedcamclay.py
index c664ce5..a0e8328 100644
--- a/hydraxmpm/constitutive_laws/modifiedcamclay.py
+++ b/hydraxmpm/constitutive_laws/modifiedcamclay.py
@@ -438,14 +438,14 @@ class ModifiedCamClay(ConstitutiveLaw):
             return stress_next, eps_e_tr, p_c_prev
 
         def pull_to_ys():
-            # https://github.com/patrick-kidger/optimistix/issues/132
-            # Here we have safe values to avoid nan during compile time
-            safe_mask = lambda x, default: jnp.where(is_ep, x, default)
-
-            deps_e_v_tr_safe = safe_mask(deps_e_v_tr, 0.0)
-            p_prev_safe = safe_mask(p_prev, 1.0) #
-            p_c_prev_safe = safe_mask(p_c_prev, 2.0)
-            q_tr_safe = safe_mask(q_tr, 1.0)
+            # The actual values, also of points that do not yield (their result is
+            # dropped): masking them with is_ep is not safe, as the compiler may
+            # evaluate is_ep differently here and in the branch below when the
+            # trial state lies on the yield surface to within round-off
+            deps_e_v_tr_safe = deps_e_v_tr
+            p_prev_safe = p_prev
+            p_c_prev_safe = p_c_prev
+            q_tr_safe = q_tr
             q_tr_safe = jnp.maximum(q_tr_safe, 1e-6)
 
             # using logarithmic critical state pressure for better numerical stability
-- 
2.43.0


From db659b0b681745da6dbbf57075180dd082026b27 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:45:26 +0000
Subject: [PATCH 22/28] fix: use the dynamic-alpha support range the AFLIP
 solver is given

---
 hydraxmpm/solvers/usl_asflip.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/hydraxmpm/solvers/usl_asflip.py b/hydraxmpm/solvers/usl_asflip.py
index 36666a9..0f5b5c9 100644
--- a/hydraxmpm/solvers/usl_asflip.py
+++ b/hydraxmpm/solvers/usl_asflip.py
@@ -470,7 +470,10 @@ class USLAFLIP(USLSolver):
                 )
 
                 support_ratio = p_mass_support / (mp_state.mass_stack + 1e-9)
-                alpha_scale = jnp.clip((support_ratio - 1.1) / 0.4, 0.0, 1.0)
+                support_range = self.alpha_support_max - self.alpha_support_min
+                alpha_scale = jnp.clip(
+                    (support_ratio - self.alpha_support_min) / support_range, 0.0, 1.0
+                )
                 dynamic_alpha = self.alpha * alpha_scale[:, None]
             else:
                 dynamic_alpha = self.alpha
-- 
2.43.0


From 701e8c5b3efcdbe80e14df2be77ff5f9f77389dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:05:35 +0000
Subject: [PATCH 23/28] fix: no NaN where a node meets the centre of a round
 collider

---
 hydraxmpm/sdf/sdfcollection.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/hydraxmpm/sdf/sdfcollection.py b/hydraxmpm/sdf/sdfcollection.py
index f010aca..f97975b 100644
--- a/hydraxmpm/sdf/sdfcollection.py
+++ b/hydraxmpm/sdf/sdfcollection.py
@@ -79,7 +79,7 @@ class SphereSDF(SDFObjectBase):
         self, state: SDFObjectState, p_local: Float[Array, "dim"]
     ) -> Float[Array, ""]:
         # length(p) - r
-        return jnp.linalg.norm(p_local) - self.radius
+        return safe_norm(p_local) - self.radius
 
     def signed_distance(
         self, state: SDFObjectState, pos_world: Float[Array, "dim"]
@@ -169,14 +169,14 @@ class HollowCylinderSDF(SDFObjectBase):
     def signed_distance_local(self, state, pos_local):
         if pos_local.shape[0] == 3:
             # 2D distance from Y axis
-            r = jnp.linalg.norm(pos_local[jnp.array([0, 2])])
+            r = safe_norm(pos_local[jnp.array([0, 2])])
             d_y = pos_local[1]
         else:
             if self.is_2d_ring:
                 # Annulus / Ring (Top Down View)
                 # Radial distance is magnitude of vector (x,y)
                 r_xz = jnp.abs(pos_local[0])
-                r = jnp.linalg.norm(pos_local)
+                r = safe_norm(pos_local)
 
                 # Height is irrelevant/infinite for a 2D ring shape
                 d_y = -1e9
@@ -271,7 +271,7 @@ class TorusSDF(SDFObjectBase):
         q = jnp.array([q_x, q_y])
 
         # Distance from the circle is the norm minus tube radius
-        return jnp.linalg.norm(q) - self.minor_r
+        return safe_norm(q) - self.minor_r
 
 
 class StarSDF(SDFObjectBase):
@@ -350,7 +350,7 @@ class StarSDF(SDFObjectBase):
 
         # Distance vector
         dist_vec = p_wedge - closest
-        dist = jnp.linalg.norm(dist_vec)
+        dist = safe_norm(dist_vec)
 
         # sign Correction (Inside vs Outside)
         cross = edge[0] * (p_wedge[1] - v1[1]) - edge[1] * (p_wedge[0] - v1[0])
-- 
2.43.0


From d3c4642697c59a3dff1db63fbd732eb7046f57fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:05:35 +0000
Subject: [PATCH 24/28] fix: give the 3D hollow cylinder its height

---
 hydraxmpm/sdf/sdfcollection.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hydraxmpm/sdf/sdfcollection.py b/hydraxmpm/sdf/sdfcollection.py
index f97975b..9c15a98 100644
--- a/hydraxmpm/sdf/sdfcollection.py
+++ b/hydraxmpm/sdf/sdfcollection.py
@@ -170,7 +170,7 @@ class HollowCylinderSDF(SDFObjectBase):
         if pos_local.shape[0] == 3:
             # 2D distance from Y axis
             r = safe_norm(pos_local[jnp.array([0, 2])])
-            d_y = pos_local[1]
+            d_y = jnp.abs(pos_local[1]) - (self.height / 2.0)
         else:
             if self.is_2d_ring:
                 # Annulus / Ring (Top Down View)
-- 
2.43.0


From ec3c250ef1635225e6e1d1d8c994ef2f4eb2ad39 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:20:44 +0000
Subject: [PATCH 25/28] fix: keep the normal inside boxes, cylinders and
 composites in compiled steps

The derivative of a maximum finds its place by comparing with the result,
which a fused step recomputes with other round-off: at some nodes no face
was found, the normal came out as zero and the wall did not act.
---
 hydraxmpm/sdf/sdfcollection.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/hydraxmpm/sdf/sdfcollection.py b/hydraxmpm/sdf/sdfcollection.py
index 9c15a98..185737b 100644
--- a/hydraxmpm/sdf/sdfcollection.py
+++ b/hydraxmpm/sdf/sdfcollection.py
@@ -55,7 +55,7 @@ class BoxSDF(SDFObjectBase):
         d = jnp.abs(pos_local) - self.half_size
         d_vec = jnp.maximum(d, 0.0)
         outside = safe_norm(d_vec)
-        inside = jnp.minimum(jnp.max(d), 0.0)
+        inside = jnp.minimum(d[jnp.argmax(d)], 0.0)
 
         return outside + inside
 
@@ -197,7 +197,7 @@ class HollowCylinderSDF(SDFObjectBase):
         d_vec_clamped = jnp.maximum(d_vec, 0.0)
         outside = safe_norm(d_vec_clamped)
 
-        inside = jnp.minimum(jnp.max(d_vec), 0.0)
+        inside = jnp.minimum(d_vec[jnp.argmax(d_vec)], 0.0)
 
         return outside + inside
 
@@ -235,7 +235,7 @@ class CylinderSDF(SDFObjectBase):
         d_vec = jnp.array([d_xz, d_y])
 
         outside = safe_norm(jnp.maximum(d_vec, 0.0))
-        inside = jnp.minimum(jnp.max(d_vec), 0.0)
+        inside = jnp.minimum(d_vec[jnp.argmax(d_vec)], 0.0)
 
         return outside + inside
 
@@ -377,7 +377,7 @@ class CompositeSDF(SDFObjectBase):
             [s.signed_distance_local(state, p_local) for s in self.shapes]
         )
         # Union = Min
-        return jnp.min(dists)
+        return dists[jnp.argmin(dists)]
 
     def get_surface_friction_local(self, state, p_local):
         dists = jnp.stack(
-- 
2.43.0


From 21f54dd3fd9cdd09de586f5416f7491a1c82e314 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:01:03 +0000
Subject: [PATCH 26/28] fix: no negative kernel weights near the edge of the
 support

---
 hydraxmpm/shapefunctions/cubic.py     | 16 ++++++++--------
 hydraxmpm/shapefunctions/quadratic.py |  8 ++++----
 2 files changed, 12 insertions(+), 12 deletions(-)

diff --git a/hydraxmpm/shapefunctions/cubic.py b/hydraxmpm/shapefunctions/cubic.py
index 35ed687..d0e89d9 100644
--- a/hydraxmpm/shapefunctions/cubic.py
+++ b/hydraxmpm/shapefunctions/cubic.py
@@ -115,26 +115,26 @@ def vmap_cubic_shapefunction(
     def middle_splines():
         basis = _piecewise(
             funclist=[
-                # (1/6)x**3 + x**2 + 2x + 4/3
-                lambda x: ((1.0 / 6.0 * x + 1.0) * x + 2.0) * x + 4.0 / 3.0,
+                # 1/6 (x + 2)**3, which does not round to below zero near the edge
+                lambda x: (x + 2.0) * (x + 2.0) * (x + 2.0) / 6.0,
                 # -1/2 x**3 - x**2 +2/3
                 lambda x: (-0.5 * x - 1) * x * x + 2.0 / 3.0,
                 # 1/2 x**3 - x**2 + 2/3
                 lambda x: (0.5 * x - 1) * x * x + 2.0 / 3.0,
-                # -1/6 x**3 + x**2 -2x + 4/3
-                lambda x: ((-1.0 / 6.0 * x + 1.0) * x - 2.0) * x + 4.0 / 3.0,
+                # 1/6 (2 - x)**3
+                lambda x: (2.0 - x) * (2.0 - x) * (2.0 - x) / 6.0,
             ]
         )
         dbasis = _piecewise(
             funclist=[
-                # (1/2)x**2 + 2x + 2
-                lambda x: h * ((0.5 * x + 2) * x + 2.0),
+                # 1/2 (x + 2)**2
+                lambda x: h * 0.5 * (x + 2.0) * (x + 2.0),
                 # -3/2 x**2 - 2x
                 lambda x: h * (-3.0 / 2.0 * x - 2.0) * x,
                 # 3/2 x**2 - 2x
                 lambda x: h * (3.0 / 2.0 * x - 2.0) * x,
-                # -1/2 x**2 + 2x -2
-                lambda x: h * ((-0.5 * x + 2) * x - 2.0),
+                # -1/2 (2 - x)**2
+                lambda x: -h * 0.5 * (2.0 - x) * (2.0 - x),
             ]
         )
         return basis, dbasis
diff --git a/hydraxmpm/shapefunctions/quadratic.py b/hydraxmpm/shapefunctions/quadratic.py
index 0f5725d..8976f47 100644
--- a/hydraxmpm/shapefunctions/quadratic.py
+++ b/hydraxmpm/shapefunctions/quadratic.py
@@ -60,12 +60,12 @@ def vmap_quadratic_shapefunction(
     def quadratic_splines():
         basis = _piecewise(
             funclist=[
-                # 1/(2h^2) * x^2 + 3/(2h) * x + 9/8
-                lambda x: (1 / 2) * x * x + (3 / 2) * x + 9 / 8,
+                # 0.5(x + 1.5)^2, which does not round to below zero near the edge
+                lambda x: (1 / 2) * (x + 3 / 2) * (x + 3 / 2),
                 # -1/h^2 * x^2 + 3/4
                 lambda x: -x * x + 3 / 4,
-                # 1/(2h^2) * x^2 - 3/(2h) * x + 9/8
-                lambda x: (1 / 2) * x * x - (3 / 2) * x + 9 / 8,
+                # 0.5(1.5 - x)^2
+                lambda x: (1 / 2) * (3 / 2 - x) * (3 / 2 - x),
             ]
         )
         dbasis = _piecewise(
-- 
2.43.0


From 7e1e4088687c4d7160068245df7f66073e2ca0c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:54:34 +0000
Subject: [PATCH 27/28] fix: a solver given only some of the couplings finds
 its own states

---
 hydraxmpm/common/builder.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/hydraxmpm/common/builder.py b/hydraxmpm/common/builder.py
index 07fde0a..6cb8931 100644
--- a/hydraxmpm/common/builder.py
+++ b/hydraxmpm/common/builder.py
@@ -344,15 +344,16 @@ class SimBuilder:
 
         # Here we assume that each coupling maps
         # to one solver state
+        while len(self.solver_states) < len(self.couplings):
+            self.solver_states.add(None)
+
         for coupling in couplings:
             mp_state = self.particle_states[coupling.p_idx]
 
             if isinstance(mp_state, RigidMaterialPointState):
-                solver_state = None
-            else:
-                solver_state = solver.create_state(mp_state)
+                continue
 
-            self.solver_states.add(solver_state)
+            self.solver_states[coupling.s_idx] = solver.create_state(mp_state)
 
         s_idx = self.solver_logics.add(solver)
         return s_idx
-- 
2.43.0


From 624b396a9bd733ef28ca0b0d83d17d1a4f90c4f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:33:13 +0000
Subject: [PATCH 28/28] fix: the window sampled for a surface follows its
 corners

---
 hydraxmpm/common/rerun.py  | 2 +-
 hydraxmpm/common/vtk_io.py | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/hydraxmpm/common/rerun.py b/hydraxmpm/common/rerun.py
index dde943d..f9adc81 100644
--- a/hydraxmpm/common/rerun.py
+++ b/hydraxmpm/common/rerun.py
@@ -324,7 +324,7 @@ class RerunVisualizer:
         end = np.array(end)
         start = np.array(start)
         # Here we generate a bunch of points in the domain
-        domain_size = end * 1.05 - start * 0.95
+        domain_size = (end - start) * 1.05
         step_size = np.max(domain_size) / resolution
 
         aspect_size = np.ceil(domain_size / step_size).astype(int)
diff --git a/hydraxmpm/common/vtk_io.py b/hydraxmpm/common/vtk_io.py
index 1eac86e..3877dea 100644
--- a/hydraxmpm/common/vtk_io.py
+++ b/hydraxmpm/common/vtk_io.py
@@ -161,7 +161,7 @@ class VTKVisualizer:
             end = np.array(end)
             
             # Setup sampling grid
-            domain_size = end * 1.05 - start * 0.95
+            domain_size = (end - start) * 1.05
             step_size = np.max(domain_size) / resolution
             aspect_size = np.ceil(domain_size / step_size).astype(int)
             
-- 
2.43.0

