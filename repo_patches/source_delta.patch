From 2467a0638e1cb6f225419ba5068cde6991b8cda4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:09:16 +0000
Subject: [PATCH 01/71] fix: import lazily loaded modules through the phyem
 package

src, msepy, msehtt and tools are not top-level packages, so these function-level
imports raised ModuleNotFoundError as soon as the call reached them.
---
 msehtt/adaptive/main.py                              |  2 +-
 msehtt/static/form/bi/vc/Lambda/bi_vc_m3n3k0.py      |  6 +++---
 msehtt/static/form/export/main.py                    |  2 +-
 msehtt/tools/nonlinear_system/dynamic/main.py        |  2 +-
 msehtt/tools/nonlinear_system/static/main.py         |  2 +-
 msepy/form/main.py                                   |  6 +++---
 msepy/form/numeric/main.py                           |  2 +-
 msepy/form/visualize/matplot.py                      |  2 +-
 msepy/manifold/visualize/matplot.py                  |  2 +-
 msepy/mesh/boundary_section/main.py                  |  2 +-
 msepy/mesh/boundary_section/visualize/matplot.py     |  2 +-
 msepy/mesh/visualize/matplot.py                      |  2 +-
 msepy/space/degree.py                                |  2 +-
 msepy/space/gathering_matrix/Lambda.py               |  2 +-
 msepy/space/mass_matrix/Lambda.py                    |  2 +-
 msepy/space/reconstruct/Lambda.py                    |  2 +-
 msepy/space/reduce/Lambda.py                         |  2 +-
 msepy/space/trace_matrix/Lambda.py                   |  2 +-
 msepy/tools/linear_system/dynamic/_arr_par.py        |  6 +++---
 msepy/tools/linear_system/dynamic/main.py            |  2 +-
 msepy/tools/linear_system/static/local/main.py       |  2 +-
 msepy/tools/nonlinear_system/dynamic/main.py         |  6 +++---
 msepy/tools/nonlinear_system/static/customize.py     |  8 ++++----
 msepy/tools/nonlinear_system/static/local.py         |  2 +-
 msepy/tools/polynomials.py                           |  4 ++--
 src/algebra/array.py                                 |  2 +-
 src/algebra/linear_system.py                         | 12 ++++++------
 src/time_sequence.py                                 |  4 ++--
 src/wf/term/ap.py                                    |  4 ++--
 tools/functions/time_space/_2d/wrappers/scalar.py    |  8 ++++----
 tools/functions/time_space/_2d/wrappers/vector.py    |  8 ++++----
 .../serialRunners/INSTANCES/COMPONENTS/tir_drw.py    |  4 ++--
 .../serialRunners/INSTANCES/three_inputs_runner.py   | 10 +++++-----
 tools/miscellaneous/undirected_graph.py              |  2 +-
 34 files changed, 64 insertions(+), 64 deletions(-)

diff --git a/msehtt/adaptive/main.py b/msehtt/adaptive/main.py
index 8fb4f64..730103e 100644
--- a/msehtt/adaptive/main.py
+++ b/msehtt/adaptive/main.py
@@ -406,7 +406,7 @@ def info(*others_2b_printed):
         else:
             pass
     print(f"\n~) Existing time sequences --------- ")
-    from src.time_sequence import _global_abstract_time_sequence
+    from phyem.src.time_sequence import _global_abstract_time_sequence
     for ats_lin in _global_abstract_time_sequence:
         ats = _global_abstract_time_sequence[ats_lin]
         ats.info()
diff --git a/msehtt/static/form/bi/vc/Lambda/bi_vc_m3n3k0.py b/msehtt/static/form/bi/vc/Lambda/bi_vc_m3n3k0.py
index bd5cf77..6df07fc 100644
--- a/msehtt/static/form/bi/vc/Lambda/bi_vc_m3n3k0.py
+++ b/msehtt/static/form/bi/vc/Lambda/bi_vc_m3n3k0.py
@@ -45,9 +45,9 @@ def bi_vc__m3n3k0(rf0, t, vc, boundary_section):
     return data_dict
 
 
-from msehtt.static.space.reconstruction_matrix.Lambda.RM_m3n3k0 import ___rm330_msepy_hexahedral___
-from msehtt.static.space.find.local_dofs_on_face.Lambda.m3n3k0 import __m3n3k0_msepy_hexahedral_
-from msehtt.static.space.num_local_dofs.Lambda.num_local_dofs_m3n3k0 import _num_local_dofs__m3n3k0_msepy_hexahedral_
+from phyem.msehtt.static.space.reconstruction_matrix.Lambda.RM_m3n3k0 import ___rm330_msepy_hexahedral___
+from phyem.msehtt.static.space.find.local_dofs_on_face.Lambda.m3n3k0 import __m3n3k0_msepy_hexahedral_
+from phyem.msehtt.static.space.num_local_dofs.Lambda.num_local_dofs_m3n3k0 import _num_local_dofs__m3n3k0_msepy_hexahedral_
 
 
 def ___bi_vc_330_orthogonal_hexahedral___(element, degree, face, tvc):
diff --git a/msehtt/static/form/export/main.py b/msehtt/static/form/export/main.py
index a6e1733..f210b73 100644
--- a/msehtt/static/form/export/main.py
+++ b/msehtt/static/form/export/main.py
@@ -29,7 +29,7 @@ class MseHtt_Static_Form_Export(Frozen):
 
     def vtk(self, filename, ddf=1):
         r""""""
-        from tools.vtk_.msehtt_form_static_copy import ___ph_vtk_msehtt_static_copy___
+        from phyem.tools.vtk_.msehtt_form_static_copy import ___ph_vtk_msehtt_static_copy___
         ___ph_vtk_msehtt_static_copy___(filename, self._f[self._t], ddf=ddf)
 
     def tsf(self, filename, ddf=1):
diff --git a/msehtt/tools/nonlinear_system/dynamic/main.py b/msehtt/tools/nonlinear_system/dynamic/main.py
index fde2b62..b28d3d2 100644
--- a/msehtt/tools/nonlinear_system/dynamic/main.py
+++ b/msehtt/tools/nonlinear_system/dynamic/main.py
@@ -213,7 +213,7 @@ class MseHttDynamicNonLinearSystem(Frozen):
         plt.axis((0, 1, 0, 1))
         plt.axis('off')
         plt.text(0.05, 0.5, text + bc_text, ha='left', va='center', size=15)
-        from src.config import _setting, _pr_cache
+        from phyem.src.config import _setting, _pr_cache
 
         if _setting['pr_cache']:
             _pr_cache(fig, filename='msepy_DynamicNoneLinearSystem')
diff --git a/msehtt/tools/nonlinear_system/static/main.py b/msehtt/tools/nonlinear_system/static/main.py
index d330073..67fa7c3 100644
--- a/msehtt/tools/nonlinear_system/static/main.py
+++ b/msehtt/tools/nonlinear_system/static/main.py
@@ -330,7 +330,7 @@ class MseHttStaticNonLinearSystem(Frozen):
 
         plt.title(f'Local-Linear-System evaluated @ [{self._str_args}].')
 
-        from src.config import _setting, _pr_cache
+        from phyem.src.config import _setting, _pr_cache
         if _setting['pr_cache']:
             _pr_cache(fig, filename='msepy_staticLocalNonLinearSystem')
         else:
diff --git a/msepy/form/main.py b/msepy/form/main.py
index d1925d3..39b9c26 100644
--- a/msepy/form/main.py
+++ b/msepy/form/main.py
@@ -80,7 +80,7 @@ class MsePyRootForm(Frozen):
             t = self.cochain.newest  # newest time
         elif isinstance(t, str):
             # when use str, we are looking for the form at a time step.
-            from src.time_sequence import _global_abstract_time_sequence
+            from phyem.src.time_sequence import _global_abstract_time_sequence
             if len(_global_abstract_time_sequence) == 1:
                 ts_indicator = list(_global_abstract_time_sequence.keys())[0]
                 ts = _global_abstract_time_sequence[ts_indicator]
@@ -106,7 +106,7 @@ class MsePyRootForm(Frozen):
             t = self.cochain.newest  # newest time
         elif isinstance(t, str):
             # when use str, we are looking for the form at a time step.
-            from src.time_sequence import _global_abstract_time_sequence
+            from phyem.src.time_sequence import _global_abstract_time_sequence
             if len(_global_abstract_time_sequence) == 1:
                 ts_indicator = list(_global_abstract_time_sequence.keys())[0]
                 ts = _global_abstract_time_sequence[ts_indicator]
@@ -485,7 +485,7 @@ class MsePyRootForm(Frozen):
         inner_product_matrix = self.space.inner_product(
             self.degree, (other_form.space, other_form.degree)
         )
-        from msepy.tools.matrix.static.local import MsePyStaticLocalMatrix
+        from phyem.msepy.tools.matrix.static.local import MsePyStaticLocalMatrix
 
         inner_product_matrix = MsePyStaticLocalMatrix(
             inner_product_matrix,
diff --git a/msepy/form/numeric/main.py b/msepy/form/numeric/main.py
index 8ae6c05..f2b9706 100644
--- a/msepy/form/numeric/main.py
+++ b/msepy/form/numeric/main.py
@@ -305,7 +305,7 @@ class MsePyRootFormNumeric(Frozen):
             pass
         else:
             import pickle
-            from src.config import SIZE
+            from phyem.src.config import SIZE
             if SIZE == 1:
                 # we are only calling one thread, so just go ahead with it.
                 with open(saveto, 'wb') as output:
diff --git a/msepy/form/visualize/matplot.py b/msepy/form/visualize/matplot.py
index 85b8e3b..ed9a95a 100644
--- a/msepy/form/visualize/matplot.py
+++ b/msepy/form/visualize/matplot.py
@@ -358,7 +358,7 @@ class MsePyRootFormVisualizeMatplot(Frozen):
     ):
         """"""
         mesh = self._mesh
-        from msepy.main import base
+        from phyem.msepy.main import base
         meshes = base['meshes']
         boundary_sym = mesh.abstract.boundary()._sym_repr
         boundary_section = None
diff --git a/msepy/manifold/visualize/matplot.py b/msepy/manifold/visualize/matplot.py
index c494b79..a8f77c5 100644
--- a/msepy/manifold/visualize/matplot.py
+++ b/msepy/manifold/visualize/matplot.py
@@ -144,7 +144,7 @@ class MsePyManifoldVisualizeMatplot(Frozen):
         if saveto is not None and saveto != '':
             plt.savefig(saveto, bbox_inches='tight')
         else:
-            from src.config import _setting
+            from phyem.src.config import _setting
             plt.show(block=_setting['block'])
 
         return fig
diff --git a/msepy/mesh/boundary_section/main.py b/msepy/mesh/boundary_section/main.py
index e130b92..178abfa 100644
--- a/msepy/mesh/boundary_section/main.py
+++ b/msepy/mesh/boundary_section/main.py
@@ -87,7 +87,7 @@ class MsePyBoundarySectionMesh(Frozen):
         If the target is the gathering matrix, then we find all global dofs on the
         boundary section.
         """
-        from msepy.form.main import MsePyRootForm
+        from phyem.msepy.form.main import MsePyRootForm
         assert f.__class__ is MsePyRootForm, f"f must be a msepy root form."
         gathering_matrix = f.cochain.gathering_matrix
 
diff --git a/msepy/mesh/boundary_section/visualize/matplot.py b/msepy/mesh/boundary_section/visualize/matplot.py
index 9d55f95..9a5da5a 100644
--- a/msepy/mesh/boundary_section/visualize/matplot.py
+++ b/msepy/mesh/boundary_section/visualize/matplot.py
@@ -112,7 +112,7 @@ class Matplot(Frozen):
         if saveto is not None and saveto != '':
             plt.savefig(saveto, bbox_inches='tight')
         else:
-            from src.config import _setting, _pr_cache
+            from phyem.src.config import _setting, _pr_cache
             if _setting['pr_cache']:
                 _pr_cache(fig, filename='MsePyMeshBoundarySection')
             else:
diff --git a/msepy/mesh/visualize/matplot.py b/msepy/mesh/visualize/matplot.py
index 55aec64..388edb9 100644
--- a/msepy/mesh/visualize/matplot.py
+++ b/msepy/mesh/visualize/matplot.py
@@ -186,7 +186,7 @@ class MsePyMeshVisualizeMatplot(Frozen):
         if saveto is not None and saveto != '':
             plt.savefig(saveto, bbox_inches='tight')
         else:
-            from src.config import _setting, _pr_cache
+            from phyem.src.config import _setting, _pr_cache
             if _setting['pr_cache']:
                 _pr_cache(fig, filename='MsePyMeshVisualization')
             else:
diff --git a/msepy/space/degree.py b/msepy/space/degree.py
index 613f627..b156e7c 100644
--- a/msepy/space/degree.py
+++ b/msepy/space/degree.py
@@ -160,7 +160,7 @@ class PySpaceDegree(Frozen):
     @property
     def gathering_matrix(self):
         """For msehy-py spaces, access gathering matrix here only for more recent generation mesh!"""
-        from msepy.mesh.main import MsePyMesh
+        from phyem.msepy.mesh.main import MsePyMesh
         mesh_class = self._space.mesh.__class__
         if mesh_class is MsePyMesh:
             return self._space.gathering_matrix(self._degree)
diff --git a/msepy/space/gathering_matrix/Lambda.py b/msepy/space/gathering_matrix/Lambda.py
index 5fef6b1..a0bb713 100644
--- a/msepy/space/gathering_matrix/Lambda.py
+++ b/msepy/space/gathering_matrix/Lambda.py
@@ -1340,7 +1340,7 @@ class MsePyGatheringMatrixLambda(Frozen):
 
     def _m2_n1_k1(self, p):
         """"""
-        from msepy.main import base
+        from phyem.msepy.main import base
         meshes = base['meshes']
         boundary_sym = self._mesh.abstract.boundary()._sym_repr
         boundary_section = None
diff --git a/msepy/space/mass_matrix/Lambda.py b/msepy/space/mass_matrix/Lambda.py
index 0c088ef..425ba2b 100644
--- a/msepy/space/mass_matrix/Lambda.py
+++ b/msepy/space/mass_matrix/Lambda.py
@@ -338,7 +338,7 @@ class MsePyMassMatrixLambda(Frozen):
         quad_nodes, quad_weights = quad.quad
         xi_et, bfs = self._space.basis_functions[degree](quad_nodes)
 
-        from msepy.main import base
+        from phyem.msepy.main import base
         meshes = base['meshes']
         boundary_sym = self._mesh.abstract.boundary()._sym_repr
         boundary_section = None
diff --git a/msepy/space/reconstruct/Lambda.py b/msepy/space/reconstruct/Lambda.py
index ab7776d..9194250 100644
--- a/msepy/space/reconstruct/Lambda.py
+++ b/msepy/space/reconstruct/Lambda.py
@@ -223,7 +223,7 @@ class MsePySpaceReconstructLambda(Frozen):
         nodes, bfs = self._space.basis_functions[degree](xi)
 
         mesh = self._mesh
-        from msepy.main import base
+        from phyem.msepy.main import base
         meshes = base['meshes']
         boundary_sym = mesh.abstract.boundary()._sym_repr
         boundary_section = None
diff --git a/msepy/space/reduce/Lambda.py b/msepy/space/reduce/Lambda.py
index 4eab720..2eb47c3 100644
--- a/msepy/space/reduce/Lambda.py
+++ b/msepy/space/reduce/Lambda.py
@@ -385,7 +385,7 @@ class MsePySpaceReduceLambda(Frozen):
             dtype=float
         )
 
-        from msepy.main import base
+        from phyem.msepy.main import base
         meshes = base['meshes']
         boundary_sym = mesh.abstract.boundary()._sym_repr
         boundary_section = None
diff --git a/msepy/space/trace_matrix/Lambda.py b/msepy/space/trace_matrix/Lambda.py
index 0525c40..d8372b6 100644
--- a/msepy/space/trace_matrix/Lambda.py
+++ b/msepy/space/trace_matrix/Lambda.py
@@ -46,7 +46,7 @@ class MsePyTraceMatrixLambda(Frozen):
 
     def _m2_n2_k1_outer(self, degree):
         """"""
-        from msepy.main import base
+        from phyem.msepy.main import base
         meshes = base['meshes']
         boundary_sym = self._mesh.abstract.boundary()._sym_repr
         boundary_section = None
diff --git a/msepy/tools/linear_system/dynamic/_arr_par.py b/msepy/tools/linear_system/dynamic/_arr_par.py
index 51d7211..9792186 100644
--- a/msepy/tools/linear_system/dynamic/_arr_par.py
+++ b/msepy/tools/linear_system/dynamic/_arr_par.py
@@ -209,7 +209,7 @@ def Parse__trace_matrix(space_lin_repr, degree_str):
     degree = _str_degree_parser(degree_str)
     space = _find_space_through_pure_lin_repr(space_lin_repr)
     gm_space_1 = space.gathering_matrix(degree)
-    from src.spaces.operators import trace as space_trace
+    from phyem.src.spaces.operators import trace as space_trace
     trace_space = _find_space_through_pure_lin_repr(space_trace(space.abstract)._pure_lin_repr)
     gm_trace_0 = trace_space.gathering_matrix(degree)
     tM = space.trace_matrix(degree)
@@ -262,7 +262,7 @@ def Parse__pi_matrix(from_space, to_space, from_d, to_d):
     to_d = _str_degree_parser(to_d)
     from_space = _find_space_through_pure_lin_repr(from_space)
     to_space = _find_space_through_pure_lin_repr(to_space)
-    from msepy.space.addons.projection import MsePySpaceProjection
+    from phyem.msepy.space.addons.projection import MsePySpaceProjection
     pi = MsePySpaceProjection(from_space, to_space, from_d, to_d)
     return pi.matrix, None
 
@@ -273,7 +273,7 @@ def Parse__star_matrix(from_space, to_space, from_d, to_d):
     to_d = _str_degree_parser(to_d)
     from_space = _find_space_through_pure_lin_repr(from_space)
     to_space = _find_space_through_pure_lin_repr(to_space)
-    from msepy.space.addons.Hodge import MsePySpaceHodge
+    from phyem.msepy.space.addons.Hodge import MsePySpaceHodge
     H = MsePySpaceHodge(from_space, to_space, from_d, to_d)
     return H.matrix, None
 
diff --git a/msepy/tools/linear_system/dynamic/main.py b/msepy/tools/linear_system/dynamic/main.py
index 971f4b2..69cf925 100644
--- a/msepy/tools/linear_system/dynamic/main.py
+++ b/msepy/tools/linear_system/dynamic/main.py
@@ -347,7 +347,7 @@ class MsePyDynamicLinearSystem(Frozen):
 
     def pr(self, figsize=(10, 4)):
         """pr"""
-        from src.config import _setting, _pr_cache
+        from phyem.src.config import _setting, _pr_cache
         plt.rcParams.update({
             "text.usetex": True,
             "font.family": "DejaVu Sans",
diff --git a/msepy/tools/linear_system/static/local/main.py b/msepy/tools/linear_system/static/local/main.py
index 363ca40..8c1761d 100644
--- a/msepy/tools/linear_system/static/local/main.py
+++ b/msepy/tools/linear_system/static/local/main.py
@@ -274,7 +274,7 @@ class MsePyStaticLocalLinearSystem(Frozen):
             plt.text(0.05, 0.47, text, ha='left', va='top', size=15)
         plt.title(f'Local-Linear-System evaluated @ [{self._str_args}]')
         plt.tight_layout()
-        from src.config import _setting, _pr_cache
+        from phyem.src.config import _setting, _pr_cache
         if _setting['pr_cache']:
             _pr_cache(fig, filename='msepy_staticLocalLinearSystem')
         else:
diff --git a/msepy/tools/nonlinear_system/dynamic/main.py b/msepy/tools/nonlinear_system/dynamic/main.py
index b804cbc..f9772de 100644
--- a/msepy/tools/nonlinear_system/dynamic/main.py
+++ b/msepy/tools/nonlinear_system/dynamic/main.py
@@ -146,7 +146,7 @@ class MsePyDynamicNonLinearSystem(Frozen):
         """the test forms."""
         if self._tfs is None:
             self._tfs = list()
-            from msepy.main import base
+            from phyem.msepy.main import base
             msepy_forms = base['forms']
             abstract_tfs = self._mp_nls._mp._wf.test_forms
             for atf in abstract_tfs:
@@ -163,7 +163,7 @@ class MsePyDynamicNonLinearSystem(Frozen):
     def unknowns(self):
         if self._unknowns is None:
             self._unknowns = list()
-            from msepy.main import base
+            from phyem.msepy.main import base
             msepy_forms = base['forms']
             abstract_ufs = self._mp_nls._mp._wf.unknowns
             for auf in abstract_ufs:
@@ -250,7 +250,7 @@ class MsePyDynamicNonLinearSystem(Frozen):
         plt.axis((0, 1, 0, 1))
         plt.axis('off')
         plt.text(0.05, 0.5, text + bc_text, ha='left', va='center', size=15)
-        from src.config import _setting, _pr_cache
+        from phyem.src.config import _setting, _pr_cache
         if _setting['pr_cache']:
             _pr_cache(fig, filename='msepy_DynamicNoneLinearSystem')
         else:
diff --git a/msepy/tools/nonlinear_system/static/customize.py b/msepy/tools/nonlinear_system/static/customize.py
index bfe8b48..cf62d5b 100644
--- a/msepy/tools/nonlinear_system/static/customize.py
+++ b/msepy/tools/nonlinear_system/static/customize.py
@@ -150,8 +150,8 @@ class MsePyStaticNonlinearSystemCustomize(Frozen):
 
         # now we parse the boundary section
         the_msepy_boundary_section = None   # to store the found msepy boundary section
-        from msepy.manifold.main import MsePyManifold
-        from msepy.main import base
+        from phyem.msepy.manifold.main import MsePyManifold
+        from phyem.msepy.main import base
         if boundary_section.__class__ is MsePyManifold:
 
             meshes = base['meshes']
@@ -229,8 +229,8 @@ class MsePyStaticNonlinearSystemCustomize(Frozen):
 
         # now we parse the boundary section
         the_msepy_boundary_section = None   # to store the found msepy boundary section
-        from msepy.manifold.main import MsePyManifold
-        from msepy.main import base
+        from phyem.msepy.manifold.main import MsePyManifold
+        from phyem.msepy.main import base
         if boundary_section.__class__ is MsePyManifold:
 
             meshes = base['meshes']
diff --git a/msepy/tools/nonlinear_system/static/local.py b/msepy/tools/nonlinear_system/static/local.py
index 3847e3e..3382cea 100644
--- a/msepy/tools/nonlinear_system/static/local.py
+++ b/msepy/tools/nonlinear_system/static/local.py
@@ -285,7 +285,7 @@ class MsePyStaticLocalNonLinearSystem(Frozen):
 
         plt.title(f'Local-Linear-System evaluated @ [{self._str_args}]')
 
-        from src.config import _setting, _pr_cache
+        from phyem.src.config import _setting, _pr_cache
         if _setting['pr_cache']:
             _pr_cache(fig, filename='msepy_staticLocalNonLinearSystem')
         else:
diff --git a/msepy/tools/polynomials.py b/msepy/tools/polynomials.py
index b1d4129..184cace 100644
--- a/msepy/tools/polynomials.py
+++ b/msepy/tools/polynomials.py
@@ -297,7 +297,7 @@ class _OneDimPolynomial(Frozen):
         if saveto is not None:
             plt.savefig(saveto, bbox_inches='tight')
         else:
-            from src.config import _setting, _pr_cache
+            from phyem.src.config import _setting, _pr_cache
             if _setting['pr_cache']:
                 _pr_cache(fig, filename='MsePyMeshVisualization')
             else:
@@ -426,7 +426,7 @@ class _OneDimPolynomial(Frozen):
         if saveto is not None:
             plt.savefig(saveto, bbox_inches='tight')
         else:
-            from src.config import _setting, _pr_cache
+            from phyem.src.config import _setting, _pr_cache
             if _setting['pr_cache']:
                 _pr_cache(fig, filename='MsePyMeshVisualization')
             else:
diff --git a/src/algebra/array.py b/src/algebra/array.py
index 1569463..bcc2d41 100644
--- a/src/algebra/array.py
+++ b/src/algebra/array.py
@@ -182,7 +182,7 @@ class AbstractArray(Frozen):
             plt.axis('off')
             plt.text(0.05, 0.5, text, ha='left', va='center', size=15)
             plt.tight_layout()
-            from src.config import _setting
+            from phyem.src.config import _setting
             plt.show(block=_setting['block'])
 
     def __repr__(self):
diff --git a/src/algebra/linear_system.py b/src/algebra/linear_system.py
index 884d534..335d6e1 100644
--- a/src/algebra/linear_system.py
+++ b/src/algebra/linear_system.py
@@ -88,7 +88,7 @@ class BlockMatrix(Frozen):
 
     def pr(self, figsize=(12, 6)):
         """"""
-        from src.config import RANK, MASTER_RANK
+        from phyem.src.config import RANK, MASTER_RANK
         if RANK != MASTER_RANK:
             return
         else:
@@ -100,7 +100,7 @@ class BlockMatrix(Frozen):
         plt.axis('off')
         plt.text(0.05, 0.5, symbolic, ha='left', va='center', size=15)
         plt.tight_layout()
-        from src.config import _setting
+        from phyem.src.config import _setting
         plt.show(block=_setting['block'])
         return fig
 
@@ -168,7 +168,7 @@ class BlockColVector(Frozen):
 
     def pr(self, figsize=(8, 6)):
         """"""
-        from src.config import RANK, MASTER_RANK
+        from phyem.src.config import RANK, MASTER_RANK
         if RANK != MASTER_RANK:
             return
         else:
@@ -178,7 +178,7 @@ class BlockColVector(Frozen):
             plt.axis('off')
             plt.text(0.05, 0.5, symbolic, ha='left', va='center', size=15)
             plt.tight_layout()
-            from src.config import _setting
+            from phyem.src.config import _setting
             plt.show(block=_setting['block'])
             return fig
 
@@ -290,7 +290,7 @@ class LinearSystem(Frozen):
 
     def pr(self, figsize=(12, 6)):
         """pr"""
-        from src.config import RANK, MASTER_RANK
+        from phyem.src.config import RANK, MASTER_RANK
         if RANK != MASTER_RANK:
             return
         else:
@@ -300,7 +300,7 @@ class LinearSystem(Frozen):
             plt.axis('off')
             plt.text(0.05, 0.5, symbolic, ha='left', va='center', size=15)
             plt.tight_layout()
-            from src.config import _setting
+            from phyem.src.config import _setting
             plt.show(block=_setting['block'])
             return fig
 
diff --git a/src/time_sequence.py b/src/time_sequence.py
index f7c49b7..ebf3ef0 100644
--- a/src/time_sequence.py
+++ b/src/time_sequence.py
@@ -331,7 +331,7 @@ class ConstantTimeSequence(TimeSequence):
 
     def pr(self, obj=None):
         """print this constant interval time sequence together with an object."""
-        from src.config import RANK, MASTER_RANK
+        from phyem.src.config import RANK, MASTER_RANK
         if RANK != MASTER_RANK:
             return
         else:
@@ -458,7 +458,7 @@ class ConstantTimeSequence(TimeSequence):
                 )
             # ----- save -----------------------------------------------------
             plt.tight_layout()
-            from src.config import _setting, _pr_cache
+            from phyem.src.config import _setting, _pr_cache
             if _setting['pr_cache']:
                 _pr_cache(fig, filename='constantTimeSequence')
             else:
diff --git a/src/wf/term/ap.py b/src/wf/term/ap.py
index f31f4a5..47da4ec 100644
--- a/src/wf/term/ap.py
+++ b/src/wf/term/ap.py
@@ -1835,7 +1835,7 @@ class _SimplePatternAPParser(Frozen):
 
         mass_matrix = _VarPar_M(A.space, A.space, A.degree, A.degree)
 
-        from src.spaces.operators import codifferential
+        from phyem.src.spaces.operators import codifferential
         pi_B_space = codifferential(A.space)
         pi_B_degree = A.degree
 
@@ -1873,7 +1873,7 @@ class _SimplePatternAPParser(Frozen):
 
         M = _VarPar_M(B.space, B.space, B.degree, B.degree)
 
-        from src.spaces.operators import codifferential
+        from phyem.src.spaces.operators import codifferential
         star_A_space = codifferential(B.space)
         star_A_degree = A.degree  # This Hodge could be inaccurate.
 
diff --git a/tools/functions/time_space/_2d/wrappers/scalar.py b/tools/functions/time_space/_2d/wrappers/scalar.py
index 08587a8..3a21729 100644
--- a/tools/functions/time_space/_2d/wrappers/scalar.py
+++ b/tools/functions/time_space/_2d/wrappers/scalar.py
@@ -253,7 +253,7 @@ class T2dScalar(TimeSpaceFunctionBase):
             else:
                 bounds = mesh_or_bounds
 
-            from msepy.main import _quick_mesh
+            from phyem.msepy.main import _quick_mesh
             mesh = _quick_mesh(*bounds)
         elif mesh_or_bounds is None:
             mesh = self.mesh
@@ -477,9 +477,9 @@ class T2dScalar(TimeSpaceFunctionBase):
         -------
 
         """
-        from msepy.main import base
-        from msepy.manifold.main import MsePyManifold
-        from msepy.mesh.main import MsePyMesh
+        from phyem.msepy.main import base
+        from phyem.msepy.manifold.main import MsePyManifold
+        from phyem.msepy.mesh.main import MsePyMesh
         mesh = msepy_form.mesh
         assert mesh.__class__ is MsePyMesh, f"mesh must be a MsePyMesh!"
         assert boundary_msepy_manifold.__class__ is MsePyManifold, f"boundary_msepy_manifold must be a msepy manifold!"
diff --git a/tools/functions/time_space/_2d/wrappers/vector.py b/tools/functions/time_space/_2d/wrappers/vector.py
index ba71e4e..2757384 100644
--- a/tools/functions/time_space/_2d/wrappers/vector.py
+++ b/tools/functions/time_space/_2d/wrappers/vector.py
@@ -269,7 +269,7 @@ class T2dVector(TimeSpaceFunctionBase):
             else:
                 bounds = mesh_or_bounds
 
-            from msepy.main import _quick_mesh
+            from phyem.msepy.main import _quick_mesh
             mesh = _quick_mesh(*bounds)
         elif mesh_or_bounds is None:
             mesh = self.mesh
@@ -774,9 +774,9 @@ class T2dVector(TimeSpaceFunctionBase):
         -------
 
         """
-        from msepy.main import base
-        from msepy.manifold.main import MsePyManifold
-        from msepy.mesh.main import MsePyMesh
+        from phyem.msepy.main import base
+        from phyem.msepy.manifold.main import MsePyManifold
+        from phyem.msepy.mesh.main import MsePyMesh
         mesh = msepy_form.mesh
         assert mesh.__class__ is MsePyMesh, f"mesh must be a MsePyMesh!"
         assert boundary_msepy_manifold.__class__ is MsePyManifold, f"boundary_msepy_manifold must be a msepy manifold!"
diff --git a/tools/legacy/serialRunners/INSTANCES/COMPONENTS/tir_drw.py b/tools/legacy/serialRunners/INSTANCES/COMPONENTS/tir_drw.py
index 3e7cf8e..bc78417 100644
--- a/tools/legacy/serialRunners/INSTANCES/COMPONENTS/tir_drw.py
+++ b/tools/legacy/serialRunners/INSTANCES/COMPONENTS/tir_drw.py
@@ -8,8 +8,8 @@ Aerodynamics, AE
 TU Delft
 """
 import inspect
-from tools.miscellaneous.timer import MyTimer
-from tools.frozen import Frozen
+from phyem.tools.miscellaneous.timer import MyTimer
+from phyem.tools.frozen import Frozen
 
 class TIR_DRW(Frozen):
     """ """
diff --git a/tools/legacy/serialRunners/INSTANCES/three_inputs_runner.py b/tools/legacy/serialRunners/INSTANCES/three_inputs_runner.py
index e172260..00fb6f8 100644
--- a/tools/legacy/serialRunners/INSTANCES/three_inputs_runner.py
+++ b/tools/legacy/serialRunners/INSTANCES/three_inputs_runner.py
@@ -16,11 +16,11 @@ import numpy as np
 import pandas as pd
 import matplotlib.pyplot as plt
 from time import localtime, strftime, time
-from tools.decorators.all import accepts
-from tools.legacy.serialRunners._runner_ import Runner
-from tools.legacy.serialRunners.INSTANCES.COMPONENTS.tir_drw import TIR_DRW
-from tools.legacy.serialRunners.INSTANCES.COMPONENTS.m_tir_tabular import M_TIR_Tabulate
-from src.config import SIZE
+from phyem.tools.decorators.all import accepts
+from phyem.tools.legacy.serialRunners._runner_ import Runner
+from phyem.tools.legacy.serialRunners.INSTANCES.COMPONENTS.tir_drw import TIR_DRW
+from phyem.tools.legacy.serialRunners.INSTANCES.COMPONENTS.m_tir_tabular import M_TIR_Tabulate
+from phyem.src.config import SIZE
 assert SIZE == 1, "Runners can only be run in single thread."
 
 class TimeIteration:
diff --git a/tools/miscellaneous/undirected_graph.py b/tools/miscellaneous/undirected_graph.py
index b6aa9b9..d5c94d0 100644
--- a/tools/miscellaneous/undirected_graph.py
+++ b/tools/miscellaneous/undirected_graph.py
@@ -217,7 +217,7 @@ class CoordinatedUndirectedGraph(Frozen):
             if saveto is not None and saveto != '':
                 plt.savefig(saveto, bbox_inches='tight', pad_inches=pad_inches)
             else:
-                from src.config import _setting, _pr_cache
+                from phyem.src.config import _setting, _pr_cache
                 if _setting['pr_cache']:
                     _pr_cache(fig, filename='msehtt_elements')
                 else:
-- 
2.43.0


From b96ee0f62b1aaf8e6b9b9c2313b3b2d543c0542f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:32 +0000
Subject: [PATCH 02/71] fix: make the repr of Frozen objects unique, since it
 keys module-level caches

The address in the default repr is reused after garbage collection; then the
module-level caches of mass/incidence/gathering matrices (keyed by the repr of
the mesh) returned those of a dead mesh.
---
 msehtt/static/implementation_array_parser.py |  2 +-
 tools/frozen.py                              | 16 ++++++++++++++++
 2 files changed, 17 insertions(+), 1 deletion(-)

diff --git a/msehtt/static/implementation_array_parser.py b/msehtt/static/implementation_array_parser.py
index fe86a1a..5011aa3 100644
--- a/msehtt/static/implementation_array_parser.py
+++ b/msehtt/static/implementation_array_parser.py
@@ -184,7 +184,7 @@ def Parse__M_matrix(space, str_degree0, str_degree1):
     degree0 = _str_degree_parser(str_degree0)
     degree1 = _str_degree_parser(str_degree1)
     space = _find_space_through_pure_lin_repr(space)
-    key = (id(space), str_degree0, str_degree1)
+    key = (space.__repr__(), str_degree0, str_degree1)  # id(space) may be reused after space is garbage-collected.
     if key in _setting_['_cache_M_']:
         return _setting_['_cache_M_'][key]
     else:
diff --git a/tools/frozen.py b/tools/frozen.py
index 6cc581b..c2020c0 100644
--- a/tools/frozen.py
+++ b/tools/frozen.py
@@ -3,6 +3,9 @@ r"""
 """
 
 from abc import ABC
+from itertools import count
+
+___serial_number___ = count()
 
 
 class FrozenError(Exception):
@@ -18,6 +21,19 @@ class Frozen(ABC):
             raise FrozenError(f" <Frozen>: {self} is frozen. CANNOT define new attributes.")
         object.__setattr__(self, key, value)
 
+    def __repr__(self):
+        """Like the default one plus a serial number.
+
+        The address alone identifies an object only as long as it is alive: a new object may get the address of a
+        garbage-collected one. The serial number is never reused. So it is safe to use a repr as a cache key.
+        """
+        try:
+            serial = self.___SERIAL___
+        except AttributeError:
+            serial = next(___serial_number___)
+            object.__setattr__(self, '___SERIAL___', serial)
+        return super().__repr__()[:-1] + f"-{serial}>"
+
     def _freeze(self):
         """Freeze self, can define no more new attributes. """
         self.___FROZEN___ = True
-- 
2.43.0


From 6a04e8b9c7ee348198ab25ab35256e410a931445 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:32:59 +0000
Subject: [PATCH 03/71] fix: return cached evaluations only for the very same
 points

np.allclose took nearby points (differences below 1e-8 + 1e-5 |x|) for the
cached ones, and the keys were references to arrays the caller may change.
---
 tools/miscellaneous/ndarray_cache.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/tools/miscellaneous/ndarray_cache.py b/tools/miscellaneous/ndarray_cache.py
index 53b39e6..efa14f3 100644
--- a/tools/miscellaneous/ndarray_cache.py
+++ b/tools/miscellaneous/ndarray_cache.py
@@ -89,7 +89,7 @@ def ndarray_key_comparer(cache, arrays, check_str=''):
                         t_o_f = False
                         break
 
-                    if not np.allclose(ca, ia):
+                    if not np.array_equal(ca, ia):
                         t_o_f = False
                         break
 
@@ -105,7 +105,7 @@ def ndarray_key_comparer(cache, arrays, check_str=''):
 
         cache_arrays = keys[key]
         assert (len(cache_arrays) == len(arrays) and
-                all([np.allclose(cache_arrays[_], arrays[_]) for _ in range(len(cache_arrays))]) and
+                all([np.array_equal(cache_arrays[_], arrays[_]) for _ in range(len(cache_arrays))]) and
                 check_strings[key] == check_str), \
             f"safety check!"
         _, __ = 1, values[key]
@@ -173,6 +173,6 @@ def add_to_ndarray_cache(cache, arrays, results, check_str='', maximum=25):
     else:
         current_key = 0
 
-    keys[current_key] = arrays
+    keys[current_key] = [ar.copy() for ar in arrays]  # copy: the caller may change the arrays later on.
     values[current_key] = results
     check_strings[current_key] = check_str
-- 
2.43.0


From 38c7fa124388acb32c50cdcb70e9161d037488cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:46 +0000
Subject: [PATCH 04/71] fix: keep the scaling factor exactly in the signature
 of a scaled local matrix

'%.8f' mapped different small factors onto the same signature.
---
 msehtt/tools/matrix/static/local.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/msehtt/tools/matrix/static/local.py b/msehtt/tools/matrix/static/local.py
index a45ca09..60dcaa7 100644
--- a/msehtt/tools/matrix/static/local.py
+++ b/msehtt/tools/matrix/static/local.py
@@ -305,7 +305,7 @@ class MseHttStaticLocalMatrix(Frozen):
             if 'unique' in self._signature:
                 signature = '[unique]'
             else:
-                signature = '%.8f*' % other + self._signature
+                signature = '%r*' % other + self._signature
 
             return self.__class__(
                 data_caller, self._gm_row, self._gm_col, cache_key=self._cache_key,
-- 
2.43.0


From f3749a572fe49e890d54962ff5de891bf5c0fbec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:46 +0000
Subject: [PATCH 05/71] fix: do not round metric signatures of elements to a
 few decimals

Elements with the same signature share their Jacobians and local matrices; the
rounding (2-5 decimals, absolute) made different elements of small or slightly
irregular meshes share them. Triangles/quads now use their edge vectors.
---
 .../elements/types/orthogonal_hexahedron.py    |  6 +++---
 .../elements/types/orthogonal_rectangle.py     |  2 +-
 .../great/elements/types/vtu_5_triangle.py     | 13 ++++---------
 .../mesh/great/elements/types/vtu_9_quad.py    | 18 ++++--------------
 msepy/manifold/predefined/crazy.py             |  2 +-
 msepy/manifold/predefined/crazy_multi.py       |  2 +-
 msepy/manifold/regions/standard/ct.py          | 14 +++++++-------
 7 files changed, 21 insertions(+), 36 deletions(-)

diff --git a/msehtt/static/mesh/great/elements/types/orthogonal_hexahedron.py b/msehtt/static/mesh/great/elements/types/orthogonal_hexahedron.py
index b307315..7af74e4 100644
--- a/msehtt/static/mesh/great/elements/types/orthogonal_hexahedron.py
+++ b/msehtt/static/mesh/great/elements/types/orthogonal_hexahedron.py
@@ -48,9 +48,9 @@ class MseHttGreatMeshOrthogonalHexahedronElement(MseHttGreatMeshBaseElement):
         """"""
         origin_x, origin_y, origin_z = parameters['origin']
         delta_x, delta_y, delta_z = parameters['delta']
-        self._metric_signature = (f"OR:x%.5f" % round(delta_x, 5) +
-                                  "y%.5f" % round(delta_y, 5) +
-                                  "y%.5f" % round(delta_z, 5))
+        self._metric_signature = ("OR:x%.12e" % delta_x +
+                                  "y%.12e" % delta_y +
+                                  "y%.12e" % delta_z)
         super().__init__()
         self._index = element_index
         self._parameters = parameters
diff --git a/msehtt/static/mesh/great/elements/types/orthogonal_rectangle.py b/msehtt/static/mesh/great/elements/types/orthogonal_rectangle.py
index ca11849..7bcf28b 100644
--- a/msehtt/static/mesh/great/elements/types/orthogonal_rectangle.py
+++ b/msehtt/static/mesh/great/elements/types/orthogonal_rectangle.py
@@ -47,7 +47,7 @@ class MseHttGreatMeshOrthogonalRectangleElement(MseHttGreatMeshBaseElement):
         r""""""
         origin_x, origin_y = parameters['origin']
         delta_x, delta_y = parameters['delta']
-        self._metric_signature = f"OR:x%.5f" % round(delta_x, 5) + "y%.5f" % round(delta_y, 5)
+        self._metric_signature = "OR:x%.12e" % delta_x + "y%.12e" % delta_y
         self._polygon = None
 
         super().__init__()
diff --git a/msehtt/static/mesh/great/elements/types/vtu_5_triangle.py b/msehtt/static/mesh/great/elements/types/vtu_5_triangle.py
index f29aec2..893aab0 100644
--- a/msehtt/static/mesh/great/elements/types/vtu_5_triangle.py
+++ b/msehtt/static/mesh/great/elements/types/vtu_5_triangle.py
@@ -4,9 +4,7 @@ r"""
 import numpy as np
 
 from phyem.tools.frozen import Frozen
-from phyem.tools.functions.space._2d.angle import angle
 from phyem.tools.functions.space._2d.angles_of_triangle import angles_of_triangle
-from phyem.tools.functions.space._2d.distance import distance
 from phyem.msehtt.static.mesh.great.elements.types.base import MseHttGreatMeshBaseElement
 
 
@@ -36,13 +34,10 @@ class Vtu5Triangle(MseHttGreatMeshBaseElement):
 
     def __init__(self, element_index, parameters, _map):
         """"""
-        a, b, _ = angles_of_triangle(*parameters)
-        c = angle(parameters[0], parameters[1])
-        d = distance(parameters[0], parameters[1])
-        self._metric_signature = (f"5:a%.3f" % round(a, 3) +
-                                  "b%.3f" % round(b, 3) +
-                                  "c%.3f" % round(c, 3) +
-                                  "d%.6f" % round(d, 6))
+        # the metric is determined by the edge vectors from node 0 to the others.
+        self._metric_signature = "5:" + ':'.join(
+            ["%.12e" % (node[i] - parameters[0][i]) for node in parameters[1:] for i in range(2)]
+        )
 
         super().__init__()
         self._index = element_index
diff --git a/msehtt/static/mesh/great/elements/types/vtu_9_quad.py b/msehtt/static/mesh/great/elements/types/vtu_9_quad.py
index c35723d..8b5e9cf 100644
--- a/msehtt/static/mesh/great/elements/types/vtu_9_quad.py
+++ b/msehtt/static/mesh/great/elements/types/vtu_9_quad.py
@@ -7,9 +7,7 @@ from phyem.tools.frozen import Frozen
 
 from phyem.tools.miscellaneous.geometries.m2n2 import Point2, Polygon2, whether_point_in_polygon
 
-from phyem.tools.functions.space._2d.angle import angle
 from phyem.tools.functions.space._2d.angles_of_triangle import angles_of_triangle
-from phyem.tools.functions.space._2d.distance import distance
 
 from phyem.msehtt.static.mesh.great.elements.types.base import MseHttGreatMeshBaseElement
 
@@ -63,18 +61,10 @@ class Vtu9Quad(MseHttGreatMeshBaseElement):
 
     def __init__(self, element_index, parameters, _map):
         r""""""
-        a0, b, c0 = angles_of_triangle(parameters[0], parameters[1], parameters[2])   # in degree
-        a1, c1, _ = angles_of_triangle(parameters[0], parameters[2], parameters[3])   # in degree
-        a = a0 + a1
-        c = c0 + c1
-
-        d = angle(parameters[0], parameters[2])
-        dist = distance(parameters[0], parameters[2])
-        self._metric_signature = (f"9:a%.2f" % round(a, 2) +
-                                  "b%.2f" % round(b, 2) +
-                                  "c%.2f" % round(c, 2) +
-                                  "d%.3f" % round(d, 3) +
-                                  "dis%.5f" % round(dist, 5))
+        # the metric is determined by the edge vectors from node 0 to the others.
+        self._metric_signature = "9:" + ':'.join(
+            ["%.12e" % (node[i] - parameters[0][i]) for node in parameters[1:] for i in range(2)]
+        )
         self._polygon = None
 
         super().__init__()
diff --git a/msepy/manifold/predefined/crazy.py b/msepy/manifold/predefined/crazy.py
index b895436..66cbd9d 100644
--- a/msepy/manifold/predefined/crazy.py
+++ b/msepy/manifold/predefined/crazy.py
@@ -180,7 +180,7 @@ def _crazy(mf, bounds=None, c=0, periodic=False):
         for i, lb_ub in enumerate(bounds):
             xyz = 'xyz'[i]
             lb, ub = lb_ub
-            d = str(round(ub - lb, 5))  # do this to round off the truncation error.
+            d = '%.12g' % (ub - lb)  # do this to round off the truncation error.
             mtype['parameters'].append(xyz + d)
     else:
         mtype = None  # this is a unique region. Its metric does not like any other.
diff --git a/msepy/manifold/predefined/crazy_multi.py b/msepy/manifold/predefined/crazy_multi.py
index 4c2ee74..21f1f0c 100644
--- a/msepy/manifold/predefined/crazy_multi.py
+++ b/msepy/manifold/predefined/crazy_multi.py
@@ -317,7 +317,7 @@ def _crazy_multi(mf, bounds=None, c=0, Ns=None, periodic=False):
             for i, lb_ub in enumerate(region_mappings._regions[r]._bounds):
                 xyz = 'xyz'[i]
                 lb, ub = lb_ub
-                d = str(round(ub - lb, 5))  # do this to round off the truncation error.
+                d = '%.12g' % (ub - lb)  # do this to round off the truncation error.
                 mtype['parameters'].append(xyz + d)
         else:
             mtype = None  # this is a unique region. Its metric does not like any other.
diff --git a/msepy/manifold/regions/standard/ct.py b/msepy/manifold/regions/standard/ct.py
index 4d8f133..e7fc898 100644
--- a/msepy/manifold/regions/standard/ct.py
+++ b/msepy/manifold/regions/standard/ct.py
@@ -93,7 +93,7 @@ class _MsePyRegionMtype(Frozen):
             assert len(layout) == len(self._parameters), f"layout or parameters dimensions wrong."
             assert len(layout) == element_numbering.ndim, f"layout or element_numbering dimensions wrong."
 
-            LayOut = [np.round(_, 5) for _ in layout]
+            LayOut = layout
             parameters = self._parameters
             axis = [_[0] for _ in parameters]
             para = [float(_[1:]) for _ in parameters]
@@ -102,7 +102,7 @@ class _MsePyRegionMtype(Frozen):
                 for i in range(len(LayOut[0])):
                     Li = LayOut[0][i]
                     pi = para[0] * Li
-                    pi = round(pi, 5)
+                    pi = float('%.12g' % pi)  # do this to round off the truncation error.
                     key = 'Linear:' + axis[0] + str(pi)
 
                     element_number = element_numbering[i, ]
@@ -117,8 +117,8 @@ class _MsePyRegionMtype(Frozen):
 
                         Li, Lj = LayOut[0][i], LayOut[1][j]
                         pi, pj = para[0] * Li, para[1] * Lj
-                        pi = round(pi, 5)
-                        pj = round(pj, 5)
+                        pi = float('%.12g' % pi)  # do this to round off the truncation error.
+                        pj = float('%.12g' % pj)  # do this to round off the truncation error.
                         key = 'Linear:' + axis[0] + str(pi) + axis[1] + str(pj)
 
                         element_number = element_numbering[i, j]
@@ -134,9 +134,9 @@ class _MsePyRegionMtype(Frozen):
 
                             Li, Lj, Lk = LayOut[0][i], LayOut[1][j], LayOut[2][k]
                             pi, pj, pk = para[0] * Li, para[1] * Lj, para[2] * Lk
-                            pi = round(pi, 5)
-                            pj = round(pj, 5)
-                            pk = round(pk, 5)
+                            pi = float('%.12g' % pi)  # do this to round off the truncation error.
+                            pj = float('%.12g' % pj)  # do this to round off the truncation error.
+                            pk = float('%.12g' % pk)  # do this to round off the truncation error.
                             key = 'Linear:' + axis[0] + str(pi) + axis[1] + str(pj) + axis[2] + str(pk)
 
                             element_number = element_numbering[i, j, k]
-- 
2.43.0


From e9776567975bf255b628ed75fee7333369a63cef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:44:59 +0000
Subject: [PATCH 06/71] fix: do not round the Jacobian of orthogonal elements
 to eight decimals

---
 .../mesh/great/elements/types/orthogonal_hexahedron.py     | 7 ++-----
 .../mesh/great/elements/types/orthogonal_rectangle.py      | 4 +---
 2 files changed, 3 insertions(+), 8 deletions(-)

diff --git a/msehtt/static/mesh/great/elements/types/orthogonal_hexahedron.py b/msehtt/static/mesh/great/elements/types/orthogonal_hexahedron.py
index 7af74e4..8a8c520 100644
--- a/msehtt/static/mesh/great/elements/types/orthogonal_hexahedron.py
+++ b/msehtt/static/mesh/great/elements/types/orthogonal_hexahedron.py
@@ -356,14 +356,11 @@ _cache_ct_helper_pool_ = {}
 
 def ___ct_helper_parser___(ratio_x, ratio_y, ratio_z):
     """"""
-    ratio_x = round(ratio_x, 8)
-    ratio_y = round(ratio_y, 8)
-    ratio_z = round(ratio_z, 8)
-    key = (ratio_x, ratio_y, ratio_z)
+    key = ('%.14e' % ratio_x, '%.14e' % ratio_y, '%.14e' % ratio_z)
     if key in _cache_ct_helper_pool_:
         pass
     else:
-        _cache_ct_helper_pool_[key] = ___Orthogonal_Hexahedron___(*key)
+        _cache_ct_helper_pool_[key] = ___Orthogonal_Hexahedron___(ratio_x, ratio_y, ratio_z)
     return _cache_ct_helper_pool_[key]
 
 
diff --git a/msehtt/static/mesh/great/elements/types/orthogonal_rectangle.py b/msehtt/static/mesh/great/elements/types/orthogonal_rectangle.py
index 7bcf28b..a4e4966 100644
--- a/msehtt/static/mesh/great/elements/types/orthogonal_rectangle.py
+++ b/msehtt/static/mesh/great/elements/types/orthogonal_rectangle.py
@@ -325,9 +325,7 @@ _cache_ct_helper_pool_ = {}
 
 def ___ct_helper_parser___(ratio_x, ratio_y):
     r""""""
-    ratio_x = round(ratio_x, 8)
-    ratio_y = round(ratio_y, 8)
-    key = (ratio_x, ratio_y)
+    key = ('%.14e' % ratio_x, '%.14e' % ratio_y)
     if key in _cache_ct_helper_pool_:
         pass
     else:
-- 
2.43.0


From eb5bfc54929a6791101a8ad7d86104398103f659 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:03:08 +0000
Subject: [PATCH 07/71] fix: typo in the incidence matrix property of msepy
 forms

---
 msepy/form/matrix.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/msepy/form/matrix.py b/msepy/form/matrix.py
index 4208b31..aa2f22b 100644
--- a/msepy/form/matrix.py
+++ b/msepy/form/matrix.py
@@ -15,7 +15,7 @@ class MsePyRootFormMatrix(Frozen):
 
     @property
     def incidence(self):
-        return self._f.cobounday.incidence_matrix  # no cache, make new copy every time.
+        return self._f.coboundary.incidence_matrix  # no cache, make new copy every time.
 
     @property
     def mass(self):
-- 
2.43.0


From 2b86352ee67aa65283c59d46077beec2846f8d9e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:03:08 +0000
Subject: [PATCH 08/71] fix: default function of genpiecewise with numpy 2

---
 tools/gen_piece_wise.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tools/gen_piece_wise.py b/tools/gen_piece_wise.py
index 167b796..38689a8 100644
--- a/tools/gen_piece_wise.py
+++ b/tools/gen_piece_wise.py
@@ -112,7 +112,7 @@ def genpiecewise(xi, condlist, funclist, fillvalue=0, args=(), **kw):
 
     if not isinstance(xi, (list, tuple)):
         xi = (xi,)
-    condlist = np.broadcast_arrays(*condlist)
+    condlist = list(np.broadcast_arrays(*condlist))
     # noinspection PyTypeChecker
     if len(condlist) == len(funclist) - 1:
         # noinspection PyUnresolvedReferences
-- 
2.43.0


From 3ed96558803115b61584047cdc178d22d035ac18 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:03:21 +0000
Subject: [PATCH 09/71] fix: convection_by of the scalar and 3d vector wrappers

---
 tools/functions/time_space/_2d/wrappers/scalar.py | 2 +-
 tools/functions/time_space/_3d/wrappers/scalar.py | 2 +-
 tools/functions/time_space/_3d/wrappers/vector.py | 4 ++--
 3 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/tools/functions/time_space/_2d/wrappers/scalar.py b/tools/functions/time_space/_2d/wrappers/scalar.py
index 3a21729..ef108d3 100644
--- a/tools/functions/time_space/_2d/wrappers/scalar.py
+++ b/tools/functions/time_space/_2d/wrappers/scalar.py
@@ -372,7 +372,7 @@ class T2dScalar(TimeSpaceFunctionBase):
         -------
 
         """
-        assert u.__class__.__name__ == "t2dVector", f"I need a t2dVector."
+        assert u.__class__.__name__ == "T2dVector", f"I need a T2dVector."
 
         if self._dx is None:
             px = self._NPD_('x')
diff --git a/tools/functions/time_space/_3d/wrappers/scalar.py b/tools/functions/time_space/_3d/wrappers/scalar.py
index d310ca2..64f8afa 100644
--- a/tools/functions/time_space/_3d/wrappers/scalar.py
+++ b/tools/functions/time_space/_3d/wrappers/scalar.py
@@ -233,7 +233,7 @@ class T3dScalar(TimeSpaceFunctionBase):
         -------
 
         """
-        assert u.__class__.__name__ == "t3dVector", f"I need a t3dVector."
+        assert u.__class__.__name__ == "T3dVector", f"I need a T3dVector."
 
         if self._dx is None:
             px = self._NPD_('x')
diff --git a/tools/functions/time_space/_3d/wrappers/vector.py b/tools/functions/time_space/_3d/wrappers/vector.py
index 7c0d528..e34bcf4 100644
--- a/tools/functions/time_space/_3d/wrappers/vector.py
+++ b/tools/functions/time_space/_3d/wrappers/vector.py
@@ -408,7 +408,7 @@ class T3dVector(TimeSpaceFunctionBase):
         -------
 
         """
-        assert u.__class__.__name__ == "t3dVector", f"I need a t3dVector."
+        assert u.__class__.__name__ == "T3dVector", f"I need a T3dVector."
 
         if self._du_dx is None:
             v0px = self._NPD0_('x')
@@ -435,7 +435,7 @@ class T3dVector(TimeSpaceFunctionBase):
         else:
             v1py = self._dv_dy
 
-        if self._dv_dz:
+        if self._dv_dz is None:
             v1pz = self._NPD1_('z')
         else:
             v1pz = self._dv_dz
-- 
2.43.0


From a5fbdecdbcf54a7da5655678c690082fc7d9e009 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:03:21 +0000
Subject: [PATCH 10/71] fix: linear interpolation in time of msepy cochains

---
 msepy/form/cochain/main.py | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/msepy/form/cochain/main.py b/msepy/form/cochain/main.py
index 277c4ee..08977c7 100644
--- a/msepy/form/cochain/main.py
+++ b/msepy/form/cochain/main.py
@@ -177,18 +177,19 @@ class MsePyRootFormCochain(Frozen):
                     else:
                         segment_lb = None
                         segment_ub = None
-                        for i, segment_lb in enumerate(cochain_times):
-                            if t >= segment_lb:
-                                segment_ub = cochain_times[i+1]
+                        for i, segment_lb in enumerate(cochain_times[:-1]):
+                            segment_ub = cochain_times[i+1]
+                            if segment_lb <= t <= segment_ub:
                                 break
                             else:
                                 pass
                         assert segment_lb is not None and segment_ub is not None, \
                             f"something is wrong."
-                        cochain_lb = self[segment_lb]
-                        cochain_ub = self[segment_ub]
+                        cochain_lb = self[segment_lb].local
+                        cochain_ub = self[segment_ub].local
                         ratio = (t - segment_lb) / (segment_ub - segment_lb)
-                        cochain_t = cochain_lb + ratio * (cochain_ub - cochain_lb)
+                        cochain_t = _CochainAtOneTime(rf, t)
+                        cochain_t._receive(cochain_lb + ratio * (cochain_ub - cochain_lb))
                         return cochain_t
         else:
             return rf._base.cochain(t)
-- 
2.43.0


From 0cef6924d031a37c4e34b22b8bb3691e0200ca90 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:03:21 +0000
Subject: [PATCH 11/71] fix: newest cochain time after cleaning a particular
 time

---
 msehtt/static/form/cochain/main.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/msehtt/static/form/cochain/main.py b/msehtt/static/form/cochain/main.py
index 6ee4b92..a3976a3 100644
--- a/msehtt/static/form/cochain/main.py
+++ b/msehtt/static/form/cochain/main.py
@@ -144,6 +144,7 @@ class MseHttCochain(Frozen):
 
                 if t in self._tcd:
                     del self._tcd[t]
+                    self._newest_t = max(self._tcd) if self._tcd else None
                 else:
                     pass
 
-- 
2.43.0


From 9c40f5b7c23629666d020df86d79f7e9509d2620 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:04:33 +0000
Subject: [PATCH 12/71] fix: number the boundary faces of msepy 3d 2-forms

---
 msepy/space/gathering_matrix/Lambda.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/msepy/space/gathering_matrix/Lambda.py b/msepy/space/gathering_matrix/Lambda.py
index a0bb713..3d16470 100644
--- a/msepy/space/gathering_matrix/Lambda.py
+++ b/msepy/space/gathering_matrix/Lambda.py
@@ -60,7 +60,7 @@ class MsePyGatheringMatrixLambda(Frozen):
         for n in range(self._mesh.elements._num):  # currently, we are numbering nth element.
             # we first see the north side__________________________________________
             what_north = element_map[n][0]
-            if isinstance(what_north, str):
+            if what_north == -1:
                 # the north side of nth element is on domain boundary. So we just number it.
                 gn0[n, 0, :, :] = np.arange(current_number,
                                             current_number + num_basis_on_sides_dict['N']).reshape(
@@ -86,7 +86,7 @@ class MsePyGatheringMatrixLambda(Frozen):
             current_number += (p[0]-1)*p[1]*p[2]
             # next, we look at south side__________________________________________
             what_south = element_map[n][1]
-            if isinstance(what_south, str):
+            if what_south == -1:
                 # the south side of nth element is on domain boundary. So we just number it.
                 gn0[n, -1, :, :] = np.arange(current_number,
                                              current_number + num_basis_on_sides_dict['S']).reshape(
@@ -108,7 +108,7 @@ class MsePyGatheringMatrixLambda(Frozen):
 
             # we then look at the west side________________________________________
             what_west = element_map[n][2]
-            if isinstance(what_west, str):
+            if what_west == -1:
                 # the west side of nth element is on domain boundary. So we just number it.
                 gn1[n, :, 0, :] = np.arange(current_number,
                                             current_number + num_basis_on_sides_dict['W']).reshape(
@@ -134,7 +134,7 @@ class MsePyGatheringMatrixLambda(Frozen):
             current_number += p[0]*(p[1]-1)*p[2]
             # next, we look at east side___________________________________________
             what_east = element_map[n][3]
-            if isinstance(what_east, str):
+            if what_east == -1:
                 # the east side of nth element is on domain boundary. So we just number it.
                 gn1[n, :, -1, :] = np.arange(current_number,
                                              current_number + num_basis_on_sides_dict['E']).reshape(
@@ -155,7 +155,7 @@ class MsePyGatheringMatrixLambda(Frozen):
                 raise Exception()
             # we then look at the back side________________________________________
             what_back = element_map[n][4]
-            if isinstance(what_back, str):
+            if what_back == -1:
                 # the back side of nth element is on domain boundary. So we just number it.
                 gn2[n, :, :, 0] = np.arange(current_number,
                                             current_number + num_basis_on_sides_dict['B']).reshape(
@@ -182,7 +182,7 @@ class MsePyGatheringMatrixLambda(Frozen):
 
             # next, we look at front side__________________________________________
             what_front = element_map[n][5]
-            if isinstance(what_front, str):
+            if what_front == -1:
                 # the front side of nth element is on domain boundary. So we just number it.
                 gn2[n, :, :, -1] = np.arange(current_number,
                                              current_number + num_basis_on_sides_dict['F']).reshape(
-- 
2.43.0


From ca0ee4814e5840224eba27d0281deba64a4fcdf4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:17:10 +0000
Subject: [PATCH 13/71] fix: cross terms of the mass matrices of 1- and 2-forms
 in curvilinear hexahedra

---
 .../space/mass_matrix/Lambda/MM_m3n3k1.py     | 27 +++++++++++++--
 .../space/mass_matrix/Lambda/MM_m3n3k2.py     | 33 +++++++++++++++----
 2 files changed, 51 insertions(+), 9 deletions(-)

diff --git a/msehtt/static/space/mass_matrix/Lambda/MM_m3n3k1.py b/msehtt/static/space/mass_matrix/Lambda/MM_m3n3k1.py
index 73a7bb7..9eb87b2 100644
--- a/msehtt/static/space/mass_matrix/Lambda/MM_m3n3k1.py
+++ b/msehtt/static/space/mass_matrix/Lambda/MM_m3n3k1.py
@@ -119,14 +119,35 @@ def ___mm331_unique_hexahedron___(element, degree):
         bf[2], bf[2],
         optimize='optimal'
     )
+    M01 = np.einsum(
+        'm, im, jm -> ij',
+        quad_weights * detJM * G[0][1],
+        bf[0], bf[1],
+        optimize='optimal'
+    )
+    M02 = np.einsum(
+        'm, im, jm -> ij',
+        quad_weights * detJM * G[0][2],
+        bf[0], bf[2],
+        optimize='optimal'
+    )
+    M12 = np.einsum(
+        'm, im, jm -> ij',
+        quad_weights * detJM * G[1][2],
+        bf[1], bf[2],
+        optimize='optimal'
+    )
     M00 = csr_matrix(M00)
     M11 = csr_matrix(M11)
     M22 = csr_matrix(M22)
+    M01 = csr_matrix(M01)
+    M02 = csr_matrix(M02)
+    M12 = csr_matrix(M12)
     M = bmat(
         [
-            (M00, None, None),
-            (None, M11, None),
-            (None, None, M22)
+            (M00, M01, M02),
+            (M01.T, M11, M12),
+            (M02.T, M12.T, M22)
         ], format='csr'
     )
 
diff --git a/msehtt/static/space/mass_matrix/Lambda/MM_m3n3k2.py b/msehtt/static/space/mass_matrix/Lambda/MM_m3n3k2.py
index 664fa9b..956be66 100644
--- a/msehtt/static/space/mass_matrix/Lambda/MM_m3n3k2.py
+++ b/msehtt/static/space/mass_matrix/Lambda/MM_m3n3k2.py
@@ -103,30 +103,51 @@ def ___mm332_unique_hexahedron___(element, degree):
     g = element.ct.inverse_metric_matrix(*xi_et_sg)
     M00 = np.einsum(
         'm, im, jm -> ij',
-        quad_weights * detJM * g[1][1]*g[2][2],
+        quad_weights * detJM * (g[1][1]*g[2][2] - g[1][2]*g[2][1]),
         bf[0], bf[0],
         optimize='optimal'
     )
     M11 = np.einsum(
         'm, im, jm -> ij',
-        quad_weights * detJM * g[2][2]*g[0][0],
+        quad_weights * detJM * (g[2][2]*g[0][0] - g[2][0]*g[0][2]),
         bf[1], bf[1],
         optimize='optimal'
     )
     M22 = np.einsum(
         'm, im, jm -> ij',
-        quad_weights * detJM * g[0][0]*g[1][1],
+        quad_weights * detJM * (g[0][0]*g[1][1] - g[0][1]*g[1][0]),
         bf[2], bf[2],
         optimize='optimal'
     )
+    M01 = np.einsum(
+        'm, im, jm -> ij',
+        quad_weights * detJM * (g[1][2]*g[2][0] - g[1][0]*g[2][2]),
+        bf[0], bf[1],
+        optimize='optimal'
+    )
+    M02 = np.einsum(
+        'm, im, jm -> ij',
+        quad_weights * detJM * (g[1][0]*g[2][1] - g[1][1]*g[2][0]),
+        bf[0], bf[2],
+        optimize='optimal'
+    )
+    M12 = np.einsum(
+        'm, im, jm -> ij',
+        quad_weights * detJM * (g[2][0]*g[0][1] - g[2][1]*g[0][0]),
+        bf[1], bf[2],
+        optimize='optimal'
+    )
     M00 = csr_matrix(M00)
     M11 = csr_matrix(M11)
     M22 = csr_matrix(M22)
+    M01 = csr_matrix(M01)
+    M02 = csr_matrix(M02)
+    M12 = csr_matrix(M12)
     M = bmat(
         [
-            (M00, None, None),
-            (None, M11, None),
-            (None, None, M22)
+            (M00, M01, M02),
+            (M01.T, M11, M12),
+            (M02.T, M12.T, M22)
         ], format='csr'
     )
 
-- 
2.43.0


From 164ea28571f6c7e93a7494deecd74d67e1d6b328 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:17:58 +0000
Subject: [PATCH 14/71] fix: mass matrices in curvilinear hexahedra for
 customized node distributions

---
 msehtt/static/space/mass_matrix/Lambda/MM_m3n3k0.py | 4 +++-
 msehtt/static/space/mass_matrix/Lambda/MM_m3n3k1.py | 4 +++-
 msehtt/static/space/mass_matrix/Lambda/MM_m3n3k2.py | 4 +++-
 3 files changed, 9 insertions(+), 3 deletions(-)

diff --git a/msehtt/static/space/mass_matrix/Lambda/MM_m3n3k0.py b/msehtt/static/space/mass_matrix/Lambda/MM_m3n3k0.py
index e770aa0..d1d6fd0 100644
--- a/msehtt/static/space/mass_matrix/Lambda/MM_m3n3k0.py
+++ b/msehtt/static/space/mass_matrix/Lambda/MM_m3n3k0.py
@@ -75,7 +75,9 @@ def ___mm330_unique_hexahedron___(element, degree):
     """"""
     p, btype = element.degree_parser(degree)
     quad_degree = (p[0]+2, p[1]+2, p[2]+2)
-    quad = quadrature(quad_degree, btype)
+    # the quadrature nodes of a customized node distribution are fixed; use 'Gauss' along such an axis
+    BTYPE = [bt if bt in ('Gauss', 'Lobatto') else 'Gauss' for bt in btype]
+    quad = quadrature(quad_degree, tuple(BTYPE))
     quad_nodes = quad.quad_nodes
     quad_weights = quad.quad_weights_ravel
     xi_et_sg, bf = element.bf('m3n3k0', degree, *quad_nodes)
diff --git a/msehtt/static/space/mass_matrix/Lambda/MM_m3n3k1.py b/msehtt/static/space/mass_matrix/Lambda/MM_m3n3k1.py
index 9eb87b2..6dd75e3 100644
--- a/msehtt/static/space/mass_matrix/Lambda/MM_m3n3k1.py
+++ b/msehtt/static/space/mass_matrix/Lambda/MM_m3n3k1.py
@@ -95,7 +95,9 @@ def ___mm331_unique_hexahedron___(element, degree):
     """"""
     p, btype = element.degree_parser(degree)
     quad_degree = (p[0]+2, p[1]+2, p[2]+2)
-    quad = quadrature(quad_degree, btype)
+    # the quadrature nodes of a customized node distribution are fixed; use 'Gauss' along such an axis
+    BTYPE = [bt if bt in ('Gauss', 'Lobatto') else 'Gauss' for bt in btype]
+    quad = quadrature(quad_degree, tuple(BTYPE))
     quad_nodes = quad.quad_nodes
     quad_weights = quad.quad_weights_ravel
     xi_et_sg, bf = element.bf('m3n3k1', degree, *quad_nodes)
diff --git a/msehtt/static/space/mass_matrix/Lambda/MM_m3n3k2.py b/msehtt/static/space/mass_matrix/Lambda/MM_m3n3k2.py
index 956be66..bfaf8ca 100644
--- a/msehtt/static/space/mass_matrix/Lambda/MM_m3n3k2.py
+++ b/msehtt/static/space/mass_matrix/Lambda/MM_m3n3k2.py
@@ -95,7 +95,9 @@ def ___mm332_unique_hexahedron___(element, degree):
     """"""
     p, btype = element.degree_parser(degree)
     quad_degree = (p[0], p[1], p[2])
-    quad = quadrature(quad_degree, btype)
+    # the quadrature nodes of a customized node distribution are fixed; use 'Gauss' along such an axis
+    BTYPE = [bt if bt in ('Gauss', 'Lobatto') else 'Gauss' for bt in btype]
+    quad = quadrature(quad_degree, tuple(BTYPE))
     quad_nodes = quad.quad_nodes
     quad_weights = quad.quad_weights_ravel
     xi_et_sg, bf = element.bf('m3n3k2', degree, *quad_nodes)
-- 
2.43.0


From b4f70c517e625520c14a4d608621b0959ad99567 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:20:15 +0000
Subject: [PATCH 15/71] fix: integrals of scalar forms over 3d msehtt meshes

---
 msehtt/static/space/mass/Lambda/mass_m3n3k0.py | 2 +-
 msehtt/static/space/mass/Lambda/mass_m3n3k3.py | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/msehtt/static/space/mass/Lambda/mass_m3n3k0.py b/msehtt/static/space/mass/Lambda/mass_m3n3k0.py
index 21a708f..0b76daa 100644
--- a/msehtt/static/space/mass/Lambda/mass_m3n3k0.py
+++ b/msehtt/static/space/mass/Lambda/mass_m3n3k0.py
@@ -40,7 +40,7 @@ def _mass330_msepy_quadrilateral_(element, local_cochain, degree):
     meshgrid = np.meshgrid(*nodes, indexing='ij')
     J = element.ct.Jacobian(*meshgrid)
     mass = np.einsum(
-        'ij, i, j -> ',
+        'ijk, i, j, k -> ',
         J * u, *weights,
         optimize='optimal'
     )
diff --git a/msehtt/static/space/mass/Lambda/mass_m3n3k3.py b/msehtt/static/space/mass/Lambda/mass_m3n3k3.py
index 7016b4a..042d64a 100644
--- a/msehtt/static/space/mass/Lambda/mass_m3n3k3.py
+++ b/msehtt/static/space/mass/Lambda/mass_m3n3k3.py
@@ -40,7 +40,7 @@ def _mass333_msepy_quadrilateral_(element, local_cochain, degree):
     meshgrid = np.meshgrid(*nodes, indexing='ij')
     J = element.ct.Jacobian(*meshgrid)
     mass = np.einsum(
-        'ij, i, j -> ',
+        'ijk, i, j, k -> ',
         J * u, *weights,
         optimize='optimal'
     )
-- 
2.43.0


From 98847db6b8d306652382b4c85239908c185faa73 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:31:06 +0000
Subject: [PATCH 16/71] fix: local dofs of 3d forms on element faces of msepy
 meshes

---
 msepy/space/find/local_dofs.py | 44 +++++++++++++---------------------
 1 file changed, 16 insertions(+), 28 deletions(-)

diff --git a/msepy/space/find/local_dofs.py b/msepy/space/find/local_dofs.py
index b2da771..95fdca9 100644
--- a/msepy/space/find/local_dofs.py
+++ b/msepy/space/find/local_dofs.py
@@ -1,6 +1,8 @@
 # -*- coding: utf-8 -*-
 r"""
 """
+import numpy as np
+
 from phyem.tools.frozen import Frozen
 
 
@@ -211,43 +213,29 @@ class _MsePySpaceFindLocalDofs(Frozen):
         else:
             raise Exception()
 
-        return face_local_numbering
+        return face_local_numbering.ravel('F')
 
     def _Lambda_m3_n3_k1(self, m, n, degree):
-        """"""
+        """The edges on the face are those of the two components tangential to it."""
         local_numbering_dx, local_numbering_dy, local_numbering_dz = self._space.local_numbering(degree)
 
-        if m == 0:
-            local_numbering = local_numbering_dx
-            if n == 0:
-                face_local_numbering = local_numbering[0, :, :]
-            elif n == 1:
-                face_local_numbering = local_numbering[-1, :, :]
-            else:
-                raise Exception()
+        if n == 0:
+            i = 0
+        elif n == 1:
+            i = -1
+        else:
+            raise Exception()
 
+        if m == 0:
+            face_local_numbering = (local_numbering_dy[i, :, :], local_numbering_dz[i, :, :])
         elif m == 1:
-            local_numbering = local_numbering_dy
-            if n == 0:
-                face_local_numbering = local_numbering[:, 0, :]
-            elif n == 1:
-                face_local_numbering = local_numbering[:, -1, :]
-            else:
-                raise Exception()
-
+            face_local_numbering = (local_numbering_dx[:, i, :], local_numbering_dz[:, i, :])
         elif m == 2:
-            local_numbering = local_numbering_dz
-            if n == 0:
-                face_local_numbering = local_numbering[:, :, 0]
-            elif n == 1:
-                face_local_numbering = local_numbering[:, :, -1]
-            else:
-                raise Exception()
-
+            face_local_numbering = (local_numbering_dx[:, :, i], local_numbering_dy[:, :, i])
         else:
             raise Exception()
 
-        return face_local_numbering
+        return np.concatenate([_.ravel('F') for _ in face_local_numbering])
 
     def _Lambda_m3_n3_k2(self, m, n, degree):
         """"""
@@ -283,7 +271,7 @@ class _MsePySpaceFindLocalDofs(Frozen):
         else:
             raise Exception()
 
-        return face_local_numbering
+        return face_local_numbering.ravel('F')
 
     def _Lambda_m2_n1_k1_outer(self, m, n, degree):
         """"""
-- 
2.43.0


From eb973e1eaa62f65ff329faf491776caddd421e0f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:31:06 +0000
Subject: [PATCH 17/71] fix: add up the boundary integrals of dofs shared by
 several faces of an element

---
 msehtt/static/form/bi/vc/Lambda/bi_vc_m2n2k0.py               | 4 ++--
 msehtt/static/form/bi/vc/Lambda/bi_vc_m3n3k0.py               | 2 +-
 msehtt/static/form/bi/vc/Lambda/bi_vc_m3n3k1.py               | 2 +-
 .../with_vc_over_boundary_section/Lambda.py                   | 4 ++--
 4 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/msehtt/static/form/bi/vc/Lambda/bi_vc_m2n2k0.py b/msehtt/static/form/bi/vc/Lambda/bi_vc_m2n2k0.py
index 9bc8340..25461ea 100644
--- a/msehtt/static/form/bi/vc/Lambda/bi_vc_m2n2k0.py
+++ b/msehtt/static/form/bi/vc/Lambda/bi_vc_m2n2k0.py
@@ -50,7 +50,7 @@ def bi_vc__m2n2k0_outer(rf0, t, vc, boundary_section):
         else:
             data_dict[element_index] = np.zeros(num_test_form_local_dofs)
 
-        data_dict[element_index][local_dofs] = face_boundary_integration_vec
+        data_dict[element_index][local_dofs] += face_boundary_integration_vec
 
     return data_dict
 
@@ -146,7 +146,7 @@ def bi_vc__m2n2k0_inner(rf0, t, vc, boundary_section):
         else:
             data_dict[element_index] = np.zeros(num_test_form_local_dofs)
 
-        data_dict[element_index][local_dofs] = face_boundary_integration_vec
+        data_dict[element_index][local_dofs] += face_boundary_integration_vec
 
     return data_dict
 
diff --git a/msehtt/static/form/bi/vc/Lambda/bi_vc_m3n3k0.py b/msehtt/static/form/bi/vc/Lambda/bi_vc_m3n3k0.py
index 6df07fc..094cc02 100644
--- a/msehtt/static/form/bi/vc/Lambda/bi_vc_m3n3k0.py
+++ b/msehtt/static/form/bi/vc/Lambda/bi_vc_m3n3k0.py
@@ -40,7 +40,7 @@ def bi_vc__m3n3k0(rf0, t, vc, boundary_section):
         else:
             data_dict[element_index] = np.zeros(num_test_form_local_dofs)
 
-        data_dict[element_index][local_dofs] = face_boundary_integration_vec
+        data_dict[element_index][local_dofs] += face_boundary_integration_vec
 
     return data_dict
 
diff --git a/msehtt/static/form/bi/vc/Lambda/bi_vc_m3n3k1.py b/msehtt/static/form/bi/vc/Lambda/bi_vc_m3n3k1.py
index e19fa76..b4e77da 100644
--- a/msehtt/static/form/bi/vc/Lambda/bi_vc_m3n3k1.py
+++ b/msehtt/static/form/bi/vc/Lambda/bi_vc_m3n3k1.py
@@ -43,7 +43,7 @@ def bi_vc__m3n3k1(rf1, t, vc, boundary_section):
         else:
             data_dict[element_index] = np.zeros(num_test_form_local_dofs)
 
-        data_dict[element_index][local_dofs] = face_boundary_integration_vec
+        data_dict[element_index][local_dofs] += face_boundary_integration_vec
 
     return data_dict
 
diff --git a/msepy/form/boundary_integrate/with_vc_over_boundary_section/Lambda.py b/msepy/form/boundary_integrate/with_vc_over_boundary_section/Lambda.py
index 3044be7..e31fa7f 100644
--- a/msepy/form/boundary_integrate/with_vc_over_boundary_section/Lambda.py
+++ b/msepy/form/boundary_integrate/with_vc_over_boundary_section/Lambda.py
@@ -123,7 +123,7 @@ class BoundaryIntegrateVCBSLambda(Frozen):
                     Jacobian = np.sqrt(JM[0]**2 + JM[1]**2)
 
                 boundary_integration = np.sum(trStar_1f * tr_0f * weights * Jacobian, axis=1)
-                bi_data[element, local_dofs] = boundary_integration
+                bi_data[element, local_dofs] += boundary_integration
 
             return bi_data
 
@@ -196,7 +196,7 @@ class BoundaryIntegrateVCBSLambda(Frozen):
                     Jacobian = np.sqrt(JM[0]**2 + JM[1]**2)
 
                 boundary_integration = np.sum(trStar_1f * tr_0f * weights * Jacobian, axis=1)
-                bi_data[element, local_dofs] = boundary_integration
+                bi_data[element, local_dofs] += boundary_integration
 
             return bi_data
 
-- 
2.43.0


From 51aecb9a930234e93ff7e7076065b217e3345292 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:20 +0000
Subject: [PATCH 18/71] fix: keep local matrices untouched when assembling with
 a threshold

---
 msehtt/tools/matrix/static/local.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/msehtt/tools/matrix/static/local.py b/msehtt/tools/matrix/static/local.py
index 60dcaa7..9680b19 100644
--- a/msehtt/tools/matrix/static/local.py
+++ b/msehtt/tools/matrix/static/local.py
@@ -734,7 +734,7 @@ class MseHttStaticLocalMatrixAssemble(Frozen):
             if threshold is None:
                 pass
             else:
-                data[np.abs(data) < threshold] = 0.
+                data = np.where(np.abs(data) < threshold, 0., data)  # leave the local data untouched
 
             nums: list = list(diff(indptr))
             row = []
@@ -874,7 +874,7 @@ class MseHttStaticLocalMatrixAssemble(Frozen):
             if threshold is None:
                 pass
             else:
-                data[np.abs(data) < threshold] = 0.
+                data = np.where(np.abs(data) < threshold, 0., data)  # leave the local data untouched
 
             nums: list = list(diff(indptr))
             row = []
-- 
2.43.0


From ab95886df05f5d8777fc1e819d3d08d70ff4ced9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:36 +0000
Subject: [PATCH 19/71] fix: do not share customized local data between
 elements in derived msehtt matrices

---
 msehtt/tools/matrix/static/local.py | 23 +++++++++++++++--------
 1 file changed, 15 insertions(+), 8 deletions(-)

diff --git a/msehtt/tools/matrix/static/local.py b/msehtt/tools/matrix/static/local.py
index 9680b19..f91c2ff 100644
--- a/msehtt/tools/matrix/static/local.py
+++ b/msehtt/tools/matrix/static/local.py
@@ -113,6 +113,13 @@ class MseHttStaticLocalMatrix(Frozen):
         else:
             return str((self._gm_row.num_local_dofs(i), self._gm_col.num_local_dofs(i)))
 
+    def _customized_cache_key(self, i):
+        r"""The cache key to be used by matrices derived from me: a customized element shares its data with no other."""
+        if i in self.customize:
+            return 'unique'
+        else:
+            return self._cache_key(i)
+
     def _parse_signature(self, signature, cache_key):
         r""""""
         if signature is None:
@@ -257,7 +264,7 @@ class MseHttStaticLocalMatrix(Frozen):
             signature = '-' + self._signature
 
         return self.__class__(
-            data_caller, self._gm_row, self._gm_col, cache_key=self._cache_key,
+            data_caller, self._gm_row, self._gm_col, cache_key=self._customized_cache_key,
             signature=signature
         )
 
@@ -274,7 +281,7 @@ class MseHttStaticLocalMatrix(Frozen):
             signature = 'inv' + self._signature
 
         return self.__class__(
-            ___inv_caller___, self._gm_col, self._gm_row, cache_key=self._cache_key,
+            ___inv_caller___, self._gm_col, self._gm_row, cache_key=self._customized_cache_key,
             special_indicator=f'inverse matrix of {self.__repr__()}',
             signature=signature
         )
@@ -291,7 +298,7 @@ class MseHttStaticLocalMatrix(Frozen):
             signature = self._signature + '^T '
 
         return self.__class__(
-            data_caller, self._gm_col, self._gm_row, cache_key=self._cache_key,
+            data_caller, self._gm_col, self._gm_row, cache_key=self._customized_cache_key,
             signature=signature
         )
 
@@ -308,7 +315,7 @@ class MseHttStaticLocalMatrix(Frozen):
                 signature = '%r*' % other + self._signature
 
             return self.__class__(
-                data_caller, self._gm_row, self._gm_col, cache_key=self._cache_key,
+                data_caller, self._gm_row, self._gm_col, cache_key=self._customized_cache_key,
                 signature=signature
             )
 
@@ -323,8 +330,8 @@ class MseHttStaticLocalMatrix(Frozen):
                 return self[i] + other[i]
 
             def cache_key_caller(i):
-                key1 = self._cache_key(i)
-                key2 = other._cache_key(i)
+                key1 = self._customized_cache_key(i)
+                key2 = other._customized_cache_key(i)
                 if key1 == 'unique' or key2 == 'unique':
                     return 'unique'
                 else:
@@ -358,11 +365,11 @@ class MseHttStaticLocalMatrix(Frozen):
                 return self[i] @ other[i]
 
             def cache_key_caller(i):
-                key1 = self._cache_key(i)
+                key1 = self._customized_cache_key(i)
                 if key1 == 'unique':
                     return 'unique'
                 else:
-                    key2 = other._cache_key(i)
+                    key2 = other._customized_cache_key(i)
                     if key2 == 'unique':
                         return 'unique'
                     else:
-- 
2.43.0


From 109834bf13184b2a9a6c4f293de7bb49259d2383 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:47 +0000
Subject: [PATCH 20/71] fix: find the place of the additional constraint of a
 global dof in enlarged msehtt systems

---
 msehtt/tools/gathering_matrix.py              | 20 +++++++++++++++++--
 .../nonlinear_system/static/solve/Picard.py   |  4 ++--
 2 files changed, 20 insertions(+), 4 deletions(-)

diff --git a/msehtt/tools/gathering_matrix.py b/msehtt/tools/gathering_matrix.py
index ac3a580..f23fb37 100644
--- a/msehtt/tools/gathering_matrix.py
+++ b/msehtt/tools/gathering_matrix.py
@@ -304,8 +304,8 @@ class MseHttGatheringMatrix(Frozen):
         And 1536 will be returned in all ranks. So, this method should be called at the same time
         in all ranks with the same inputs.
         """
-        e, i = self._gms[ith_composition].find_representative_location(locally_global_dof)
-        return self.find_global_numbering_of_ith_composition_local_dof(ith_composition, e, i)
+        element, local_dof = self._gms[ith_composition].find_representative_place(locally_global_dof)
+        return self.find_global_numbering_of_ith_composition_local_dof(ith_composition, element, local_dof)
 
     def find_global_numbering_of_ith_composition_local_dof(
             self, ith_composition, element_index, local_dof
@@ -470,6 +470,22 @@ class MseHttGatheringMatrix(Frozen):
         self._representative_cache[i] = (representative_rank, representative_element)
         return representative_rank, representative_element
 
+    def find_representative_place(self, i):
+        r"""Return (element, local dof) of the representative location of global dof #i in all ranks."""
+        representative_rank, representative_element = self.find_representative_location(i)
+        local_dof = None
+        if RANK == representative_rank:
+            for _element, _local_dof in self.find_rank_locations_of_global_dofs(i)[i]:
+                if _element == representative_element:
+                    local_dof = int(_local_dof)
+                    break
+                else:
+                    pass
+        else:
+            pass
+        local_dof = COMM.bcast(local_dof, root=representative_rank)
+        return representative_element, local_dof
+
     def num_global_locations(self, i):
         r"""Return how many elements sharing the global dof #i."""
         if i in self._global_location_cache:
diff --git a/msehtt/tools/nonlinear_system/static/solve/Picard.py b/msehtt/tools/nonlinear_system/static/solve/Picard.py
index 76a025a..f2a2923 100644
--- a/msehtt/tools/nonlinear_system/static/solve/Picard.py
+++ b/msehtt/tools/nonlinear_system/static/solve/Picard.py
@@ -184,9 +184,9 @@ class MseHtt_NonlinearSystem_Picard(Frozen):
 
                     the_unknown = xi[ith_unknown]
                     the_gm = the_unknown._gm
-                    e, local_dof = the_gm.find_representative_location(global_dof)
+                    e, local_dof = the_gm.find_representative_place(global_dof)
                     if e in the_unknown:
-                        initial_guess = the_unknown[e][global_dof]
+                        initial_guess = the_unknown[e][local_dof]
                     else:
                         initial_guess = 0
                     initial_guess = COMM.allreduce(initial_guess, op=MPI.SUM)
-- 
2.43.0


From f56c098e817b398cd546eca6ca1bb21401ee6c0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:47 +0000
Subject: [PATCH 21/71] fix: negative element index when setting a local dof of
 a msepy linear system

---
 msepy/tools/linear_system/static/local/customize.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/msepy/tools/linear_system/static/local/customize.py b/msepy/tools/linear_system/static/local/customize.py
index 133121a..3ad1c60 100644
--- a/msepy/tools/linear_system/static/local/customize.py
+++ b/msepy/tools/linear_system/static/local/customize.py
@@ -71,7 +71,7 @@ class MsePyStaticLinearSystemCustomize(Frozen):
         num_elements, k_num_local_dofs = k_gm.shape
 
         if i < 0:
-            _i = i + k_num_local_dofs
+            _i = i + num_elements
         else:
             _i = i
 
-- 
2.43.0


From 920bac6c941135df7590a9ccef8d4cbc5b29ab86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:47 +0000
Subject: [PATCH 22/71] fix: do not write customizations of a msepy local
 vector into its original data

---
 msepy/tools/vector/static/local.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/msepy/tools/vector/static/local.py b/msepy/tools/vector/static/local.py
index 5fa9756..db6fe4e 100644
--- a/msepy/tools/vector/static/local.py
+++ b/msepy/tools/vector/static/local.py
@@ -286,11 +286,11 @@ class MsePyStaticLocalVectorCustomize(Frozen):
         dof = list(elements_local_rows.keys())[0]
         elements, local_rows = elements_local_rows[dof]
         element, local_row = elements[0], local_rows[0]
-        data = self._v[element]
+        data = self._v[element].copy()
         data[local_row] = value
         self._customizations[element] = data
         for element, local_row in zip(elements[1:], local_rows[1:]):
-            data = self._v[element]
+            data = self._v[element].copy()
             data[local_row] = 0
             self._customizations[element] = data
 
@@ -320,7 +320,7 @@ class MsePyStaticLocalVectorCustomize(Frozen):
 
         involved_data = dict()
         for element in involved_elements:
-            involved_data[element] = self._v[element]
+            involved_data[element] = self._v[element].copy()
 
         for dof in dof_cochain_dict:
             cochain = dof_cochain_dict[dof]
-- 
2.43.0


From d6a9e7dee94aace07727cdba401c7df9244a1f11 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:52 +0000
Subject: [PATCH 23/71] fix: set all values when rows or columns repeat in
 msepy matrix customization

---
 msepy/tools/matrix/static/local.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/msepy/tools/matrix/static/local.py b/msepy/tools/matrix/static/local.py
index eaf3b57..3518baa 100644
--- a/msepy/tools/matrix/static/local.py
+++ b/msepy/tools/matrix/static/local.py
@@ -642,7 +642,7 @@ class _MsePyStaticLocalMatrixCustomize(Frozen):
 
         all_positions = dict()
 
-        for global_row, global_col, val in zip(elements_local_rows, elements_local_cols, vals):
+        for global_row, global_col, val in zip(rows, cols, vals):
             row_elements_indices = elements_local_rows[global_row]
             col_elements_indices = elements_local_cols[global_col]
 
-- 
2.43.0


From 56ddab48a39d1f8dbf9f7fe21ee38245c4be6679 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:03 +0000
Subject: [PATCH 24/71] fix: a block of a dynamic system no longer is the
 shared matrix itself, so boundary conditions do not alter the mass matrix

---
 msehtt/tools/linear_system/dynamic/main.py | 3 +++
 msepy/tools/linear_system/dynamic/main.py  | 3 +++
 2 files changed, 6 insertions(+)

diff --git a/msehtt/tools/linear_system/dynamic/main.py b/msehtt/tools/linear_system/dynamic/main.py
index 86233a0..0be59d1 100644
--- a/msehtt/tools/linear_system/dynamic/main.py
+++ b/msehtt/tools/linear_system/dynamic/main.py
@@ -527,6 +527,9 @@ class DynamicBlockEntry(Frozen):
             if factor == 1:
                 if sign == '-':
                     factor_term = - term
+                elif term.__class__ is MseHttStaticLocalMatrix:
+                    # a new matrix: the parsed one is shared, so it must not receive customizations of this block.
+                    factor_term = 1 * term
                 else:
                     factor_term = term
 
diff --git a/msepy/tools/linear_system/dynamic/main.py b/msepy/tools/linear_system/dynamic/main.py
index 69cf925..fc8024a 100644
--- a/msepy/tools/linear_system/dynamic/main.py
+++ b/msepy/tools/linear_system/dynamic/main.py
@@ -508,6 +508,9 @@ class DynamicBlockEntry(Frozen):
             if factor == 1:
                 if sign == '-':
                     factor_term = - term
+                elif term.__class__ is MsePyStaticLocalMatrix:
+                    # a new matrix: the parsed one is shared, so it must not receive customizations of this block.
+                    factor_term = 1 * term
                 else:
                     factor_term = term
 
-- 
2.43.0


From f639ced2f3ed6802b9ba976155be819d9d7928b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:12:23 +0000
Subject: [PATCH 25/71] fix: cleaning the cochain of an msepy form that has no
 cochain yet raised KeyError

---
 msepy/form/cochain/main.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/msepy/form/cochain/main.py b/msepy/form/cochain/main.py
index 08977c7..b779a85 100644
--- a/msepy/form/cochain/main.py
+++ b/msepy/form/cochain/main.py
@@ -95,7 +95,7 @@ class MsePyRootFormCochain(Frozen):
             new_tcd = {}
             if what is None:  # clear all t except the newest t
                 newest_t = self._newest_t
-                if new_tcd is None:
+                if newest_t is None:
                     pass
                 else:
                     new_tcd[newest_t] = self._tcd[newest_t]
-- 
2.43.0


From 55c27dd518e54b9c8b2928609386e039ffab9474 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:12:23 +0000
Subject: [PATCH 26/71] fix: overwriting a cochain of an msehtt form evicted
 the cochain of another time instant

---
 msehtt/static/form/cochain/main.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/msehtt/static/form/cochain/main.py b/msehtt/static/form/cochain/main.py
index a3976a3..6be8e2b 100644
--- a/msehtt/static/form/cochain/main.py
+++ b/msehtt/static/form/cochain/main.py
@@ -54,6 +54,7 @@ class MseHttCochain(Frozen):
         rf = self._f
 
         if rf._is_base():
+            t = self._parse_t(t)
             # -- auto_cleaning: memory saving ------------------------------------------------
             auto_cleaning = _setting['auto_cleaning']
             if auto_cleaning is False:
@@ -68,14 +69,15 @@ class MseHttCochain(Frozen):
                 left_cochain_amount = int(left_cochain_amount)
                 assert left_cochain_amount >= 2, f"auto_cleaning must left more than one cochains."
 
-                if len(self) >= left_cochain_amount:
+                if t in self._tcd:
+                    pass  # overwrite an existing one: no room is needed, thus no other cochain has to go.
+                elif len(self) >= left_cochain_amount:
                     self.clean(-left_cochain_amount+1)
                     assert len(self) == left_cochain_amount - 1, f'must be!'
                 else:
                     pass
 
             # =================================================================================
-            t = self._parse_t(t)
             _cochain_at_time = MseHttTimeInstantCochain(self._f, t)
             _cochain_at_time._receive(cochain)
             self._tcd[t] = _cochain_at_time
-- 
2.43.0


From f39444326cc0d02076d453242e66ea28f8f3352a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:36 +0000
Subject: [PATCH 27/71] fix: the interpolation of an msehtt form stayed at an
 overwritten cochain

---
 msehtt/static/form/numeric/main.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/msehtt/static/form/numeric/main.py b/msehtt/static/form/numeric/main.py
index 90c4691..44e20e2 100644
--- a/msehtt/static/form/numeric/main.py
+++ b/msehtt/static/form/numeric/main.py
@@ -20,7 +20,7 @@ class MseHtt_Form_Numeric(Frozen):
         r""""""
         self._f = f
         self._tsp = None
-        self._cache_key_ = ''
+        self._cache_key_ = None
         self._cache_itp_ = None
         self._export = None
         self._freeze()
@@ -144,10 +144,11 @@ class MseHtt_Form_Numeric(Frozen):
             pass
         else:
             key = f"{t}={ddf}={component_wise}"
-            if key == self._cache_key_:
+            cochain_data = self._f.cochain[t]._cochain  # replaced whenever the cochain at `t` is changed.
+            if self._cache_key_ is not None and self._cache_key_[0] == key and self._cache_key_[1] is cochain_data:
                 return self._cache_itp_
             else:
-                self._cache_key_ = key
+                self._cache_key_ = None
 
         n = self._f.space.n
         total_num_elements = self._f.tpm.composition.num_global_elements
@@ -287,6 +288,8 @@ class MseHtt_Form_Numeric(Frozen):
         else:
             raise NotImplementedError()
 
+        # noinspection PyUnboundLocalVariable
+        self._cache_key_ = (key, cochain_data)
         return self._cache_itp_
 
     def _interpolate_global_(self, t=None, ddf=1, data_only=False, component_wise=False):
-- 
2.43.0


From 69bfc1bc2b16a1e2894c0488bef48c022a3cebb1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:19:00 +0000
Subject: [PATCH 28/71] fix: the interpolation of an msepy form ignored a
 changed density or factor and could stay at an overwritten cochain

---
 msepy/form/numeric/main.py | 22 +++++++++-------------
 1 file changed, 9 insertions(+), 13 deletions(-)

diff --git a/msepy/form/numeric/main.py b/msepy/form/numeric/main.py
index f2b9706..120b066 100644
--- a/msepy/form/numeric/main.py
+++ b/msepy/form/numeric/main.py
@@ -25,8 +25,8 @@ class MsePyRootFormNumeric(Frozen):
         self._dds = None
         self._sf = None
         self._interp_cache = {
-            'time': None,
-            'cochain_id': -1,
+            'key': None,
+            'cochain': None,
             'interp': None
         }
         self._freeze()
@@ -340,15 +340,11 @@ class MsePyRootFormNumeric(Frozen):
         else:
             time = t
 
-        if isinstance(self._interp_cache['time'], (float, int)):
-            cached_time = self._interp_cache['time']
-            cochain_id = self._interp_cache['cochain_id']   # check whether cochain at time t is changed.
-            current_cochain_id = id(self._f.cochain[time])
-            if cached_time == time and cochain_id == current_cochain_id:
-                return self._interp_cache['interp']
-
-            else:
-                pass
+        # check whether the cochain at `time` is changed; we keep the cochain object itself since its id may be reused.
+        cache_key = (time, density, factor)
+        cochain = self._f.cochain[time]
+        if self._interp_cache['key'] == cache_key and self._interp_cache['cochain'] is cochain:
+            return self._interp_cache['interp']
         else:
             pass
 
@@ -414,8 +410,8 @@ class MsePyRootFormNumeric(Frozen):
         else:  # other dimensions
             raise NotImplementedError()
 
-        self._interp_cache['time'] = time
-        self._interp_cache['cochain_id'] = id(self._f.cochain[time])
+        self._interp_cache['key'] = cache_key
+        self._interp_cache['cochain'] = cochain
         # noinspection PyTypedDict
         self._interp_cache['interp'] = _2b_return_
 
-- 
2.43.0


From ceba62ab3dae10ff7877b5ba0892b8c0979011a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:20:46 +0000
Subject: [PATCH 29/71] fix: basis functions on custom nodes were taken from
 the cache of other nodes equal to 5 digits

---
 msepy/tools/polynomials.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/msepy/tools/polynomials.py b/msepy/tools/polynomials.py
index 184cace..3de501d 100644
--- a/msepy/tools/polynomials.py
+++ b/msepy/tools/polynomials.py
@@ -69,7 +69,7 @@ class _OneDimPolynomial(Frozen):
             if node in (-1, 1):
                 str_nodes_key.append(str(node))
             else:
-                str_nodes_key.append("%.5f" % node)
+                str_nodes_key.append(float(node).hex())  # exact: nodes close to each other are different nodes.
         self._str_nodes_key = '|'.join(str_nodes_key)
         self._p_ = np.size(self.nodes) - 1
         self._isKronecker_ = True
-- 
2.43.0


From 60dae31f489aabfaa9ba0227312b0a7f23141061 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:13:16 +0000
Subject: [PATCH 30/71] fix: msepy Newton-Raphson compares the norm of the
 increment, not its square, with atol

---
 msepy/tools/nonlinear_system/static/solve/Newton_Raphson.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/msepy/tools/nonlinear_system/static/solve/Newton_Raphson.py b/msepy/tools/nonlinear_system/static/solve/Newton_Raphson.py
index 9076858..ddf9ef1 100644
--- a/msepy/tools/nonlinear_system/static/solve/Newton_Raphson.py
+++ b/msepy/tools/nonlinear_system/static/solve/Newton_Raphson.py
@@ -274,7 +274,7 @@ class MsePyNonlinearSystemNewtonRaphsonSolve(Frozen):
                 [
                     np.sum(_**2) for _ in dx
                 ]
-            )
+            ) ** 0.5
 
             BETA.append(beta)
             JUDGE, stop_iteration, convergence_info, JUDGE_explanation = _check_stop_criterion_(
-- 
2.43.0


From 92d4c35c0e41cc4a989a95aefa7171221d4bdaeb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:13:47 +0000
Subject: [PATCH 31/71] fix: msepy nonlinear solver: every
 set_no_evaluation_of_local_dofs customization uses its own dofs

---
 .../nonlinear_system/static/solve/Newton_Raphson.py    | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/msepy/tools/nonlinear_system/static/solve/Newton_Raphson.py b/msepy/tools/nonlinear_system/static/solve/Newton_Raphson.py
index ddf9ef1..272f7a5 100644
--- a/msepy/tools/nonlinear_system/static/solve/Newton_Raphson.py
+++ b/msepy/tools/nonlinear_system/static/solve/Newton_Raphson.py
@@ -122,7 +122,7 @@ class MsePyNonlinearSystemNewtonRaphsonSolve(Frozen):
         xi = x0
 
         # --- some caches ----------------------------
-        _global_dofs_cache = None
+        _global_dofs_cache = dict()  # one entry for each customization.
 
         # -- start the Newton iterations ----------------------------
         while 1:
@@ -221,7 +221,7 @@ class MsePyNonlinearSystemNewtonRaphsonSolve(Frozen):
             ls = MsePyStaticLocalLinearSystem(LHS, x, f)
 
             # adopt customizations: important ------------------------------------------ 2
-            for customization in self._nls.customize._customizations:
+            for ith_cus, customization in enumerate(self._nls.customize._customizations):
                 method_name = customization[0]
                 method_para = customization[1]
 
@@ -236,13 +236,13 @@ class MsePyNonlinearSystemNewtonRaphsonSolve(Frozen):
 
                 elif method_name == 'set_no_evaluation_for_overall_local_dofs':
 
-                    if _global_dofs_cache is None:
+                    if ith_cus not in _global_dofs_cache:
                         elements, overall_local_dofs = method_para
                         gm = A._gm0_row
                         global_dofs = gm._find_global_numbering(elements, overall_local_dofs)
-                        _global_dofs_cache = global_dofs
+                        _global_dofs_cache[ith_cus] = global_dofs
                     else:
-                        global_dofs = _global_dofs_cache
+                        global_dofs = _global_dofs_cache[ith_cus]
 
                     A.customize.identify_diagonal(global_dofs)
                     f.customize.set_values(global_dofs, 0)
-- 
2.43.0


From 2629d0cdb37b83647ff3b936903da2af5bcc503b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:14:12 +0000
Subject: [PATCH 32/71] fix: msepy nonlinear solver does not change the cochain
 that provides the initial guess

---
 msepy/tools/nonlinear_system/static/solve/Newton_Raphson.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/msepy/tools/nonlinear_system/static/solve/Newton_Raphson.py b/msepy/tools/nonlinear_system/static/solve/Newton_Raphson.py
index 272f7a5..556af21 100644
--- a/msepy/tools/nonlinear_system/static/solve/Newton_Raphson.py
+++ b/msepy/tools/nonlinear_system/static/solve/Newton_Raphson.py
@@ -37,7 +37,7 @@ class MsePyNonlinearSystemNewtonRaphsonSolve(Frozen):
                 gm = f.cochain.gathering_matrix
                 if newest_time is None:  # no newest cochain at all.
                     # then use 0-cochain
-                    local_cochain = np.zeros_like(gm._gm)
+                    local_cochain = np.zeros(gm._gm.shape)
 
                 else:
                     local_cochain = f.cochain[newest_time].local
@@ -108,7 +108,7 @@ class MsePyNonlinearSystemNewtonRaphsonSolve(Frozen):
                 i, elements, local_dofs, local_values = method_para
                 assert len(elements) == len(local_dofs) == len(local_values), f"positions are not correct."
 
-                x0_i = x0[i]
+                x0_i = x0[i].copy()  # never change the cochain that provides the initial guess.
                 assert isinstance(x0_i, np.ndarray) and x0_i.ndim == 2, f'safety check'
 
                 for j,  e in enumerate(elements):
-- 
2.43.0


From faa3c71ae9322c0a4472b4dff538ae50d89b7ced Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:15:25 +0000
Subject: [PATCH 33/71] fix: msepy nonlinear solver sets the initial value of a
 shared dof in all its elements

---
 .../nonlinear_system/static/solve/Newton_Raphson.py   | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/msepy/tools/nonlinear_system/static/solve/Newton_Raphson.py b/msepy/tools/nonlinear_system/static/solve/Newton_Raphson.py
index 556af21..f0d9307 100644
--- a/msepy/tools/nonlinear_system/static/solve/Newton_Raphson.py
+++ b/msepy/tools/nonlinear_system/static/solve/Newton_Raphson.py
@@ -111,8 +111,17 @@ class MsePyNonlinearSystemNewtonRaphsonSolve(Frozen):
                 x0_i = x0[i].copy()  # never change the cochain that provides the initial guess.
                 assert isinstance(x0_i, np.ndarray) and x0_i.ndim == 2, f'safety check'
 
+                # a dof may be shared by elements that are not in `elements`; set it in all elements it belongs to.
+                gm = self._nls._col_gms[i]._gm
+                set_dofs = np.zeros(np.max(gm) + 1, dtype=bool)
+                set_values = np.zeros(np.max(gm) + 1)
+
                 for j,  e in enumerate(elements):
-                    x0_i[e, local_dofs[j]] = local_values[j]
+                    dofs = gm[e, local_dofs[j]]
+                    set_dofs[dofs] = True
+                    set_values[dofs] = local_values[j]
+
+                x0_i[set_dofs[gm]] = set_values[gm][set_dofs[gm]]
 
                 x0[i] = x0_i
 
-- 
2.43.0


From 225913c389c045a531318896a5e50da34318347f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:41:52 +0000
Subject: [PATCH 34/71] fix: signatures of msehtt elements do not distinguish
 elements smaller than 1e-4 (2d) or 1e-3 (3d)

---
 msehtt/static/mesh/great/elements/types/base.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/msehtt/static/mesh/great/elements/types/base.py b/msehtt/static/mesh/great/elements/types/base.py
index 6c0c45b..0838e99 100644
--- a/msehtt/static/mesh/great/elements/types/base.py
+++ b/msehtt/static/mesh/great/elements/types/base.py
@@ -153,13 +153,15 @@ class MseHttGreatMeshBaseElement(Frozen):
             X, Y = self.ct.mapping(___xi2___, ___et2___)
             signature = list()
             for x, y in zip(X, Y):
-                signature.append("({:.4f},{:.4f})".format(round(x, 4), round(y, 4)))
+                signature.append("({:.10f},{:.10f})".format(round(x, 10) + 0., round(y, 10) + 0.))
             signature = ''.join(signature)
         elif self.m() == self.n() == 3:  # 3d element in 3d space
             X, Y, Z = self.ct.mapping(___xi3___, ___et3___, ___sg3___)
             signature = list()
             for x, y, z in zip(X, Y, Z):
-                signature.append("({:.3f},{:.3f},{:.3f})".format(round(x, 3), round(y, 3), round(z, 3)))
+                signature.append(
+                    "({:.10f},{:.10f},{:.10f})".format(round(x, 10) + 0., round(y, 10) + 0., round(z, 10) + 0.)
+                )
             signature = ''.join(signature)
         else:
             raise NotImplementedError((self.m(), self.n()))
-- 
2.43.0


From 4f051c6640c514b7326c44371691cb7479325517 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:41:52 +0000
Subject: [PATCH 35/71] fix: a saved group of dds-rws loses the names of its
 variables

---
 tools/dds/region_wise_structured_group.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/tools/dds/region_wise_structured_group.py b/tools/dds/region_wise_structured_group.py
index b211f23..b0c65ed 100644
--- a/tools/dds/region_wise_structured_group.py
+++ b/tools/dds/region_wise_structured_group.py
@@ -95,6 +95,7 @@ class DDS_RegionWiseStructured_Group(Frozen):
             'key': 'dds-rws-grouped',
             'coo_dict_list': self._coo_dict_list,
             'val_dict_list_group': self._val_dict_list_group,
+            'names': self._value_names,
         }
         with open(filename, 'wb') as output:
             pickle.dump(data_dict, output, pickle.HIGHEST_PROTOCOL)
@@ -110,6 +111,10 @@ class DDS_RegionWiseStructured_Group(Frozen):
         assert data['key'] == 'dds-rws-grouped', f'I am reading a wrong file.'
         coo_dict_list = data['coo_dict_list']
         val_dict_list_group = data['val_dict_list_group']
+        if 'names' in data:  # not in files saved by older versions
+            val_dict_list_group = dict(zip(data['names'], val_dict_list_group))
+        else:
+            pass
         return DDS_RegionWiseStructured_Group(coo_dict_list, val_dict_list_group)
 
     # -- properties --------------------------------------------------------------------------
-- 
2.43.0


From f412327e1a89586b0809d3a1fe77f88f30027872 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:41:59 +0000
Subject: [PATCH 36/71] fix: dds-rws stream function tells corners at 0 and -0
 apart

---
 tools/dds/region_wise_structured.py | 29 +++++++++++++++++------------
 1 file changed, 17 insertions(+), 12 deletions(-)

diff --git a/tools/dds/region_wise_structured.py b/tools/dds/region_wise_structured.py
index f05286f..0969ab9 100644
--- a/tools/dds/region_wise_structured.py
+++ b/tools/dds/region_wise_structured.py
@@ -703,7 +703,7 @@ class DDSRegionWiseStructured(Frozen):
                 s_c00, s_sf = starting_coo_and_sf
                 if self.classification == '2d vector':
                     # noinspection PyTypeChecker
-                    corner_pool['%.7f-%.7f' % (s_c00[0], s_c00[1])] = s_sf
+                    corner_pool[self._corner_key_2d_(s_c00[0], s_c00[1])] = s_sf
                 else:
                     raise Exception()
                 empty_corner_pool = False
@@ -778,34 +778,39 @@ class DDSRegionWiseStructured(Frozen):
             return self.__class__(self._coo_dict_list, [sf_dict, ])
 
     @staticmethod
-    def _renew_starting_point_2d_(corner_pool, x, y):
+    def _corner_key_2d_(x, y):
         """"""
-        xm_ym = '%.7f-%.7f' % (x[0, 0], y[0, 0])
+        return '%.7f-%.7f' % (round(x, 7) + 0., round(y, 7) + 0.)  # `+ 0.`: no '-0.0000000'.
+
+    @classmethod
+    def _renew_starting_point_2d_(cls, corner_pool, x, y):
+        """"""
+        xm_ym = cls._corner_key_2d_(x[0, 0], y[0, 0])
         if xm_ym in corner_pool:
             return (0, 0), corner_pool[xm_ym]
 
-        xp_ym = '%.7f-%.7f' % (x[-1, 0], y[-1, 0])
+        xp_ym = cls._corner_key_2d_(x[-1, 0], y[-1, 0])
         if xp_ym in corner_pool:
             return (-1, 0), corner_pool[xp_ym]
 
-        xm_yp = '%.7f-%.7f' % (x[0, -1], y[0, -1])
+        xm_yp = cls._corner_key_2d_(x[0, -1], y[0, -1])
         if xm_yp in corner_pool:
             return (0, -1), corner_pool[xm_yp]
 
-        xp_yp = '%.7f-%.7f' % (x[-1, -1], y[-1, -1])
+        xp_yp = cls._corner_key_2d_(x[-1, -1], y[-1, -1])
         if xp_yp in corner_pool:
             return (-1, -1), corner_pool[xp_yp]
 
         return None  # Cannot find a starting point for the region, do it for other regions first
 
-    @staticmethod
-    def _find_corner_xy_sf_(x, y, sf):
+    @classmethod
+    def _find_corner_xy_sf_(cls, x, y, sf):
         """"""
         corner_sf_pool = {
-            '%.7f-%.7f' % (x[0, 0], y[0, 0]): sf[0, 0],
-            '%.7f-%.7f' % (x[-1, 0], y[-1, 0]): sf[-1, 0],
-            '%.7f-%.7f' % (x[0, -1], y[0, -1]): sf[0, -1],
-            '%.7f-%.7f' % (x[-1, -1], y[-1, -1]): sf[-1, -1]
+            cls._corner_key_2d_(x[0, 0], y[0, 0]): sf[0, 0],
+            cls._corner_key_2d_(x[-1, 0], y[-1, 0]): sf[-1, 0],
+            cls._corner_key_2d_(x[0, -1], y[0, -1]): sf[0, -1],
+            cls._corner_key_2d_(x[-1, -1], y[-1, -1]): sf[-1, -1]
         }
         return corner_sf_pool
 
-- 
2.43.0


From 101dc8556bf9434df0a7564bf826e70851df344c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:52:11 +0000
Subject: [PATCH 37/71] fix: too many ranks for a mesh are reported as a
 TypeError

---
 msehtt/static/mesh/great/config/vtu.py | 2 +-
 msehtt/static/mesh/great/main.py       | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/msehtt/static/mesh/great/config/vtu.py b/msehtt/static/mesh/great/config/vtu.py
index d484eb7..a263af3 100644
--- a/msehtt/static/mesh/great/config/vtu.py
+++ b/msehtt/static/mesh/great/config/vtu.py
@@ -103,7 +103,7 @@ class MseHttVtuInterface(Frozen):
 
                 if distribution_method == 'Naive':
                     if num_total_elements < SIZE:
-                        raise r"number of elements is lower than SIZE, reduce SIZE."
+                        raise Exception("number of elements is lower than SIZE, reduce SIZE.")
 
                     elif SIZE == 1:
                         element_distribution[0] = list(self._global_element_type_dict.keys())
diff --git a/msehtt/static/mesh/great/main.py b/msehtt/static/mesh/great/main.py
index 101886f..cf49c97 100644
--- a/msehtt/static/mesh/great/main.py
+++ b/msehtt/static/mesh/great/main.py
@@ -781,7 +781,7 @@ class MseHttGreatMesh(Frozen):
                 num_total_elements = len(elements_indices)
 
                 if num_total_elements < SIZE:
-                    raise r"number of elements is lower than SIZE, reduce SIZE."
+                    raise Exception("number of elements is lower than SIZE, reduce SIZE.")
                 elif num_total_elements == SIZE:
                     for rank, e in enumerate(all_element_type_dict):
                         element_distribution[rank] = [e]
-- 
2.43.0


From dafeb9416ab16e8bf7c7afa397c66b57b23b534c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:52:11 +0000
Subject: [PATCH 38/71] fix: periodic faces that touch no element of the first
 rank are lost

---
 msehtt/static/mesh/great/elements/main.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/msehtt/static/mesh/great/elements/main.py b/msehtt/static/mesh/great/elements/main.py
index 093a0ed..8442d9d 100644
--- a/msehtt/static/mesh/great/elements/main.py
+++ b/msehtt/static/mesh/great/elements/main.py
@@ -399,6 +399,8 @@ class MseHttGreatMeshElements(Frozen):
                 for face_map in pool:
                     if face_map in POOL:
                         POOL[face_map].extend(pool[face_map])
+                    else:
+                        POOL[face_map] = pool[face_map]
             face_element_POOL = POOL
 
             POOL = face_coo_POOL[0]
@@ -406,6 +408,8 @@ class MseHttGreatMeshElements(Frozen):
                 for face_map in pool:
                     if face_map in POOL:
                         POOL[face_map].extend(pool[face_map])
+                    else:
+                        POOL[face_map] = pool[face_map]
             face_coo_POOL = POOL
 
             periodic_face_pairing_m2n2 = {}
-- 
2.43.0


From 8afddb6582fd62f74396441498cf6cec17d70429 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:46:27 +0000
Subject: [PATCH 39/71] fix: gmres and lgmres overwrite the given initial guess

---
 msehtt/tools/linear_system/static/global_/solvers/mpi_py.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/msehtt/tools/linear_system/static/global_/solvers/mpi_py.py b/msehtt/tools/linear_system/static/global_/solvers/mpi_py.py
index ce503e1..b9d929c 100644
--- a/msehtt/tools/linear_system/static/global_/solvers/mpi_py.py
+++ b/msehtt/tools/linear_system/static/global_/solvers/mpi_py.py
@@ -75,7 +75,7 @@ def gmres(
     if isinstance(x0, (int, float)) and x0 == 0:
         x0 = np.zeros(A.shape[1])
     else:
-        x0 = x0.V               # x0 is a shell of the gathered global vector, x0； x0.V is a 1d np.ndarray.
+        x0 = x0.V.copy()        # x0 is a shell of the gathered global vector, x0； x0.V is a 1d np.ndarray.
 
     shape0, shape1 = A.shape
     assert f.shape[0] == x0.shape[0] == shape0 == shape1, "Ax=f shape dis-match."
@@ -275,7 +275,7 @@ def lgmres(
     if isinstance(x0, (int, float)) and x0 == 0:
         x0 = np.zeros(A.shape[1])
     else:
-        x0 = x0.V               # x0 is a shell of the gathered global vector, x0； x0.V is a 1d np.ndarray.
+        x0 = x0.V.copy()        # x0 is a shell of the gathered global vector, x0； x0.V is a 1d np.ndarray.
 
     shape0, shape1 = A.shape
     assert f.shape[0] == x0.shape[0] == shape0 == shape1, "Ax=f shape dis-match."
-- 
2.43.0


From eee51066d90d92b81b75b8cfa83d7432624fbc1d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:46:27 +0000
Subject: [PATCH 40/71] fix: gmres and lgmres fail on breakdown, restart 1 and
 singular least-squares problems

---
 .../static/global_/solvers/mpi_py.py          | 39 +++++++++++--------
 1 file changed, 22 insertions(+), 17 deletions(-)

diff --git a/msehtt/tools/linear_system/static/global_/solvers/mpi_py.py b/msehtt/tools/linear_system/static/global_/solvers/mpi_py.py
index b9d929c..37711ca 100644
--- a/msehtt/tools/linear_system/static/global_/solvers/mpi_py.py
+++ b/msehtt/tools/linear_system/static/global_/solvers/mpi_py.py
@@ -111,7 +111,7 @@ def gmres(
         COMM.Reduce(v0, VV, op=MPI.SUM, root=MASTER_RANK)
         if RANK == MASTER_RANK:
             beta = np.sum(VV ** 2) ** 0.5
-            v0 = VV / beta
+            v0 = VV / beta if beta > 0 else VV
         else:
             beta = None
 
@@ -141,6 +141,7 @@ def gmres(
             if 0 in local_ind:
                 Vs[local_ind_dict[0]] = v0
 
+        scale = 0
         for j in range(restart):
 
             if RANK == MASTER_RANK:
@@ -179,11 +180,14 @@ def gmres(
             if RANK == MASTER_RANK:
                 hat_v_jp1 = AVJ - SUM_Hij_vi
                 Hm[j + 1, j] = np.sum(hat_v_jp1 ** 2) ** 0.5
+                scale = max(scale, np.sum(AVJ ** 2) ** 0.5)
 
-                if j < restart - 1:
-                    v_jp1 = hat_v_jp1 / Hm[j+1, j]
+                if j >= restart - 1:
+                    pass
+                elif Hm[j + 1, j] <= 1e-13 * scale:  # breakdown: no new direction.
+                    v_jp1 = np.zeros((shape0,), dtype=float)
                 else:
-                    del v_jp1
+                    v_jp1 = hat_v_jp1 / Hm[j + 1, j]
 
             else:
                 if j == 0:
@@ -203,11 +207,9 @@ def gmres(
         COMM.Reduce(Hm, HM, op=MPI.SUM, root=MASTER_RANK)
 
         if RANK == MASTER_RANK:
-            HMT = HM.T
-            ls_A = HMT @ HM
-            ls_b = HMT[:, 0] * beta
-            ym = np.linalg.solve(ls_A, ls_b)
-            # del HMT, ls_A, ls_b
+            ls_b = np.zeros(restart + 1)
+            ls_b[0] = beta
+            ym = np.linalg.lstsq(HM, ls_b, rcond=None)[0]
             x0 += ym.T @ Vm
 
         COMM.Bcast(x0, root=MASTER_RANK)
@@ -326,7 +328,7 @@ def lgmres(
         COMM.Reduce(v0, VV, op=MPI.SUM, root=MASTER_RANK)
         if RANK == MASTER_RANK:
             beta = np.sum(VV ** 2) ** 0.5
-            v0 = VV / beta
+            v0 = VV / beta if beta > 0 else VV
         else:
             beta = None
 
@@ -359,6 +361,7 @@ def lgmres(
             if 0 in local_ind:
                 Vs[local_ind_dict[0]] = v0
 
+        scale = 0
         for j in range(restart):
 
             if j < m:
@@ -414,11 +417,14 @@ def lgmres(
             if RANK == MASTER_RANK:
                 hat_v_jp1 = AVJ - SUM_Hij_vi
                 Hm[j + 1, j] = np.sum(hat_v_jp1 ** 2) ** 0.5
+                scale = max(scale, np.sum(AVJ ** 2) ** 0.5)
 
-                if j < restart - 1:
-                    v_jp1 = hat_v_jp1 / Hm[j + 1, j]
+                if j >= restart - 1:
+                    pass
+                elif Hm[j + 1, j] <= 1e-13 * scale:  # breakdown: no new direction.
+                    v_jp1 = np.zeros((shape0,), dtype=float)
                 else:
-                    del v_jp1
+                    v_jp1 = hat_v_jp1 / Hm[j + 1, j]
 
             else:
                 if j == 0:
@@ -438,10 +444,9 @@ def lgmres(
         COMM.Reduce(Hm, HM, op=MPI.SUM, root=MASTER_RANK)
 
         if RANK == MASTER_RANK:
-            HMT = HM.T
-            ls_A = HMT @ HM
-            ls_b = HMT[:, 0] * beta
-            ym = np.linalg.solve(ls_A, ls_b)
+            ls_b = np.zeros(restart + 1)
+            ls_b[0] = beta
+            ym = np.linalg.lstsq(HM, ls_b, rcond=None)[0]
         else:
             pass
 
-- 
2.43.0


From 62a8af3eb7dd3c1ed45583c9be8e66eea630ae06 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:10:35 +0000
Subject: [PATCH 41/71] fix: group keys of geometries differ by the sign of
 zero

---
 tools/miscellaneous/geometries/m2n2.py | 6 +++---
 tools/miscellaneous/geometries/m3n3.py | 7 ++++---
 2 files changed, 7 insertions(+), 6 deletions(-)

diff --git a/tools/miscellaneous/geometries/m2n2.py b/tools/miscellaneous/geometries/m2n2.py
index 0abe94d..70565fc 100644
--- a/tools/miscellaneous/geometries/m2n2.py
+++ b/tools/miscellaneous/geometries/m2n2.py
@@ -69,7 +69,7 @@ class Point2(Frozen):
         r"""Return a key-string, and other objects of the same key-string can be a subset
         of me. Or the other way around.
         """
-        return "p%.6f" % round(self._x, 8)
+        return "p%.6f" % (round(self._x, 6) + 0.0)  # + 0.0: no negative zero.
 
     def __eq__(self, other):
         r""""""
@@ -248,7 +248,7 @@ class StraightSegment2(Frozen):
         """
         slope = self.slope
         if abs(slope) == np.inf:
-            return "ss:inf%.6f" % round(self.A.x, 8)
+            return "ss:inf%.6f" % (round(self.A.x, 6) + 0.0)  # + 0.0: no negative zero.
         else:
             if abs(slope) < 1e-8:
                 slope = 0
@@ -256,7 +256,7 @@ class StraightSegment2(Frozen):
                 pass
             x0, y0 = self.A.x, self.A.y
             y = y0 - slope * x0
-            return f"ss%.6f" % round(y, 8) + ":%.6f" % round(slope, 8)
+            return f"ss%.6f" % (round(y, 6) + 0.0) + ":%.6f" % (round(slope, 6) + 0.0)
 
     def whether_contain__input__as_a_part_of_same_type(self, geo):
         r"""Return True iff `geo` is also a StraightSegment and it is a subset of self."""
diff --git a/tools/miscellaneous/geometries/m3n3.py b/tools/miscellaneous/geometries/m3n3.py
index 641ced2..436962f 100644
--- a/tools/miscellaneous/geometries/m3n3.py
+++ b/tools/miscellaneous/geometries/m3n3.py
@@ -60,7 +60,7 @@ class Point3(Frozen):
         r"""Return a key-string, and other objects of the same key-string can be a subset
         of me. Or the other way around.
         """
-        return "%.6f" % round(self._x, 6) + "P%.6f" % round(self._y, 6)
+        return "%.6f" % (round(self._x, 6) + 0.0) + "P%.6f" % (round(self._y, 6) + 0.0)  # + 0.0: no negative zero.
 
     def whether_contain__input__as_a_part_of_same_type(self, geo):
         r""""""
@@ -259,7 +259,8 @@ class OrthogonalSegment3(Frozen):
         r"""Return a key-string, and other objects of the same key-string can be a subset
         of me. Or the other way around.
         """
-        return rf"S{self._axis}" + '%.5f' % round(self._line[0], 5) + '-%.5f' % round(self._line[1], 5)
+        # + 0.0: no negative zero.
+        return rf"S{self._axis}" + '%.5f' % (round(self._line[0], 5) + 0.0) + '-%.5f' % (round(self._line[1], 5) + 0.0)
 
     def whether_contain__input__as_a_part_of_same_type(self, geo):
         r"""Return True iff `geo` is also a StraightSegment3 and it is a subset of self."""
@@ -429,7 +430,7 @@ class PerpRectangle(Frozen):
         r"""Return a key-string, and other objects of the same key-string can be a subset
         of me. Or the other way around.
         """
-        return rf"pR{self._perp_axis}" + '%.6f' % round(self._face, 6)
+        return rf"pR{self._perp_axis}" + '%.6f' % (round(self._face, 6) + 0.0)  # + 0.0: no negative zero.
 
     def whether_contain__input__as_a_part_of_same_type(self, geo):
         r"""Return True iff `geo` is also a perp-rectangle and it is a subset of self."""
-- 
2.43.0


From 8ab655ad07a421a549bd1d45432419d7e49b1f09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:10:35 +0000
Subject: [PATCH 42/71] fix: union/intersection of polygons with degenerate
 pieces, and points at the ends of curves

---
 tools/miscellaneous/geometries/m2n2.py | 16 +++++++++++++++-
 1 file changed, 15 insertions(+), 1 deletion(-)

diff --git a/tools/miscellaneous/geometries/m2n2.py b/tools/miscellaneous/geometries/m2n2.py
index 70565fc..1fd426a 100644
--- a/tools/miscellaneous/geometries/m2n2.py
+++ b/tools/miscellaneous/geometries/m2n2.py
@@ -673,6 +673,10 @@ class Polygon2(Frozen):
             raise NotImplementedError()
         gdf = gpd.GeoDataFrame({'geometry': [polygon1, polygon2]})
         union_polygon = unary_union(gdf.geometry)
+        if union_polygon.__class__.__name__ == 'MultiPolygon' and len(union_polygon.geoms) == 1:
+            union_polygon = union_polygon.geoms[0]
+        else:
+            pass
         if union_polygon.__class__.__name__ == 'MultiPolygon':
             return f'MultiPolygon-NotImplemented!'  # basically, a not implemented error
         else:
@@ -694,12 +698,22 @@ class Polygon2(Frozen):
         else:
             raise NotImplementedError()
         intersection = polygon1.intersection(polygon2)
+        if hasattr(intersection, 'geoms'):  # round-off may add points or segments to the polygon.
+            polygons = [_ for _ in intersection.geoms if _.__class__.__name__ == 'Polygon']
+            if len(polygons) == 1:
+                intersection = polygons[0]
+            else:
+                pass
+        else:
+            pass
         if intersection.__class__.__name__ == 'Point':
             # noinspection PyUnresolvedReferences
             return Point2(intersection.x, intersection.y)
         elif intersection.__class__.__name__ == 'LineString':
             x, y = intersection.coords.xy
             return f'LineString@x{x}y{y}'  # basically, a not implemented error
+        elif intersection.__class__.__name__ != 'Polygon':  # for example, two points.
+            return f'{intersection.__class__.__name__}-NotImplemented!'  # basically, a not implemented error
         else:
             # noinspection PyUnresolvedReferences
             points = np.array(intersection.exterior.coords)
@@ -910,7 +924,7 @@ def whether_point_on_curve(point, curve):
 
     if x in curve._x_interval:
         t = curve.t_from_x(x)
-        Y = curve.y_from_t(t)
+        Y = curve._yt(t)  # t may leave the interval by round-off.
         if np.isclose(y, Y):
             return True
         else:
-- 
2.43.0


From a394a5474bafdeca0ba5b00608ff34cb926164f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:10:35 +0000
Subject: [PATCH 43/71] fix: extent of a hexahedron along x, length of a
 segment of negative direction

---
 tools/miscellaneous/geometries/m3n3.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/tools/miscellaneous/geometries/m3n3.py b/tools/miscellaneous/geometries/m3n3.py
index 436962f..e489124 100644
--- a/tools/miscellaneous/geometries/m3n3.py
+++ b/tools/miscellaneous/geometries/m3n3.py
@@ -213,7 +213,7 @@ class OrthogonalSegment3(Frozen):
         assert isinstance(length, (int, float))
         assert abs(length) > 1e-4, f"length too small."
         self._axis = axis
-        self._length = length
+        self._length = abs(length)
         x, y, z = origin._x, origin._y, origin._z
         if self._axis == 'x':
             self._bounds = [x, x+length]
@@ -504,7 +504,7 @@ class OrthogonalHexahedron(Frozen):
 
         self._d_xyz = (abs(dx), abs(dy), abs(dz))
 
-        self._bounds0 = [x0, x0 + dy]
+        self._bounds0 = [x0, x0 + dx]
         self._bounds1 = [y0, y0 + dy]
         self._bounds2 = [z0, z0 + dz]
 
-- 
2.43.0


From c7d502acd27bbfa003cd6866dfcf14750b990f84 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:10:35 +0000
Subject: [PATCH 44/71] fix: a scaling function used twice scales the last
 function only

---
 tools/functions/space/_2d/scaling.py | 11 ++++++-----
 tools/functions/space/_3d/scaling.py | 11 ++++++-----
 2 files changed, 12 insertions(+), 10 deletions(-)

diff --git a/tools/functions/space/_2d/scaling.py b/tools/functions/space/_2d/scaling.py
index 9022ec8..77bd6ee 100644
--- a/tools/functions/space/_2d/scaling.py
+++ b/tools/functions/space/_2d/scaling.py
@@ -23,12 +23,13 @@ class ScalingFunc(ABC):
     def __init__(self, C):
         self._C_ = C
 
-    def _scaled_func_(self, x, y):
-        return self._C_ * self._func_(x, y)
-
     def __call__(self, func):
-        self._func_ = func
-        return self._scaled_func_
+        C = self._C_
+
+        def _scaled_func_(x, y):
+            return C * func(x, y)
+
+        return _scaled_func_
 
 
 if __name__ == "__main__":
diff --git a/tools/functions/space/_3d/scaling.py b/tools/functions/space/_3d/scaling.py
index f2826ec..63ff808 100644
--- a/tools/functions/space/_3d/scaling.py
+++ b/tools/functions/space/_3d/scaling.py
@@ -7,9 +7,10 @@ class ScalingFunc(ABC):
     def __init__(self, C):
         self._C_ = C
 
-    def _scaled_func_(self, x, y, z):
-        return self._C_ * self._func_(x, y, z)
-
     def __call__(self, func):
-        self._func_ = func
-        return self._scaled_func_
+        C = self._C_
+
+        def _scaled_func_(x, y, z):
+            return C * func(x, y, z)
+
+        return _scaled_func_
-- 
2.43.0


From a98db867aa63d143f22c448cf0b0bf30767467d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:10:35 +0000
Subject: [PATCH 45/71] fix: angles of flat triangles raise a math domain error

---
 tools/functions/space/_2d/angles_of_triangle.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/tools/functions/space/_2d/angles_of_triangle.py b/tools/functions/space/_2d/angles_of_triangle.py
index a5d6811..389aaa3 100644
--- a/tools/functions/space/_2d/angles_of_triangle.py
+++ b/tools/functions/space/_2d/angles_of_triangle.py
@@ -18,10 +18,10 @@ def angles_of_triangle(A, B, C):
     b2 = b ** 2
     c2 = c ** 2
 
-    # From Cosine law
-    alpha = math.acos((b2 + c2 - a2) / (2 * b * c))
-    beta = math.acos((a2 + c2 - b2) / (2 * a * c))
-    gamma = math.acos((a2 + b2 - c2) / (2 * a * b))
+    # From Cosine law (limited to [-1, 1]: the cosines of a flat triangle may leave it by round-off)
+    alpha = math.acos(max(-1, min(1, (b2 + c2 - a2) / (2 * b * c))))
+    beta = math.acos(max(-1, min(1, (a2 + c2 - b2) / (2 * a * c))))
+    gamma = math.acos(max(-1, min(1, (a2 + b2 - c2) / (2 * a * b))))
 
     # Converting to degree
     alpha = alpha * 180 / math.pi
-- 
2.43.0


From 5fe98275a8b40abd95440a9b960f4305da7c2394 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:10:35 +0000
Subject: [PATCH 46/71] fix: functions on lines truncate at integer coordinates

---
 tools/functions/time_space/_2d/wrappers/scalar_on_lines.py | 2 +-
 tools/functions/time_space/_2d/wrappers/vector_on_lines.py | 4 ++--
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/tools/functions/time_space/_2d/wrappers/scalar_on_lines.py b/tools/functions/time_space/_2d/wrappers/scalar_on_lines.py
index 7b86c43..b1b5da4 100644
--- a/tools/functions/time_space/_2d/wrappers/scalar_on_lines.py
+++ b/tools/functions/time_space/_2d/wrappers/scalar_on_lines.py
@@ -106,7 +106,7 @@ class _GenFunction_SOL_(Frozen):
         assert isinstance(x, np.ndarray) and isinstance(y, np.ndarray), f"x, y must be numpy array."
         assert x.shape == y.shape, f"x, y must be array of the same shape."
 
-        U = np.zeros_like(x)
+        U = np.zeros(x.shape)
         x_ndim = np.ndim(x)
         if x_ndim == 1:
             for i, xi in enumerate(x):
diff --git a/tools/functions/time_space/_2d/wrappers/vector_on_lines.py b/tools/functions/time_space/_2d/wrappers/vector_on_lines.py
index 425d090..3a697af 100644
--- a/tools/functions/time_space/_2d/wrappers/vector_on_lines.py
+++ b/tools/functions/time_space/_2d/wrappers/vector_on_lines.py
@@ -119,8 +119,8 @@ class _GenFunction_VOL_(Frozen):
         assert isinstance(x, np.ndarray) and isinstance(y, np.ndarray), f"x, y must be numpy array."
         assert x.shape == y.shape, f"x, y must be array of the same shape."
 
-        U = np.zeros_like(x)
-        V = np.zeros_like(y)
+        U = np.zeros(x.shape)
+        V = np.zeros(y.shape)
         x_ndim = np.ndim(x)
         if x_ndim == 1:
             for i, xi in enumerate(x):
-- 
2.43.0


From d5f556315f22292fd6d26856616f7e14db1b0e9a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:36:36 +0000
Subject: [PATCH 47/71] fix: numbering and incidence of bundle-valued spaces
 call missing methods

---
 msepy/space/gathering_matrix/bundle.py | 30 +++++++++++------------
 msepy/space/incidence_matrix/bundle.py | 34 +++++++++++++-------------
 2 files changed, 32 insertions(+), 32 deletions(-)

diff --git a/msepy/space/gathering_matrix/bundle.py b/msepy/space/gathering_matrix/bundle.py
index 7f75339..3a57f3a 100644
--- a/msepy/space/gathering_matrix/bundle.py
+++ b/msepy/space/gathering_matrix/bundle.py
@@ -49,27 +49,27 @@ class MsePyGatheringMatrixBundle(Frozen):
     def _n3_k2(self, p):
         """"""
         p0, p1, p2 = p
-        x_gm = self._space.gathering_matrix.Lambda._n3_k2(p0)
-        y_gm = self._space.gathering_matrix.Lambda._n3_k2(p1)
-        z_gm = self._space.gathering_matrix.Lambda._n3_k2(p2)
+        x_gm = self._space.gathering_matrix.Lambda._m3_n3_k2(p0)
+        y_gm = self._space.gathering_matrix.Lambda._m3_n3_k2(p1)
+        z_gm = self._space.gathering_matrix.Lambda._m3_n3_k2(p2)
         gm = RegularGatheringMatrix([x_gm, y_gm, z_gm])
         return gm
 
     def _n3_k1(self, p):
         """"""
         p0, p1, p2 = p
-        x_gm = self._space.gathering_matrix.Lambda._n3_k1(p0)
-        y_gm = self._space.gathering_matrix.Lambda._n3_k1(p1)
-        z_gm = self._space.gathering_matrix.Lambda._n3_k1(p2)
+        x_gm = self._space.gathering_matrix.Lambda._m3_n3_k1(p0)
+        y_gm = self._space.gathering_matrix.Lambda._m3_n3_k1(p1)
+        z_gm = self._space.gathering_matrix.Lambda._m3_n3_k1(p2)
         gm = RegularGatheringMatrix([x_gm, y_gm, z_gm])
         return gm
 
     def _n3_k0(self, p):
         """"""
         p0, p1, p2 = p
-        x_gm = self._space.gathering_matrix.Lambda._n3_k0(p0)
-        y_gm = self._space.gathering_matrix.Lambda._n3_k0(p1)
-        z_gm = self._space.gathering_matrix.Lambda._n3_k0(p2)
+        x_gm = self._space.gathering_matrix.Lambda._m3_n3_k0(p0)
+        y_gm = self._space.gathering_matrix.Lambda._m3_n3_k0(p1)
+        z_gm = self._space.gathering_matrix.Lambda._m3_n3_k0(p2)
         gm = RegularGatheringMatrix([x_gm, y_gm, z_gm])
         return gm
 
@@ -86,24 +86,24 @@ class MsePyGatheringMatrixBundle(Frozen):
     def _n2_k1_inner(self, p):
         """"""
         p0, p1 = p
-        x_gm = self._space.gathering_matrix.Lambda._n2_k1_inner(p0)
-        y_gm = self._space.gathering_matrix.Lambda._n2_k1_inner(p1)
+        x_gm = self._space.gathering_matrix.Lambda._m2_n2_k1_inner(p0)
+        y_gm = self._space.gathering_matrix.Lambda._m2_n2_k1_inner(p1)
         gm = RegularGatheringMatrix([x_gm, y_gm])
         return gm
 
     def _n2_k1_outer(self, p):
         """"""
         p0, p1 = p
-        x_gm = self._space.gathering_matrix.Lambda._n2_k1_outer(p0)
-        y_gm = self._space.gathering_matrix.Lambda._n2_k1_outer(p1)
+        x_gm = self._space.gathering_matrix.Lambda._m2_n2_k1_outer(p0)
+        y_gm = self._space.gathering_matrix.Lambda._m2_n2_k1_outer(p1)
         gm = RegularGatheringMatrix([x_gm, y_gm])
         return gm
 
     def _n2_k0(self, p):
         """"""
         p0, p1 = p
-        x_gm = self._space.gathering_matrix.Lambda._n2_k0(p0)
-        y_gm = self._space.gathering_matrix.Lambda._n2_k0(p1)
+        x_gm = self._space.gathering_matrix.Lambda._m2_n2_k0(p0)
+        y_gm = self._space.gathering_matrix.Lambda._m2_n2_k0(p1)
         gm = RegularGatheringMatrix([x_gm, y_gm])
         return gm
 
diff --git a/msepy/space/incidence_matrix/bundle.py b/msepy/space/incidence_matrix/bundle.py
index 9d4e292..684aa43 100644
--- a/msepy/space/incidence_matrix/bundle.py
+++ b/msepy/space/incidence_matrix/bundle.py
@@ -54,9 +54,9 @@ class MsePyIncidenceMatrixBundle(Frozen):
     def _n3_k0(self, p):
         """"""
         p0, p1, p2 = p
-        E00 = self._space.incidence_matrix.Lambda._n3_k0(p0)
-        E11 = self._space.incidence_matrix.Lambda._n3_k0(p1)
-        E22 = self._space.incidence_matrix.Lambda._n3_k0(p2)
+        E00 = self._space.incidence_matrix.Lambda._m3_n3_k0(p0)
+        E11 = self._space.incidence_matrix.Lambda._m3_n3_k0(p1)
+        E22 = self._space.incidence_matrix.Lambda._m3_n3_k0(p2)
 
         return bmat([
             [E00, None, None],
@@ -67,9 +67,9 @@ class MsePyIncidenceMatrixBundle(Frozen):
     def _n3_k1(self, p):
         """"""
         p0, p1, p2 = p
-        E00 = self._space.incidence_matrix.Lambda._n3_k1(p0)
-        E11 = self._space.incidence_matrix.Lambda._n3_k1(p1)
-        E22 = self._space.incidence_matrix.Lambda._n3_k1(p2)
+        E00 = self._space.incidence_matrix.Lambda._m3_n3_k1(p0)
+        E11 = self._space.incidence_matrix.Lambda._m3_n3_k1(p1)
+        E22 = self._space.incidence_matrix.Lambda._m3_n3_k1(p2)
 
         return bmat([
             [E00, None, None],
@@ -80,9 +80,9 @@ class MsePyIncidenceMatrixBundle(Frozen):
     def _n3_k2(self, p):
         """"""
         p0, p1, p2 = p
-        E00 = self._space.incidence_matrix.Lambda._n3_k2(p0)
-        E11 = self._space.incidence_matrix.Lambda._n3_k2(p1)
-        E22 = self._space.incidence_matrix.Lambda._n3_k2(p2)
+        E00 = self._space.incidence_matrix.Lambda._m3_n3_k2(p0)
+        E11 = self._space.incidence_matrix.Lambda._m3_n3_k2(p1)
+        E22 = self._space.incidence_matrix.Lambda._m3_n3_k2(p2)
 
         return bmat([
             [E00, None, None],
@@ -93,8 +93,8 @@ class MsePyIncidenceMatrixBundle(Frozen):
     def _n2_k0_outer(self, p):
         """"""
         p0, p1 = p
-        E00 = self._space.incidence_matrix.Lambda._n2_k0_outer(p0)
-        E11 = self._space.incidence_matrix.Lambda._n2_k0_outer(p1)
+        E00 = self._space.incidence_matrix.Lambda._m2_n2_k0_outer(p0)
+        E11 = self._space.incidence_matrix.Lambda._m2_n2_k0_outer(p1)
 
         return bmat([
             [E00, None],
@@ -105,8 +105,8 @@ class MsePyIncidenceMatrixBundle(Frozen):
         """"""
         p0, p1 = p
 
-        E00 = self._space.incidence_matrix.Lambda._n2_k0_inner(p0)
-        E11 = self._space.incidence_matrix.Lambda._n2_k0_inner(p1)
+        E00 = self._space.incidence_matrix.Lambda._m2_n2_k0_inner(p0)
+        E11 = self._space.incidence_matrix.Lambda._m2_n2_k0_inner(p1)
 
         return bmat([
             [E00, None],
@@ -116,8 +116,8 @@ class MsePyIncidenceMatrixBundle(Frozen):
     def _n2_k1_outer(self, p):
         """"""
         p0, p1 = p
-        E00 = self._space.incidence_matrix.Lambda._n2_k1_outer(p0)
-        E11 = self._space.incidence_matrix.Lambda._n2_k1_outer(p1)
+        E00 = self._space.incidence_matrix.Lambda._m2_n2_k1_outer(p0)
+        E11 = self._space.incidence_matrix.Lambda._m2_n2_k1_outer(p1)
 
         return bmat([
             [E00, None],
@@ -127,8 +127,8 @@ class MsePyIncidenceMatrixBundle(Frozen):
     def _n2_k1_inner(self, p):
         """"""
         p0, p1 = p
-        E00 = self._space.incidence_matrix.Lambda._n2_k1_inner(p0)
-        E11 = self._space.incidence_matrix.Lambda._n2_k1_inner(p1)
+        E00 = self._space.incidence_matrix.Lambda._m2_n2_k1_inner(p0)
+        E11 = self._space.incidence_matrix.Lambda._m2_n2_k1_inner(p1)
 
         return bmat([
             [E00, None],
-- 
2.43.0


From fd9592658512dbc68ff2973006062686834dd671 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:36:36 +0000
Subject: [PATCH 48/71] fix: reduction of bundle-valued top forms reads a
 missing attribute

---
 msepy/space/reduce/bundle.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/msepy/space/reduce/bundle.py b/msepy/space/reduce/bundle.py
index 6531012..55d1dcc 100644
--- a/msepy/space/reduce/bundle.py
+++ b/msepy/space/reduce/bundle.py
@@ -399,7 +399,7 @@ class MsePySpaceReduceBundle(Frozen):
             else:
                 p = self._space[degree].p[_I_]
                 nodes = self._space[degree].nodes[_I_]
-                num_basis = self._space[degree].num_local_dofs_components[_I_]
+                num_basis = self._space[degree].num_local_dof_components[_I_]
                 xi = np.zeros((num_basis, qd[0] + 1, qd[1] + 1, qd[2] + 1))
                 et = np.zeros((num_basis, qd[0] + 1, qd[1] + 1, qd[2] + 1))
                 si = np.zeros((num_basis, qd[0] + 1, qd[1] + 1, qd[2] + 1))
-- 
2.43.0


From e197388905b3f3397e7817c7a80ad2694ce1fb0d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:36:36 +0000
Subject: [PATCH 49/71] fix: mass matrices of bundle-valued spaces use the list
 of node types as one

---
 msepy/space/inner_product/main.py | 4 ++--
 msepy/space/mass_matrix/bundle.py | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/msepy/space/inner_product/main.py b/msepy/space/inner_product/main.py
index f4693f2..4217430 100644
--- a/msepy/space/inner_product/main.py
+++ b/msepy/space/inner_product/main.py
@@ -31,7 +31,7 @@ def _make_quad(space, degree):
 
         quad_degrees = list()
         quad_types = list()
-        for _pi_ in _P_:
+        for _i_, _pi_ in enumerate(_P_):
 
             if is_linear:  # ALL elements are linear.
                 high_accuracy = _setting['high_accuracy']
@@ -42,7 +42,7 @@ def _make_quad(space, degree):
                 else:
                     quad_degree = [p for p in _pi_]
                     # + 0 for much sparser matrices.
-                    quad_type = space[degree].ntype
+                    quad_type = space[degree].ntype[_i_]
             else:
                 quad_degree = [p + 2 for p in _pi_]
                 quad_type = 'Gauss'
diff --git a/msepy/space/mass_matrix/bundle.py b/msepy/space/mass_matrix/bundle.py
index fc6b33a..c962e30 100644
--- a/msepy/space/mass_matrix/bundle.py
+++ b/msepy/space/mass_matrix/bundle.py
@@ -31,7 +31,7 @@ class MsePyMassMatrixBundle(Frozen):
 
             quad_degrees = list()
             quad_types = list()
-            for _pi_ in _P_:
+            for _i_, _pi_ in enumerate(_P_):
 
                 is_linear = self._space.mesh.elements._is_linear()
                 if is_linear:  # ALL elements are linear.
@@ -43,7 +43,7 @@ class MsePyMassMatrixBundle(Frozen):
                     else:
                         quad_degree = [p for p in _pi_]
                         # + 0 for much sparser matrices.
-                        quad_type = self._space[degree].ntype
+                        quad_type = self._space[degree].ntype[_i_]
                 else:
                     quad_degree = [p + 2 for p in _pi_]
                     quad_type = 'Gauss'
-- 
2.43.0


From d38d1a5c1acd28841f6333151aea2ae5f0b69b47 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:36:36 +0000
Subject: [PATCH 50/71] fix: error of bundle-valued forms in 3D sums over two
 axes only

---
 msepy/space/error/bundle.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/msepy/space/error/bundle.py b/msepy/space/error/bundle.py
index ee2c4cb..b34a95d 100644
--- a/msepy/space/error/bundle.py
+++ b/msepy/space/error/bundle.py
@@ -176,7 +176,7 @@ class MsePySpaceErrorBundle(Frozen):
             diff = (dis_u - ext_u) ** d + (dis_v - ext_v) ** d + (dis_w - ext_w) ** d
             integral.append(
                 np.einsum(
-                    'eij, eij, i, j -> ',
+                    'eijk, eijk, i, j, k -> ',
                     diff, metric, *quad_weights,
                     optimize='optimal'
                 )
@@ -225,7 +225,7 @@ class MsePySpaceErrorBundle(Frozen):
                     (dis_v20 - ext_v20) ** d + (dis_v21 - ext_v21) ** d + (dis_v22 - ext_v22) ** d)
             integral.append(
                 np.einsum(
-                    'eij, eij, i, j -> ',
+                    'eijk, eijk, i, j, k -> ',
                     diff, metric, *quad_weights,
                     optimize='optimal'
                 )
-- 
2.43.0


From b544ba0ae7cc6db4b7d8d15f26f6a2f518398c79 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:36:36 +0000
Subject: [PATCH 51/71] fix: numeric rot and divergence of outer bundle 0-forms
 use the inner convention

---
 msepy/form/numeric/main.py | 16 ++++++++++++----
 1 file changed, 12 insertions(+), 4 deletions(-)

diff --git a/msepy/form/numeric/main.py b/msepy/form/numeric/main.py
index 120b066..2c90069 100644
--- a/msepy/form/numeric/main.py
+++ b/msepy/form/numeric/main.py
@@ -97,8 +97,12 @@ class MsePyRootFormNumeric(Frozen):
 
                 x, y = xy
 
-                pv_px = tensor[1][0]
-                pu_py = tensor[0][1]
+                if space.orientation == 'inner':  # rows of the tensor are gradients.
+                    pv_px = tensor[1][0]
+                    pu_py = tensor[0][1]
+                else:                             # rows of the tensor are curls.
+                    pv_px = - tensor[1][1]
+                    pu_py = tensor[0][0]
 
                 rot_data = pv_px - pu_py
 
@@ -131,8 +135,12 @@ class MsePyRootFormNumeric(Frozen):
 
                 x, y = xy
 
-                pu_px = tensor[0][0]
-                pv_py = tensor[1][1]
+                if space.orientation == 'inner':  # rows of the tensor are gradients.
+                    pu_px = tensor[0][0]
+                    pv_py = tensor[1][1]
+                else:                             # rows of the tensor are curls.
+                    pu_px = - tensor[0][1]
+                    pv_py = tensor[1][0]
 
                 div_data = pu_px + pv_py
                 if magnitude:
-- 
2.43.0


From 1a21e51906ec893be1a6c1f0de1096646dea1d6e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:36:36 +0000
Subject: [PATCH 52/71] fix: Hodge and projection matrices fail for spaces of
 one local dof

---
 msepy/space/addons/Hodge.py      | 3 ++-
 msepy/space/addons/projection.py | 3 ++-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/msepy/space/addons/Hodge.py b/msepy/space/addons/Hodge.py
index 01e7ec9..6deee54 100644
--- a/msepy/space/addons/Hodge.py
+++ b/msepy/space/addons/Hodge.py
@@ -1,6 +1,7 @@
 # -*- coding: utf-8 -*-
 """
 """
+from scipy.sparse import csc_matrix
 from scipy.sparse.linalg import inv
 
 from phyem.tools.frozen import Frozen
@@ -39,7 +40,7 @@ class MsePySpaceHodge(Frozen):
         dd = dict()
         for re in M:
             Mre = M[re]
-            inv_Mre = inv(Mre.tocsc())
+            inv_Mre = csc_matrix(inv(Mre.tocsc()).reshape(Mre.shape))  # `inv` of a 1 x 1 matrix is not sparse.
             Pre = inv_Mre @ W
             dd[re] = Pre
 
diff --git a/msepy/space/addons/projection.py b/msepy/space/addons/projection.py
index 39387f6..169c661 100644
--- a/msepy/space/addons/projection.py
+++ b/msepy/space/addons/projection.py
@@ -1,6 +1,7 @@
 # -*- coding: utf-8 -*-
 r"""
 """
+from scipy.sparse import csc_matrix
 from scipy.sparse.linalg import inv
 
 from phyem.tools.frozen import Frozen
@@ -40,7 +41,7 @@ class MsePySpaceProjection(Frozen):
         for re in M:
             Mre = M[re]
             Wre = W[re]
-            inv_Mre = inv(Mre.tocsc())
+            inv_Mre = csc_matrix(inv(Mre.tocsc()).reshape(Mre.shape))  # `inv` of a 1 x 1 matrix is not sparse.
             Pre = inv_Mre @ Wre
             dd[re] = Pre
 
-- 
2.43.0


From 1e14de8c489f560030b1a2b5ff37041a7869b1fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:36:36 +0000
Subject: [PATCH 53/71] fix: constant time sequences reject valid instants due
 to round-off

---
 src/time_sequence.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/time_sequence.py b/src/time_sequence.py
index ebf3ef0..c32d436 100644
--- a/src/time_sequence.py
+++ b/src/time_sequence.py
@@ -302,11 +302,11 @@ class ConstantTimeSequence(TimeSequence):
         """
         assert isinstance(k, (int, float)), f"specific time sequence must use number for time instant."
         time = self.t_0 + k * self._dt
-        remainder = round(k % 1, 8)
-        if time < self.t_0 - self._dt:  # leave a dt as lower margin
+        remainder = round(k % 1, 8) % 1  # round-off below an integer gives 1, which is 0
+        if round(k + 1, 8) < 0:  # leave a dt as lower margin
             raise TimeInstantError(
                 f"t[{k}] = {time} is lower than t0: {self.t_0} - dt: {self._dt}.")
-        elif time > self.t_max + self._dt:  # leave a dt as upper margin
+        elif round(k - self._k_max - 1, 8) > 0:  # leave a dt as upper margin
             raise TimeInstantError(
                 f"t[{k}] = {time} is higher than t_max: {self.t_max} + dt: {self._dt}.")
         elif remainder not in self._allowed_reminder:
-- 
2.43.0


From c0599cc0ebb972e1cfb37e78171b7759be6b5945 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:36:36 +0000
Subject: [PATCH 54/71] fix: constant scalars given as fractions cannot be
 added

---
 src/form/parameters.py | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/src/form/parameters.py b/src/form/parameters.py
index 6b99b05..6e5d1b9 100644
--- a/src/form/parameters.py
+++ b/src/form/parameters.py
@@ -161,7 +161,7 @@ class ConstantScalar0Form(Frozen):
         """self + other"""
         if isinstance(other, (int, float)):
             if self.is_real():
-                number = float(self._sym_repr) + other
+                number = self._value + other
                 if int(number) == number:
                     number = int(number)
                 else:
@@ -175,8 +175,7 @@ class ConstantScalar0Form(Frozen):
 
         elif other.__class__.__name__ == self.__class__.__name__:
             if other.is_real():
-                number = float(other._sym_repr)
-                return self + number
+                return self + other._value
             else:
                 op_lin_repr = _global_operator_lin_repr_setting['plus']
                 sym_repr = self._sym_repr + '+' + other._sym_repr   # no need to check is_root.
@@ -190,7 +189,7 @@ class ConstantScalar0Form(Frozen):
         """other + self """
         if isinstance(other, (int, float)):
             if self.is_real():
-                number = float(self._sym_repr) + other
+                number = self._value + other
                 if int(number) == number:
                     number = int(number)
                 else:
-- 
2.43.0


From 942acf281ffc3f93e98d2d9477d5e6251a7132c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:36:36 +0000
Subject: [PATCH 55/71] fix: the only output name of a sweep is read back with
 a comma

---
 tools/legacy/serialRunners/_runner_.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tools/legacy/serialRunners/_runner_.py b/tools/legacy/serialRunners/_runner_.py
index 5c0b6bf..2ac223a 100644
--- a/tools/legacy/serialRunners/_runner_.py
+++ b/tools/legacy/serialRunners/_runner_.py
@@ -223,7 +223,7 @@ class Runner(Frozen):
                 elif ctt[0:14] == '<output names>':
                     if initializing: # if we are initializing it, we get output names from the file
                         ons = ctt[18:-2]
-                        self._output_names_ = tuple(ons.replace("'", "").split(', '))
+                        self._output_names_ = tuple(ons.replace("'", "").rstrip(',').split(', '))
                     else: #otherwise we check the consistence
                         assert ctt == '<output names> : '+str(self._output_names_)+'\n', \
                             " <Runner> : writeto file does not match output names."
-- 
2.43.0


From b8a75b6704d57fdd9850aebda73ff827c8b985c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:36:36 +0000
Subject: [PATCH 56/71] fix: a torn last row of a sweep is continued as if it
 were complete

---
 tools/legacy/serialRunners/_runner_.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/tools/legacy/serialRunners/_runner_.py b/tools/legacy/serialRunners/_runner_.py
index 2ac223a..79e821f 100644
--- a/tools/legacy/serialRunners/_runner_.py
+++ b/tools/legacy/serialRunners/_runner_.py
@@ -251,6 +251,7 @@ class Runner(Frozen):
             while 1:
                 try:
                     Di = contents[i].split()
+                    assert contents[i].endswith('\n')  # otherwise, the row is torn.
                     assert len(Di) == 1 + len(self.input_names) + len(self.output_names) + 1 + 3
                     # 1: index; +1: '|'; +3: 'ITC', 'TTC', 'ERT'
                     self._computed_pool_ += (self.___read_to_rdf___(Di)[0],)
-- 
2.43.0


From 9a34f3b14dfd147d019a8d7789e65db5328c1d4b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:36:36 +0000
Subject: [PATCH 57/71] fix: a failed cache write destroys the last cache of an
 iteration

---
 tools/iterator/main.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/tools/iterator/main.py b/tools/iterator/main.py
index d43ed83..861ba85 100644
--- a/tools/iterator/main.py
+++ b/tools/iterator/main.py
@@ -651,10 +651,13 @@ class Iterator(Frozen):
                             'log': log,
                             'cache_count': cache_count
                         }
-                        with open(self._cache_filename_, 'wb') as cf:
+                        # write to a side file first such that a failed writing leaves the last cache intact.
+                        side_filename = self._cache_filename_ + '.tmp'
+                        with open(side_filename, 'wb') as cf:
                             # noinspection PyTypeChecker
                             pickle.dump(cache_dict, cf, pickle.HIGHEST_PROTOCOL)
                         cf.close()
+                        os.replace(side_filename, self._cache_filename_)
                         # noinspection PyUnboundLocalVariable
                         self._cache_time_ = now
                         del obj_coding_data, cache_dict
-- 
2.43.0


From 97abc43f34d217a63736013b5349989e510e885e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:08:07 +0000
Subject: [PATCH 58/71] fix: renewing with transfer method 1 fails: it returns
 no information

---
 msehtt/adaptive/form/renew/main.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/msehtt/adaptive/form/renew/main.py b/msehtt/adaptive/form/renew/main.py
index 18eb5e5..ebe2060 100644
--- a/msehtt/adaptive/form/renew/main.py
+++ b/msehtt/adaptive/form/renew/main.py
@@ -5,6 +5,7 @@ from phyem.tools.frozen import Frozen
 from phyem.msehtt.adaptive.form.renew.method_1_global_interpolation import MseHtt_FormCochainRenew_Method1_GlobalInterpolation
 from phyem.msehtt.adaptive.form.renew.method_2_base_element import MseHtt_FormCochainRenew_Method2_BaseElementWise
 from phyem.msehtt.adaptive.form.renew.method_3_local_interpolation import MseHtt_FormCochainRenew_Method3_LocalInterpolation
+from phyem.msehtt.adaptive.form.renew.method_3_local_interpolation import compare_two_meshes
 
 
 class MseHtt_Adaptive_TopForm_CochainRenew(Frozen):
@@ -71,4 +72,10 @@ class MseHtt_Adaptive_TopForm_CochainRenew(Frozen):
             # DO THE RENEWING
             renew_info = renewer(cochain_times_tobe_renewed, clean=clean, **kwargs)
 
+            if renew_info is None:  # this method reports nothing, we compare the two meshes here.
+                _, _, all_same = compare_two_meshes(f_form.tpm.composition, t_form.tpm.composition)
+                renew_info = {'all same': all_same}
+            else:
+                pass
+
             return renew_info  # since changes are made locally in the cochains.
-- 
2.43.0


From dac61bed8f6f3aae86d231792a872cfe7c06b196 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:08:07 +0000
Subject: [PATCH 59/71] fix: an integer trf of two or more levels is rejected

---
 msehtt/static/mesh/great/config/msepy_trf.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/msehtt/static/mesh/great/config/msepy_trf.py b/msehtt/static/mesh/great/config/msepy_trf.py
index 3f91423..b0ea442 100644
--- a/msehtt/static/mesh/great/config/msepy_trf.py
+++ b/msehtt/static/mesh/great/config/msepy_trf.py
@@ -10,7 +10,7 @@ from phyem.msehtt.static.mesh.great.config.msepy_ import MseHttMsePyConfig
 # noinspection PyUnusedLocal
 def ___default_trf_1___(x, *args, **kwargs):
     r""""""
-    return np.ones_like(x)
+    return np.ones_like(x, dtype=float)[()]  # a number for a number, an array for an array.
 
 
 class MseHttMsePy_Trf_Config(Frozen):
-- 
2.43.0


From abeec2f96e38cb9074d33bcdf795691c1efd96ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:08:07 +0000
Subject: [PATCH 60/71] fix: a static session after an adaptive or multigrid
 one parses with the base of the other

---
 msehtt/static/main.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/msehtt/static/main.py b/msehtt/static/main.py
index 52c92ae..9020df2 100644
--- a/msehtt/static/main.py
+++ b/msehtt/static/main.py
@@ -62,6 +62,10 @@ def _clear_self():
     base['forms'] = dict()
     base['the_great_mesh'] = None
 
+    # the adaptive and multigrid implementations let the parsers work on bases of theirs.
+    PARSER._setting_['base'] = base
+    NOC_PARSER._setting_['base'] = base
+
     if RANK == MASTER_RANK:
         _info_cache['start_time'] = -1.
         _info_cache['info_count'] = 0
-- 
2.43.0


From e55660df31754583f786760ce4a28795481aa874 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:16:27 +0000
Subject: [PATCH 61/71] fix: the geometry of the dofs of 2-forms in skew
 quadrilaterals is a rectangle

---
 .../find/dof_geometry/local/findLocalDof_Lambda.py   | 12 +++++-------
 1 file changed, 5 insertions(+), 7 deletions(-)

diff --git a/msehtt/static/space/find/dof_geometry/local/findLocalDof_Lambda.py b/msehtt/static/space/find/dof_geometry/local/findLocalDof_Lambda.py
index 9a1b5fe..2619360 100644
--- a/msehtt/static/space/find/dof_geometry/local/findLocalDof_Lambda.py
+++ b/msehtt/static/space/find/dof_geometry/local/findLocalDof_Lambda.py
@@ -156,13 +156,11 @@ def _find_geo_local_dof_m2n2k2_(degree, element, local_dof_index):
         xi_1 = nodes_xi[i+1]
         et_0 = nodes_et[j]
         et_1 = nodes_et[j+1]
-        x, y = element.ct.mapping(np.array([xi_0, xi_1]), np.array([et_0, et_1]))
-        x0, x1 = x
-        y0, y1 = y
-        point0 = Point2(x0, y0)
-        point1 = Point2(x1, y0)
-        point2 = Point2(x1, y1)
-        point3 = Point2(x0, y1)
+        x, y = element.ct.mapping(np.array([xi_0, xi_1, xi_1, xi_0]), np.array([et_0, et_0, et_1, et_1]))
+        point0 = Point2(x[0], y[0])
+        point1 = Point2(x[1], y[1])
+        point2 = Point2(x[2], y[2])
+        point3 = Point2(x[3], y[3])
         return Polygon2(point0, point1, point2, point3)
 
     else:
-- 
2.43.0


From 9ddbcc60bcc07c47839b4708258684009a1b7e8f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:17:31 +0000
Subject: [PATCH 62/71] fix: the intersection of two touching polygons may be
 one of them

---
 tools/miscellaneous/geometries/m2n2.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/tools/miscellaneous/geometries/m2n2.py b/tools/miscellaneous/geometries/m2n2.py
index 1fd426a..a75e43c 100644
--- a/tools/miscellaneous/geometries/m2n2.py
+++ b/tools/miscellaneous/geometries/m2n2.py
@@ -6,6 +6,7 @@ import math
 from matplotlib.path import Path
 from pynverse import inversefunc
 import geopandas as gpd
+from shapely import intersection as shapely_intersection
 from shapely.geometry import Polygon as shapelyPolygon
 from shapely.ops import unary_union
 
@@ -697,7 +698,8 @@ class Polygon2(Frozen):
             polygon2 = poly.shapely_Polygon
         else:
             raise NotImplementedError()
-        intersection = polygon1.intersection(polygon2)
+        # with snap rounding: without, the intersection of two polygons that touch may be one of them.
+        intersection = shapely_intersection(polygon1, polygon2, grid_size=1e-12)
         if hasattr(intersection, 'geoms'):  # round-off may add points or segments to the polygon.
             polygons = [_ for _ in intersection.geoms if _.__class__.__name__ == 'Polygon']
             if len(polygons) == 1:
-- 
2.43.0


From 23096ebc4db678ac1478e64dca0747d373926924 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:01:25 +0000
Subject: [PATCH 63/71] fix: patterns of (A x B, C x D) terms are those of the
 cross product

---
 src/wf/term/pattern.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/wf/term/pattern.py b/src/wf/term/pattern.py
index e054c77..8cb4b67 100644
--- a/src/wf/term/pattern.py
+++ b/src/wf/term/pattern.py
@@ -910,6 +910,7 @@ def _inner_simpler_pattern_examiner_scalar_valued_forms(factor, f0, f1, extra_in
                 pass
 
         # --- (A x B, C x D) type terms ----------------------------------------------------------------------
+        cross_product_lin = _global_operator_lin_repr_setting['cross_product']
         existing0 = cross_product_lin in f0._lin_repr
         amount0 = f0._lin_repr.count(cross_product_lin)
         existing1 = cross_product_lin in f1._lin_repr
-- 
2.43.0


From 64b198c013af255380b266d56fe11e8738cb6610 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:53:45 +0000
Subject: [PATCH 64/71] fix: equations of a pde tested in the same space clash
 in the symbols of their test forms

---
 src/pde.py | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/pde.py b/src/pde.py
index da71e30..cf7ffbc 100644
--- a/src/pde.py
+++ b/src/pde.py
@@ -166,7 +166,7 @@ matplotlib.use('TkAgg')
 
 from phyem.tools.frozen import Frozen
 from phyem.src.config import _global_lin_repr_setting, _non_root_lin_sep
-from phyem.src.form.main import Form, _global_root_forms_lin_dict
+from phyem.src.form.main import Form, _global_forms, _global_root_forms_lin_dict
 from phyem.src.config import _global_operator_lin_repr_setting
 from phyem.src.config import _pde_test_form_lin_repr
 
@@ -868,6 +868,13 @@ class PartialDifferentialEquations(Frozen):
                     sr = unknown._sym_repr
                     _base = sr.split('^')[0].split('_')[0]
                     sr = sr.replace(_base, r'\underline{' + _base + '}')
+
+                # two test forms may be in the same space (or the PDE may have been tested before).
+                taken = [_global_forms[_]._sym_repr for _ in _global_forms]
+                number = i
+                while sr in taken:
+                    sr = r"\underline{\tau}_" + (str(number) if number < 10 else '{' + str(number) + '}')
+                    number += 1
             else:
                 assert isinstance(sym_repr, (list, tuple)) and len(sym_repr) == len(test_spaces), \
                     f"We have {len(test_spaces)} test forms, so we need {len(test_spaces)} syb_repr. " \
-- 
2.43.0


From c28d526f481ad5e08c0f8f4b32c910d90fc6e4d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:53:45 +0000
Subject: [PATCH 65/71] fix: splitting a term of a weak formulation dropped its
 factor

---
 src/wf/term/main.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/wf/term/main.py b/src/wf/term/main.py
index acd7282..2c093ab 100644
--- a/src/wf/term/main.py
+++ b/src/wf/term/main.py
@@ -286,7 +286,7 @@ class _WeakFormulationTerm(Frozen):
             assert len(into) >= 1, f"number of split objects must be equal to or larger than 1."
             assert len(into) == len(signs), f"objects and signs length dis-match."
             if factors is None:
-                factors = [1 for _ in range(len(into))]
+                factors = [self._factor for _ in range(len(into))]
             else:
                 if not isinstance(factors, (list, tuple)):
                     factors = [factors, ]
-- 
2.43.0


From 02ba27f521df998dbd7eb5dd6f92ee9897ab8859 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:53:45 +0000
Subject: [PATCH 66/71] fix: term.replace with 'f0' or 'f1' always failed

---
 src/wf/term/main.py | 24 +++++++++++++-----------
 1 file changed, 13 insertions(+), 11 deletions(-)

diff --git a/src/wf/term/main.py b/src/wf/term/main.py
index 2c093ab..8c457c4 100644
--- a/src/wf/term/main.py
+++ b/src/wf/term/main.py
@@ -202,17 +202,19 @@ class _WeakFormulationTerm(Frozen):
         """
         from phyem.src.form.main import Form
 
-        if f == 'f0':
-            # noinspection PyUnresolvedReferences
-            assert by.__class__.__name__ == 'Form' and by.space == f.space, f"Spaces do not match."
-            assert self._f0.space == by.space, f"spaces do not match."
-            return self.__class__(by, self._f1, factor=self._factor)
-
-        elif f == 'f1':
-            # noinspection PyUnresolvedReferences
-            assert by.__class__.__name__ == 'Form' and by.space == f.space, f"Spaces do not match."
-            assert self._f1.space == by.space, f"spaces do not match."
-            return self.__class__(self._f0, by, factor=self._factor)
+        if f in ('f0', 'f1'):
+            assert by.__class__ is Form, f"{by} is not a form."
+            old_form = self._f0 if f == 'f0' else self._f1
+            assert old_form.space == by.space, f"spaces do not match."
+            if f == 'f0':
+                new_term = self.__class__(by, self._f1, factor=self._factor)
+            else:
+                new_term = self.__class__(self._f0, by, factor=self._factor)
+            if self._restrict_manifold is None:
+                pass
+            else:
+                new_term.restrict(self._restrict_manifold._sym_repr)
+            return new_term, '-' if change_sign else '+'
 
         elif f.__class__ is Form:
             assert f.space == by.space, f"spaces do not match."
-- 
2.43.0


From cb412e0a922f855331e622e7ff0ade81ab9f19b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:53:45 +0000
Subject: [PATCH 67/71] fix: Form.replace with symbols that are part of other
 symbols or with composite forms

---
 src/form/main.py | 39 ++++++++++++++++++++++++++++++---------
 1 file changed, 30 insertions(+), 9 deletions(-)

diff --git a/src/form/main.py b/src/form/main.py
index a37c94e..bb99758 100644
--- a/src/form/main.py
+++ b/src/form/main.py
@@ -130,6 +130,7 @@ from phyem.src.config import _check_sym_repr
 from phyem.src.form.parameters import constant_scalar
 from phyem.src.config import _global_operator_lin_repr_setting
 from phyem.src.config import _global_operator_sym_repr_setting
+from phyem.src.config import _non_root_lin_sep
 from phyem.src.config import _form_evaluate_at_repr_setting
 from phyem.src.spaces.main import _default_space_degree_repr
 from phyem.src.spaces.main import _degree_str_maker
@@ -735,15 +736,35 @@ class Form(Frozen):
             return by
 
         else:
+            # in the representations of other forms, a non-root form is between separators.
+            f_lin, by_lin = [_._lin_repr if _.is_root() else _non_root_lin_sep[0] + _._lin_repr + _non_root_lin_sep[1]
+                             for _ in (f, by)]
+            by_sym = by._sym_repr
+            if f_lin not in self._lin_repr:
+                f_lin, by_lin = f._lin_repr, by._lin_repr
+            elif f.is_root() and not by.is_root():
+                by_sym = r"\left(" + by_sym + r"\right)"
+            else:
+                pass
+
+            # the symbol of f may also be a part of other symbols, then we cannot locate f in the text.
+            locatable = self._lin_repr.count(f_lin) == self._sym_repr.count(f._sym_repr)
+            replaced_sym_repr = rf"\left.{self._sym_repr}\right|_{{{f._sym_repr}\to{by._sym_repr}}}"
+
             if which == 'all':
-                lin_repr = self._lin_repr.replace(f._lin_repr, by._lin_repr)
-                sym_repr = self._sym_repr.replace(f._sym_repr, by._sym_repr)
+                lin_repr = self._lin_repr.replace(f_lin, by_lin)
+                if locatable:
+                    sym_repr = self._sym_repr.replace(f._sym_repr, by_sym)
+                else:
+                    sym_repr = replaced_sym_repr
 
             elif isinstance(which, (list, tuple)) and all([isinstance(_, int) and _ >= 0 for _ in which]):
                 # use 1, or [0,1] to indicate which targets to be replaced.
-                lin_list = self._lin_repr.split(f._lin_repr)
-                sym_list = self._sym_repr.split(f._sym_repr)
-                assert len(lin_list) == len(sym_list), f'must be!'
+                lin_list = self._lin_repr.split(f_lin)
+                if locatable:
+                    sym_list = self._sym_repr.split(f._sym_repr)
+                else:
+                    sym_list = lin_list
 
                 if len(lin_list) == 1:  # no replace target found!
                     raise Exception('found no target to replace.')
@@ -755,12 +776,12 @@ class Form(Frozen):
                 for i in which:
                     assert i < amount_places, (f"cannot deal with `which={which}` for form replace, "
                                                f"not that many targets.)")
-                    to_join_lin[i] = by._lin_repr
-                    to_join_sym[i] = by._sym_repr
+                    to_join_lin[i] = by_lin
+                    to_join_sym[i] = by_sym
 
                 for i, s in enumerate(to_join_lin):
                     if s == '':
-                        to_join_lin[i] = f._lin_repr
+                        to_join_lin[i] = f_lin
                     else:
                         pass
 
@@ -778,7 +799,7 @@ class Form(Frozen):
                 final_lin_repr += lin_list[-1]
                 final_sym_repr += sym_list[-1]
 
-                sym_repr = final_sym_repr
+                sym_repr = final_sym_repr if locatable else replaced_sym_repr
                 lin_repr = final_lin_repr
 
             else:
-- 
2.43.0


From 25edbaa9d7c0f85ad1d4940e20dc2d5e8ed04961 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:53:45 +0000
Subject: [PATCH 68/71] fix: spaces of unknown orientation were cached as inner
 ones

---
 src/spaces/continuous/Lambda.py          | 4 +++-
 src/spaces/continuous/bundle.py          | 5 ++++-
 src/spaces/continuous/bundle_diagonal.py | 5 ++++-
 3 files changed, 11 insertions(+), 3 deletions(-)

diff --git a/src/spaces/continuous/Lambda.py b/src/spaces/continuous/Lambda.py
index b2a906c..6bbeecc 100644
--- a/src/spaces/continuous/Lambda.py
+++ b/src/spaces/continuous/Lambda.py
@@ -23,8 +23,10 @@ class ScalarValuedFormSpace(SpaceBase):
         assert isinstance(k, int) and 0 <= k <= mesh.ndim, f" k={k} illegal on {mesh}."
         self._k = k
         Lambda = r"\Lambda"
-        if orientation == 'outer':
+        if self.orientation == 'outer':
             self._sym_repr = rf"\widetilde{Lambda}" + r"^{(" + str(self.k) + r')}' + rf"({self.manifold._sym_repr})"
+        elif self.orientation == 'unknown':
+            self._sym_repr = rf"\widehat{Lambda}" + r"^{(" + str(self.k) + r')}' + rf"({self.manifold._sym_repr})"
         else:
             self._sym_repr = rf"{Lambda}" + r"^{(" + str(self.k) + r')}' + rf"({self.manifold._sym_repr})"
         self._freeze()
diff --git a/src/spaces/continuous/bundle.py b/src/spaces/continuous/bundle.py
index 919d435..0531ca5 100644
--- a/src/spaces/continuous/bundle.py
+++ b/src/spaces/continuous/bundle.py
@@ -12,9 +12,12 @@ class BundleValuedFormSpace(SpaceBase):
         assert isinstance(k, int) and 0 <= k <= mesh.ndim, f" k={k} illegal on {mesh}."
         self._k = k
 
-        if orientation == 'outer':
+        if self.orientation == 'outer':
             self._sym_repr = r"\widetilde{\mathcal{B}}^{(" + str(self.k) + r')}' + rf"({self.manifold._sym_repr})"
 
+        elif self.orientation == 'unknown':
+            self._sym_repr = r"\widehat{\mathcal{B}}^{(" + str(self.k) + r')}' + rf"({self.manifold._sym_repr})"
+
         else:
             self._sym_repr = r"\mathcal{B}^{(" + str(self.k) + r')}' + rf"({self.manifold._sym_repr})"
 
diff --git a/src/spaces/continuous/bundle_diagonal.py b/src/spaces/continuous/bundle_diagonal.py
index ab891e2..e588de7 100644
--- a/src/spaces/continuous/bundle_diagonal.py
+++ b/src/spaces/continuous/bundle_diagonal.py
@@ -12,9 +12,12 @@ class DiagonalBundleValuedFormSpace(SpaceBase):
         assert isinstance(k, int) and k in (0, mesh.ndim), f" k={k} illegal on {mesh}."
         self._k = k
 
-        if orientation == 'outer':
+        if self.orientation == 'outer':
             self._sym_repr = r"\widetilde{\mathcal{S}}^{(" + str(self.k) + r')}' + rf"({self.manifold._sym_repr})"
 
+        elif self.orientation == 'unknown':
+            self._sym_repr = r"\widehat{\mathcal{S}}^{(" + str(self.k) + r')}' + rf"({self.manifold._sym_repr})"
+
         else:
             self._sym_repr = r"\mathcal{S}^{(" + str(self.k) + r')}' + rf"({self.manifold._sym_repr})"
 
-- 
2.43.0


From 8b7e024e03acb2b91ee88119afc171c08b0e2604 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:53:45 +0000
Subject: [PATCH 69/71] fix: spaces refused the orientation 'unknown' that
 wedge products produce

---
 src/spaces/base.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/spaces/base.py b/src/spaces/base.py
index 258b81a..64ebbc8 100644
--- a/src/spaces/base.py
+++ b/src/spaces/base.py
@@ -27,7 +27,7 @@ class SpaceBase(Frozen):
         # abstract space, we store the last objective one with this attribute.
 
         self._mesh = mesh
-        assert orientation in ('inner', 'outer', 'i', 'o', None, 'None'), \
+        assert orientation in ('inner', 'outer', 'i', 'o', None, 'None', 'unknown'), \
             f"orientation={orientation} is wrong, must be one of ('inner', 'outer', 'i', 'o', None)."
         if orientation == 'i':
             orientation = 'inner'
-- 
2.43.0


From 6a3a493aac49c53fc458cc450d5981fee5e08256 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:58:23 +0000
Subject: [PATCH 70/71] fix: vtk files of msepy forms lost points of small
 meshes (coordinates rounded to 5 decimals)

---
 msepy/tools/vtk_.py | 45 +++------------------------------------------
 tools/vtk_/merge.py | 33 +++++++++++++++++++++++++++++++++
 2 files changed, 36 insertions(+), 42 deletions(-)
 create mode 100644 tools/vtk_/merge.py

diff --git a/msepy/tools/vtk_.py b/msepy/tools/vtk_.py
index 53ea502..ab08bf7 100644
--- a/msepy/tools/vtk_.py
+++ b/msepy/tools/vtk_.py
@@ -5,6 +5,7 @@ import numpy as np
 from pyevtk.hl import unstructuredGridToVTK
 
 from phyem.tools.frozen import Frozen
+from phyem.tools.vtk_.merge import merge_points
 
 
 class BuildVtkQuad(Frozen):  # using only No.9 VTK cells.
@@ -193,49 +194,9 @@ class BuildVtkHexahedron(Frozen):  # using only No.12 VTK cells.
 
 def _parse_numbering_2(x, y):
     """"""
-    shape = x.shape
-    x = np.round(x, decimals=5).ravel('C')
-    y = np.round(y, decimals=5).ravel('C')
-    numbering = - np.ones(len(x), dtype=int)
-    current_numbering = 0
-    for i in range(len(x)):
-        if numbering[i] != -1:
-            pass
-        else:
-            xi, yi = x[i], y[i]
-            x_indices = np.where(
-                np.logical_and(x == xi, y == yi),
-            )[0]
-            numbering[x_indices] = current_numbering
-            current_numbering += 1
-
-    numbering = numbering.reshape(shape, order='C')
-
-    return numbering
+    return merge_points(x.ravel('C'), y.ravel('C')).reshape(x.shape, order='C')
 
 
 def _parse_numbering_3(x, y, z):
     """"""
-    shape = x.shape
-    x = np.round(x, decimals=5).ravel('C')
-    y = np.round(y, decimals=5).ravel('C')
-    z = np.round(z, decimals=5).ravel('C')
-    numbering = - np.ones(len(x), dtype=int)
-    current_numbering = 0
-    for i in range(len(x)):
-        if numbering[i] != -1:
-            pass
-        else:
-            xi, yi, zi = x[i], y[i], z[i]
-            x_indices = np.where(
-                np.logical_and(
-                    np.logical_and(x == xi, y == yi),
-                    z == zi,
-                )
-            )[0]
-            numbering[x_indices] = current_numbering
-            current_numbering += 1
-
-    numbering = numbering.reshape(shape, order='C')
-
-    return numbering
+    return merge_points(x.ravel('C'), y.ravel('C'), z.ravel('C')).reshape(x.shape, order='C')
diff --git a/tools/vtk_/merge.py b/tools/vtk_/merge.py
new file mode 100644
index 0000000..d1df75e
--- /dev/null
+++ b/tools/vtk_/merge.py
@@ -0,0 +1,33 @@
+# -*- coding: utf-8 -*-
+r"""
+"""
+import numpy as np
+from scipy.spatial import cKDTree
+
+
+def merge_points(*coordinates):
+    r"""Number points such that those at the same place (up to round-off) have the same number.
+
+    Parameters
+    ----------
+    coordinates :
+        The 1d-arrays x, y (and z) of the coordinates of the points.
+
+    Returns
+    -------
+    numbering : np.ndarray
+        The numbers of the points. The places are numbered in the order in which they are found.
+
+    """
+    points = np.stack(coordinates, axis=-1)
+    tolerance = 1e-8 * np.max(np.ptp(points, axis=0))
+    tree = cKDTree(points)
+    numbering = - np.ones(len(points), dtype=int)
+    current_numbering = 0
+    for i, point in enumerate(points):
+        if numbering[i] == -1:
+            numbering[tree.query_ball_point(point, tolerance)] = current_numbering
+            current_numbering += 1
+        else:
+            pass
+    return numbering
-- 
2.43.0


From 867ac4ed55b43c7bb0e450792493ef7c31801f5a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:58:23 +0000
Subject: [PATCH 71/71] fix: points of vtk files of msehtt forms not shared by
 neighbouring elements when their coordinates round differently

---
 tools/vtk_/msehtt_form_static_copy.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/tools/vtk_/msehtt_form_static_copy.py b/tools/vtk_/msehtt_form_static_copy.py
index 8f1a26e..eab99c2 100644
--- a/tools/vtk_/msehtt_form_static_copy.py
+++ b/tools/vtk_/msehtt_form_static_copy.py
@@ -6,6 +6,7 @@ from pyevtk.hl import unstructuredGridToVTK
 
 from phyem.src.config import RANK, MASTER_RANK, COMM
 from phyem.msehtt.static.mesh.partial.elements.main import MseHttElementsPartialMesh
+from phyem.tools.vtk_.merge import merge_points
 
 
 def ___ph_vtk_msehtt_static_copy___(filename, *forms, ddf=1):
@@ -92,11 +93,14 @@ def ___ph_vtk_msehtt_static_copy___(filename, *forms, ddf=1):
 
         # ---------- get cell information: X, Y, Z, connections, offsets, cell_types --------------------
         if ith_form == 0:
+            # round-off may lead to different keys in different elements for a point shared by them.
+            ndim = int(DTYPE[0])
+            numbering = merge_points(*np.array([form_vtk_data[key][:ndim] for key in form_vtk_data]).T)
             numbering_dict = {}
             for i, key in enumerate(form_vtk_data):
-                numbering_dict[key] = i
+                numbering_dict[key] = numbering[i]
 
-            number_points = len(form_vtk_data)
+            number_points = np.max(numbering) + 1
             if DTYPE in ('2d-scalar', '2d-vector'):
                 X = np.zeros(number_points)
                 Y = np.zeros(number_points)
-- 
2.43.0

