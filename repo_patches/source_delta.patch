From 965d0a7d04cd830bbf8b72fb5565eae3800660b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:22:21 +0000
Subject: [PATCH 01/16] fix: cd2d inverse loss accepts the keywords the inverse
 model passes

---
 fastvpinns/physics/cd2d_inverse.py | 18 +++++++++---------
 1 file changed, 9 insertions(+), 9 deletions(-)

diff --git a/fastvpinns/physics/cd2d_inverse.py b/fastvpinns/physics/cd2d_inverse.py
index 073bdba..1da19d8 100644
--- a/fastvpinns/physics/cd2d_inverse.py
+++ b/fastvpinns/physics/cd2d_inverse.py
@@ -23,8 +23,8 @@ def pde_loss_cd2d(
     pred_grad_x_nn,
     pred_grad_y_nn,
     forcing_function,
-    bilinear_params_dict,
-    inverse_param_dict,
+    bilinear_params,
+    inverse_params_dict,
 ):  # pragma: no cover
     """
     Calculates and returns the loss for the  CD2D problem Inverse (constant)
@@ -43,10 +43,10 @@ def pde_loss_cd2d(
     :type pred_grad_y_nn: tf.Tensor
     :param forcing_function: The forcing function used in the PDE.
     :type forcing_function: function
-    :param bilinear_params_dict: The dictionary containing the bilinear parameters.
-    :type bilinear_params_dict: dict
-    :param inverse_param_dict: The dictionary containing the parameters for the inverse problem.
-    :type inverse_param_dict: dict
+    :param bilinear_params: The dictionary containing the bilinear parameters.
+    :type bilinear_params: dict
+    :param inverse_params_dict: The dictionary containing the parameters for the inverse problem.
+    :type inverse_params_dict: dict
 
     :return: The calculated loss.
     :rtype: tf.Tensor
@@ -61,7 +61,7 @@ def pde_loss_cd2d(
     pde_diffusion_y = tf.transpose(tf.linalg.matvec(test_grad_y_mat, pred_grad_y_nn))
 
     # eps * ∫ (du/dx. dv/dx + du/dy. dv/dy) dΩ
-    pde_diffusion = inverse_param_dict["eps"] * (pde_diffusion_x + pde_diffusion_y)
+    pde_diffusion = inverse_params_dict["eps"] * (pde_diffusion_x + pde_diffusion_y)
 
     # ∫du/dx. v dΩ
     conv_x = tf.transpose(tf.linalg.matvec(test_shape_val_mat, pred_grad_x_nn))
@@ -70,11 +70,11 @@ def pde_loss_cd2d(
     conv_y = tf.transpose(tf.linalg.matvec(test_shape_val_mat, pred_grad_y_nn))
 
     # # b(x) * ∫du/dx. v dΩ + b(y) * ∫du/dy. v dΩ
-    conv = bilinear_params_dict["b_x"] * conv_x + bilinear_params_dict["b_y"] * conv_y
+    conv = bilinear_params["b_x"] * conv_x + bilinear_params["b_y"] * conv_y
 
     # reaction term
     # ∫c.u.v dΩ
-    reaction = bilinear_params_dict["c"] * tf.transpose(
+    reaction = bilinear_params["c"] * tf.transpose(
         tf.linalg.matvec(test_shape_val_mat, pred_nn)
     )
 
-- 
2.43.0


From c300086402bed6e709add82a5fded2a7e8baa61c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:22:29 +0000
Subject: [PATCH 02/16] fix: learning-rate schedule honours the configured
 staircase flag

---
 fastvpinns/model/model.py                | 6 ++++--
 fastvpinns/model/model_hard.py           | 2 +-
 fastvpinns/model/model_inverse.py        | 2 +-
 fastvpinns/model/model_inverse_domain.py | 6 ++++--
 4 files changed, 10 insertions(+), 6 deletions(-)

diff --git a/fastvpinns/model/model.py b/fastvpinns/model/model.py
index d3cb516..b14b5e9 100644
--- a/fastvpinns/model/model.py
+++ b/fastvpinns/model/model.py
@@ -132,11 +132,13 @@ class DenseModel(tf.keras.Model):
         use_lr_scheduler = learning_rate_dict["use_lr_scheduler"]
         decay_steps = learning_rate_dict["decay_steps"]
         decay_rate = learning_rate_dict["decay_rate"]
-        # staircase = learning_rate_dict["staircase"]
 
         if use_lr_scheduler:
             learning_rate_fn = tf.keras.optimizers.schedules.ExponentialDecay(
-                initial_learning_rate, decay_steps, decay_rate, staircase=True
+                initial_learning_rate,
+                decay_steps,
+                decay_rate,
+                staircase=learning_rate_dict.get("staircase", True),
             )
         else:
             learning_rate_fn = initial_learning_rate
diff --git a/fastvpinns/model/model_hard.py b/fastvpinns/model/model_hard.py
index 3af0338..94c094a 100644
--- a/fastvpinns/model/model_hard.py
+++ b/fastvpinns/model/model_hard.py
@@ -157,7 +157,7 @@ class DenseModel_Hard(tf.keras.Model):
 
         if use_lr_scheduler:
             learning_rate_fn = tf.keras.optimizers.schedules.ExponentialDecay(
-                initial_learning_rate, decay_steps, decay_rate, staircase=True
+                initial_learning_rate, decay_steps, decay_rate, staircase=staircase
             )
         else:
             learning_rate_fn = initial_learning_rate
diff --git a/fastvpinns/model/model_inverse.py b/fastvpinns/model/model_inverse.py
index 6309e46..40bd87c 100644
--- a/fastvpinns/model/model_inverse.py
+++ b/fastvpinns/model/model_inverse.py
@@ -148,7 +148,7 @@ class DenseModel_Inverse(tf.keras.Model):
 
         if use_lr_scheduler:
             learning_rate_fn = tf.keras.optimizers.schedules.ExponentialDecay(
-                initial_learning_rate, decay_steps, decay_rate, staircase=True
+                initial_learning_rate, decay_steps, decay_rate, staircase=staircase
             )
         else:
             learning_rate_fn = initial_learning_rate
diff --git a/fastvpinns/model/model_inverse_domain.py b/fastvpinns/model/model_inverse_domain.py
index 61e78d7..577d5ef 100644
--- a/fastvpinns/model/model_inverse_domain.py
+++ b/fastvpinns/model/model_inverse_domain.py
@@ -129,11 +129,13 @@ class DenseModel_Inverse_Domain(tf.keras.Model):
         use_lr_scheduler = learning_rate_dict["use_lr_scheduler"]
         decay_steps = learning_rate_dict["decay_steps"]
         decay_rate = learning_rate_dict["decay_rate"]
-        # staircase = learning_rate_dict["staircase"]
 
         if use_lr_scheduler:
             learning_rate_fn = tf.keras.optimizers.schedules.ExponentialDecay(
-                initial_learning_rate, decay_steps, decay_rate, staircase=True
+                initial_learning_rate,
+                decay_steps,
+                decay_rate,
+                staircase=learning_rate_dict.get("staircase", True),
             )
         else:
             learning_rate_fn = initial_learning_rate
-- 
2.43.0


From cf732c68988246453e9baab4a6a90402b64724c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:22:29 +0000
Subject: [PATCH 03/16] fix: hard-constraint model configuration includes the
 constraint function

---
 fastvpinns/model/model_hard.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/fastvpinns/model/model_hard.py b/fastvpinns/model/model_hard.py
index 94c094a..ae049eb 100644
--- a/fastvpinns/model/model_hard.py
+++ b/fastvpinns/model/model_hard.py
@@ -250,6 +250,7 @@ class DenseModel_Hard(tf.keras.Model):
                 "hessian": self.hessian,
                 "layer_dims": self.layer_dims,
                 "tensor_dtype": self.tensor_dtype,
+                "hard_constraint_function": self.hard_constraint_function,
             }
         )
 
-- 
2.43.0


From e87605af59cf0460833912c964e92e60de42e6e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:25:03 +0000
Subject: [PATCH 04/16] fix: models compute in the requested tensor dtype

---
 fastvpinns/model/model.py                | 7 +++++--
 fastvpinns/model/model_hard.py           | 7 +++++--
 fastvpinns/model/model_inverse.py        | 7 +++++--
 fastvpinns/model/model_inverse_domain.py | 7 +++++--
 4 files changed, 20 insertions(+), 8 deletions(-)

diff --git a/fastvpinns/model/model.py b/fastvpinns/model/model.py
index b14b5e9..9478304 100644
--- a/fastvpinns/model/model.py
+++ b/fastvpinns/model/model.py
@@ -60,7 +60,10 @@ class DenseModel(tf.keras.Model):
         activation="tanh",
         hessian=False,
     ):
-        super(DenseModel, self).__init__()
+        # the model computes in the requested precision (keras casts inputs to this dtype)
+        super(DenseModel, self).__init__(
+            dtype=tensor_dtype if isinstance(tensor_dtype, tf.DType) else None
+        )
         self.layer_dims = layer_dims
         self.use_attention = use_attention
         self.activation = activation
@@ -174,7 +177,7 @@ class DenseModel(tf.keras.Model):
 
         # Add attention layer if required
         if self.use_attention:
-            self.attention_layer = layers.Attention()
+            self.attention_layer = layers.Attention(dtype=self.tensor_dtype)
 
         # Compile the model
         self.compile(optimizer=self.optimizer)
diff --git a/fastvpinns/model/model_hard.py b/fastvpinns/model/model_hard.py
index ae049eb..626fe5f 100644
--- a/fastvpinns/model/model_hard.py
+++ b/fastvpinns/model/model_hard.py
@@ -75,7 +75,10 @@ class DenseModel_Hard(tf.keras.Model):
         hessian=False,
         hard_constraint_function=None,
     ):
-        super(DenseModel_Hard, self).__init__()
+        # the model computes in the requested precision (keras casts inputs to this dtype)
+        super(DenseModel_Hard, self).__init__(
+            dtype=tensor_dtype if isinstance(tensor_dtype, tf.DType) else None
+        )
         self.layer_dims = layer_dims
         self.use_attention = use_attention
         self.activation = activation
@@ -193,7 +196,7 @@ class DenseModel_Hard(tf.keras.Model):
 
         # Add attention layer if required
         if self.use_attention:
-            self.attention_layer = layers.Attention()
+            self.attention_layer = layers.Attention(dtype=self.tensor_dtype)
 
         # Compile the model
         self.compile(optimizer=self.optimizer)
diff --git a/fastvpinns/model/model_inverse.py b/fastvpinns/model/model_inverse.py
index 40bd87c..1cc49a5 100644
--- a/fastvpinns/model/model_inverse.py
+++ b/fastvpinns/model/model_inverse.py
@@ -54,7 +54,10 @@ class DenseModel_Inverse(tf.keras.Model):
         activation="tanh",
         hessian=False,
     ):
-        super(DenseModel_Inverse, self).__init__()
+        # the model computes in the requested precision (keras casts inputs to this dtype)
+        super(DenseModel_Inverse, self).__init__(
+            dtype=tensor_dtype if isinstance(tensor_dtype, tf.DType) else None
+        )
         self.layer_dims = layer_dims
         self.use_attention = use_attention
         self.activation = activation
@@ -184,7 +187,7 @@ class DenseModel_Inverse(tf.keras.Model):
 
         # Add attention layer if required
         if self.use_attention:
-            self.attention_layer = layers.Attention()
+            self.attention_layer = layers.Attention(dtype=self.tensor_dtype)
 
         # Compile the model
         self.compile(optimizer=self.optimizer)
diff --git a/fastvpinns/model/model_inverse_domain.py b/fastvpinns/model/model_inverse_domain.py
index 577d5ef..5055630 100644
--- a/fastvpinns/model/model_inverse_domain.py
+++ b/fastvpinns/model/model_inverse_domain.py
@@ -52,7 +52,10 @@ class DenseModel_Inverse_Domain(tf.keras.Model):
         activation="tanh",
         hessian=False,
     ):
-        super(DenseModel_Inverse_Domain, self).__init__()
+        # the model computes in the requested precision (keras casts inputs to this dtype)
+        super(DenseModel_Inverse_Domain, self).__init__(
+            dtype=tensor_dtype if isinstance(tensor_dtype, tf.DType) else None
+        )
         self.layer_dims = layer_dims
         self.use_attention = use_attention
         self.activation = activation
@@ -180,7 +183,7 @@ class DenseModel_Inverse_Domain(tf.keras.Model):
 
         # Add attention layer if required
         if self.use_attention:
-            self.attention_layer = layers.Attention()
+            self.attention_layer = layers.Attention(dtype=self.tensor_dtype)
 
         # Compile the model
         self.compile(optimizer=self.optimizer)
-- 
2.43.0


From 7ff8461fbcf453ad4508d6f2e2a20e63f811a6c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:34:11 +0000
Subject: [PATCH 05/16] fix: boundary tags are read from the line elements of
 the mesh

---
 fastvpinns/Geometry/geometry_2d.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/fastvpinns/Geometry/geometry_2d.py b/fastvpinns/Geometry/geometry_2d.py
index e042ccf..b102b92 100644
--- a/fastvpinns/Geometry/geometry_2d.py
+++ b/fastvpinns/Geometry/geometry_2d.py
@@ -161,7 +161,7 @@ class Geometry_2D(Geometry):
         )
 
         # now Get the physical tag of the boundary edges
-        boundary_tags = self.mesh.cell_data["medit:ref"][0]
+        boundary_tags = self.mesh.cell_data_dict["medit:ref"]["line"]
 
         # Generate a Dictionary of boundary tags and boundary coordinates
         # Keys will be the boundary tags and values will be the list of coordinates
-- 
2.43.0


From a81b62539aa68049abe61c8585fbd3be813b5f31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:34:11 +0000
Subject: [PATCH 06/16] fix: latin hypercube boundary points lie on the
 boundary edge

---
 fastvpinns/Geometry/geometry_2d.py | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/fastvpinns/Geometry/geometry_2d.py b/fastvpinns/Geometry/geometry_2d.py
index b102b92..eda7ae9 100644
--- a/fastvpinns/Geometry/geometry_2d.py
+++ b/fastvpinns/Geometry/geometry_2d.py
@@ -176,10 +176,9 @@ class Geometry_2D(Geometry):
                 # take the current point and next point and then perform a uniform sampling
                 new_points = np.linspace(p1, p2, pow(2, boundary_point_refinement_level) + 1)
             elif bd_sampling_method == "lhs":
-                # take the current point and next point and then perform a uniform sampling
-                new_points = lhs(2, pow(2, boundary_point_refinement_level) + 1)
-                new_points[:, 0] = new_points[:, 0] * (p2[0] - p1[0]) + p1[0]
-                new_points[:, 1] = new_points[:, 1] * (p2[1] - p1[1]) + p1[1]
+                # sample the parameter along the edge, so that the points lie on the edge
+                edge_parameter = lhs(1, pow(2, boundary_point_refinement_level) + 1)
+                new_points = p1[0:2] + edge_parameter * (p2[0:2] - p1[0:2])
             else:
                 print(
                     f"Invalid sampling method {bd_sampling_method} in {self.__class__.__name__} from {__name__}."
-- 
2.43.0


From 3b44967ef6ecf86f3662427e6f950e25fc7168ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:34:11 +0000
Subject: [PATCH 07/16] fix: internal mesh object has integer quadrilateral
 connectivity

---
 fastvpinns/Geometry/geometry_2d.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/fastvpinns/Geometry/geometry_2d.py b/fastvpinns/Geometry/geometry_2d.py
index eda7ae9..7f4ff75 100644
--- a/fastvpinns/Geometry/geometry_2d.py
+++ b/fastvpinns/Geometry/geometry_2d.py
@@ -286,7 +286,10 @@ class Geometry_2D(Geometry):
             cells[i] = cell[np.argsort(angles)]
 
         # generate a meshio mesh object using the cells
-        self.mesh = meshio.Mesh(points=cells.reshape(-1, 2), cells=[("quad", cells.reshape(-1, 4))])
+        self.mesh = meshio.Mesh(
+            points=cells.reshape(-1, 2),
+            cells=[("quad", np.arange(4 * cells.shape[0]).reshape(-1, 4))],
+        )
 
         # lets generate the boundary points, this function will return a dictionary of boundary points
         # the keys will be the boundary tags and values will be the list of boundary points
-- 
2.43.0


From b166a76c3813d05bf7ed2626853b101954f894fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:53:28 +0000
Subject: [PATCH 08/16] fix: adaptive mesh plot attaches its colour bar to the
 plotted axes

---
 fastvpinns/Geometry/geometry_2d.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/fastvpinns/Geometry/geometry_2d.py b/fastvpinns/Geometry/geometry_2d.py
index 7f4ff75..7e6c055 100644
--- a/fastvpinns/Geometry/geometry_2d.py
+++ b/fastvpinns/Geometry/geometry_2d.py
@@ -558,7 +558,7 @@ class Geometry_2D(Geometry):
 
         sm = plt.cm.ScalarMappable(cmap=colormap, norm=norm)
         sm.set_array([])
-        plt.colorbar(sm)
+        plt.colorbar(sm, ax=plt.gca())
 
         # output filename
         output_filename = Path(f"{self.output_folder}/{filename}_{epoch}.png")
-- 
2.43.0


From 17f5653f3c09b3ee832c964f16e7900e7aa099e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:53:28 +0000
Subject: [PATCH 09/16] fix: mesh, sensor and residual plots close their
 figures

---
 fastvpinns/FE/fespace2d.py         | 2 ++
 fastvpinns/Geometry/geometry_2d.py | 1 +
 2 files changed, 3 insertions(+)

diff --git a/fastvpinns/FE/fespace2d.py b/fastvpinns/FE/fespace2d.py
index 53e3727..2f3bfa3 100644
--- a/fastvpinns/FE/fespace2d.py
+++ b/fastvpinns/FE/fespace2d.py
@@ -334,6 +334,7 @@ class Fespace2D(Fespace):
 
         plt.savefig(str(Path(output_path) / "mesh.png"), bbox_inches="tight")
         plt.savefig(str(Path(output_path) / "mesh.svg"), bbox_inches="tight")
+        plt.close()
 
         # print the total number of quadrature points
         print(f"Plots generated")
@@ -684,6 +685,7 @@ class Fespace2D(Fespace):
         plt.title("Sensor Points")
         plt.tight_layout()
         plt.savefig("sensor_points.png", bbox_inches="tight")
+        plt.close()
 
         return points, exact_sol
 
diff --git a/fastvpinns/Geometry/geometry_2d.py b/fastvpinns/Geometry/geometry_2d.py
index 7e6c055..5046d2b 100644
--- a/fastvpinns/Geometry/geometry_2d.py
+++ b/fastvpinns/Geometry/geometry_2d.py
@@ -564,3 +564,4 @@ class Geometry_2D(Geometry):
         output_filename = Path(f"{self.output_folder}/{filename}_{epoch}.png")
         plt.title(f"Cell Residual")
         plt.savefig(str(output_filename), dpi=300)
+        plt.close()
-- 
2.43.0


From 68a88fffe46521d60120f6ba24ca115547c76f4f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:53:28 +0000
Subject: [PATCH 10/16] fix: sensor point plot is saved in the output folder

---
 fastvpinns/FE/fespace2d.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/fastvpinns/FE/fespace2d.py b/fastvpinns/FE/fespace2d.py
index 2f3bfa3..5a9edc7 100644
--- a/fastvpinns/FE/fespace2d.py
+++ b/fastvpinns/FE/fespace2d.py
@@ -684,7 +684,7 @@ class Fespace2D(Fespace):
         plt.axis("equal")
         plt.title("Sensor Points")
         plt.tight_layout()
-        plt.savefig("sensor_points.png", bbox_inches="tight")
+        plt.savefig(str(Path(self.output_path) / "sensor_points.png"), bbox_inches="tight")
         plt.close()
 
         return points, exact_sol
-- 
2.43.0


From 325ea39b2d21508795f249a3572d8d5c573c5635 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:53:28 +0000
Subject: [PATCH 11/16] fix: reported number of boundary points counts each
 point once

---
 fastvpinns/FE/fespace2d.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/fastvpinns/FE/fespace2d.py b/fastvpinns/FE/fespace2d.py
index 5a9edc7..4224767 100644
--- a/fastvpinns/FE/fespace2d.py
+++ b/fastvpinns/FE/fespace2d.py
@@ -321,7 +321,7 @@ class Fespace2D(Fespace):
             x = np.append(x, x[0])
             y = np.append(y, y[0])
 
-            bound_dof += x.shape[0]
+            bound_dof += bound_pts.shape[0]
 
             plt.scatter(x, y, marker=marker_list[i + 1], s=2, label=f"Bd-id : {bound_id}")
 
-- 
2.43.0


From c1fc0dbd220f5a4f6d2a0ab1d0a7d46cf4ab303f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:53:28 +0000
Subject: [PATCH 12/16] fix: mesh plot supports any number of boundary tags

---
 fastvpinns/FE/fespace2d.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/fastvpinns/FE/fespace2d.py b/fastvpinns/FE/fespace2d.py
index 4224767..5bd54de 100644
--- a/fastvpinns/FE/fespace2d.py
+++ b/fastvpinns/FE/fespace2d.py
@@ -323,7 +323,7 @@ class Fespace2D(Fespace):
 
             bound_dof += bound_pts.shape[0]
 
-            plt.scatter(x, y, marker=marker_list[i + 1], s=2, label=f"Bd-id : {bound_id}")
+            plt.scatter(x, y, marker=marker_list[(i + 1) % len(marker_list)], s=2, label=f"Bd-id : {bound_id}")
 
         self.total_boundary_dofs = bound_dof
 
-- 
2.43.0


From c7fcb714e61c11188f8382270cac8753c28d19f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:53:28 +0000
Subject: [PATCH 13/16] fix: unknown sensor data source raises ValueError

---
 fastvpinns/data/datahandler2d.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/fastvpinns/data/datahandler2d.py b/fastvpinns/data/datahandler2d.py
index 6b1474d..24ee023 100644
--- a/fastvpinns/data/datahandler2d.py
+++ b/fastvpinns/data/datahandler2d.py
@@ -188,6 +188,8 @@ class DataHandler2D(DataHandler):
             points, sensor_values = self.fespace.get_sensor_data_external(
                 exact_sol, num_sensor_points, file_name
             )
+        else:
+            raise ValueError("The mesh type for sensor data should be either internal or external")
         # convert the points and sensor values into tensors
         points = tf.constant(points, dtype=self.dtype)
         sensor_values = tf.constant(sensor_values, dtype=self.dtype)
-- 
2.43.0


From becaeaecdbe1c4461213610450ee73b847f06095 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:53:28 +0000
Subject: [PATCH 14/16] fix: caller's parameter dictionaries are not modified

---
 fastvpinns/data/datahandler2d.py  | 4 ++--
 fastvpinns/model/model_inverse.py | 2 +-
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/fastvpinns/data/datahandler2d.py b/fastvpinns/data/datahandler2d.py
index 24ee023..6623759 100644
--- a/fastvpinns/data/datahandler2d.py
+++ b/fastvpinns/data/datahandler2d.py
@@ -155,7 +155,7 @@ class DataHandler2D(DataHandler):
         :rtype: dict
         """
         # get the dictionary of bilinear parameters
-        bilinear_params_dict = function()
+        bilinear_params_dict = dict(function())
 
         # loop over all keys and convert the values to tensors
         for key in bilinear_params_dict.keys():
@@ -211,7 +211,7 @@ class DataHandler2D(DataHandler):
         """
         # loop over all keys and convert the values to tensors
 
-        inverse_params_dict = inverse_params_dict_function()
+        inverse_params_dict = dict(inverse_params_dict_function())
 
         for key in inverse_params_dict.keys():
             inverse_params_dict[key] = tf.constant(inverse_params_dict[key], dtype=self.dtype)
diff --git a/fastvpinns/model/model_inverse.py b/fastvpinns/model/model_inverse.py
index 1cc49a5..5576524 100644
--- a/fastvpinns/model/model_inverse.py
+++ b/fastvpinns/model/model_inverse.py
@@ -73,7 +73,7 @@ class DenseModel_Inverse(tf.keras.Model):
         self.sensor_values = sensor_list[1]
 
         # inverse params dict
-        self.inverse_params_dict = inverse_params_dict
+        self.inverse_params_dict = dict(inverse_params_dict)
 
         # Conver all the values within inverse_params_dict to trainable variables
         for key, value in self.inverse_params_dict.items():
-- 
2.43.0


From 3f9a6b7aae6a063f675ea442bf07df9ef3b258e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:53:28 +0000
Subject: [PATCH 15/16] fix: tuner runs without a GPU and with concurrent
 trials

---
 fastvpinns/hyperparameter_tuning/objective.py    | 3 +--
 fastvpinns/hyperparameter_tuning/optuna_tuner.py | 5 ++++-
 2 files changed, 5 insertions(+), 3 deletions(-)

diff --git a/fastvpinns/hyperparameter_tuning/objective.py b/fastvpinns/hyperparameter_tuning/objective.py
index 707ddba..6934992 100644
--- a/fastvpinns/hyperparameter_tuning/objective.py
+++ b/fastvpinns/hyperparameter_tuning/objective.py
@@ -70,8 +70,7 @@ def objective(trial, num_epochs):
     # Set up your model and training process using the suggested hyperparameters
 
     output_temp_dir = "output_temp"
-    if not os.path.exists(output_temp_dir):
-        os.makedirs(output_temp_dir)
+    os.makedirs(output_temp_dir, exist_ok=True)
 
     gpus = tf.config.list_physical_devices('GPU')
     if gpus:
diff --git a/fastvpinns/hyperparameter_tuning/optuna_tuner.py b/fastvpinns/hyperparameter_tuning/optuna_tuner.py
index af4ebcb..54dc6fb 100644
--- a/fastvpinns/hyperparameter_tuning/optuna_tuner.py
+++ b/fastvpinns/hyperparameter_tuning/optuna_tuner.py
@@ -40,6 +40,9 @@ class OptunaTuner:
         Wrapper function to run the objective function on a specific GPU.
         """
 
+        if not self.gpus:
+            return objective(trial, self.n_epochs)
+
         gpu_id = trial.number % len(self.gpus)
         with tf.device(f'/device:GPU:{gpu_id}'):
             return objective(trial, self.n_epochs)
@@ -52,7 +55,7 @@ class OptunaTuner:
             load_if_exists=True,
         )
         study.optimize(
-            self.objective_wrapper, n_trials=self.n_trials, n_jobs=min(len(self.gpus), self.n_jobs)
+            self.objective_wrapper, n_trials=self.n_trials, n_jobs=min(max(len(self.gpus), 1), self.n_jobs) or 1
         )
 
         print("Best trial:")
-- 
2.43.0


From c86bc98a54a140fa287ef31d3fa9db9b8cf5f3ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:44 +0000
Subject: [PATCH 16/16] fix: build the inverse-domain model only after its
 layers exist

build() runs call(), which needs the attention layer; with use_attention=True
the constructor failed with AttributeError.
---
 fastvpinns/model/model_inverse_domain.py | 9 ---------
 1 file changed, 9 deletions(-)

diff --git a/fastvpinns/model/model_inverse_domain.py b/fastvpinns/model/model_inverse_domain.py
index 5055630..4c588df 100644
--- a/fastvpinns/model/model_inverse_domain.py
+++ b/fastvpinns/model/model_inverse_domain.py
@@ -145,15 +145,6 @@ class DenseModel_Inverse_Domain(tf.keras.Model):
 
         self.optimizer = tf.keras.optimizers.Adam(learning_rate=learning_rate_fn)
 
-        # build the model using the input shape of the first layer in self.layer_dims
-        input_shape = (None, self.layer_dims[0])
-        # build the model
-        self.build(input_shape=input_shape)
-        # Compile the model
-        self.compile(optimizer=self.optimizer)
-        # print model summary
-        self.summary()
-
         ## ----------------------------------------------------------------- ##
         ## --------------------- MODEL ARCHITECTURE ------------------------ ##
         ## ----------------------------------------------------------------- ##
-- 
2.43.0

