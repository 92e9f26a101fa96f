From fe667956f436596fb1b32bbda774b674868250de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:16:05 +0000
Subject: [PATCH 01/13] fix: penalise field boundary with zone width 1

---
 .../stencil_ops_2d/penalise_field_boundary_2d.py            | 4 ++--
 .../stencil_ops_3d/penalise_field_boundary_3d.py            | 6 +++---
 2 files changed, 5 insertions(+), 5 deletions(-)

diff --git a/sopht/numeric/eulerian_grid_ops/stencil_ops_2d/penalise_field_boundary_2d.py b/sopht/numeric/eulerian_grid_ops/stencil_ops_2d/penalise_field_boundary_2d.py
index bcc0448..b17736a 100644
--- a/sopht/numeric/eulerian_grid_ops/stencil_ops_2d/penalise_field_boundary_2d.py
+++ b/sopht/numeric/eulerian_grid_ops/stencil_ops_2d/penalise_field_boundary_2d.py
@@ -131,7 +131,7 @@ def gen_penalise_field_boundary_pyst_kernel_2d(
             # first along X
             # these parts involve broadcasting hence couldn't be pystencilized
             field[:, :width] = field[:, (width - 1) : width]
-            field[:, -width:] = field[:, -width : (-width + 1)]
+            field[:, -width:] = field[:, -width, None]
             penalise_field_x_front_boundary_kernel_2d(
                 field=field, x_grid_field=x_grid_field
             )
@@ -142,7 +142,7 @@ def gen_penalise_field_boundary_pyst_kernel_2d(
             # then along Y
             # these parts involve broadcasting hence couldn't be pystencilized
             field[:width, :] = field[(width - 1) : width, :]
-            field[-width:, :] = field[-width : (-width + 1), :]
+            field[-width:, :] = field[-width, None, :]
             penalise_field_y_front_boundary_kernel_2d(
                 field=field, y_grid_field=y_grid_field
             )
diff --git a/sopht/numeric/eulerian_grid_ops/stencil_ops_3d/penalise_field_boundary_3d.py b/sopht/numeric/eulerian_grid_ops/stencil_ops_3d/penalise_field_boundary_3d.py
index ad595f5..648df2b 100644
--- a/sopht/numeric/eulerian_grid_ops/stencil_ops_3d/penalise_field_boundary_3d.py
+++ b/sopht/numeric/eulerian_grid_ops/stencil_ops_3d/penalise_field_boundary_3d.py
@@ -188,7 +188,7 @@ def gen_penalise_field_boundary_pyst_kernel_3d(  # noqa: C901
             # first along X
             # these parts involve broadcasting hence couldn't be pystencilized
             field[:, :, :width] = field[:, :, (width - 1) : width]
-            field[:, :, -width:] = field[:, :, -width : (-width + 1)]
+            field[:, :, -width:] = field[:, :, -width, None]
             penalise_field_x_front_boundary_kernel_3d(
                 field=field, x_grid_field=x_grid_field
             )
@@ -199,7 +199,7 @@ def gen_penalise_field_boundary_pyst_kernel_3d(  # noqa: C901
             # then along Y
             # these parts involve broadcasting hence couldn't be pystencilized
             field[:, :width, :] = field[:, (width - 1) : width, :]
-            field[:, -width:, :] = field[:, -width : (-width + 1), :]
+            field[:, -width:, :] = field[:, -width, None, :]
             penalise_field_y_front_boundary_kernel_3d(
                 field=field, y_grid_field=y_grid_field
             )
@@ -210,7 +210,7 @@ def gen_penalise_field_boundary_pyst_kernel_3d(  # noqa: C901
             # then along Z
             # these parts involve broadcasting hence couldn't be pystencilized
             field[:width, :, :] = field[(width - 1) : width, :, :]
-            field[-width:, :, :] = field[-width : (-width + 1), :, :]
+            field[-width:, :, :] = field[-width, None, :, :]
             penalise_field_z_front_boundary_kernel_3d(
                 field=field, z_grid_field=z_grid_field
             )
-- 
2.43.0


From 13c8263c7d83f1693b468e7e6490272c424108f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:16:05 +0000
Subject: [PATCH 02/13] fix: zero order laplacian filter subtracting stale
 buffer contents

---
 .../stencil_ops_3d/laplacian_filter_3d.py              | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/sopht/numeric/eulerian_grid_ops/stencil_ops_3d/laplacian_filter_3d.py b/sopht/numeric/eulerian_grid_ops/stencil_ops_3d/laplacian_filter_3d.py
index afa83d0..b7cf245 100644
--- a/sopht/numeric/eulerian_grid_ops/stencil_ops_3d/laplacian_filter_3d.py
+++ b/sopht/numeric/eulerian_grid_ops/stencil_ops_3d/laplacian_filter_3d.py
@@ -175,8 +175,16 @@ def gen_laplacian_filter_kernel_3d(
             field_2_prefac=-1.0,
         )
 
+    def scalar_field_bypass_filter_kernel_3d(scalar_field):
+        """
+        Bypass option for zero filter order, leaves scalar field unfiltered.
+        """
+
     scalar_field_filter_kernel_3d = None
-    if filter_type == "multiplicative":
+    if filter_order == 0:
+        # no filter pass overwrites the flux buffer, hence nothing to subtract
+        scalar_field_filter_kernel_3d = scalar_field_bypass_filter_kernel_3d
+    elif filter_type == "multiplicative":
         scalar_field_filter_kernel_3d = scalar_field_multiplicative_filter_kernel_3d
     elif filter_type == "convolution":
         scalar_field_filter_kernel_3d = scalar_field_convolution_filter_kernel_3d
-- 
2.43.0


From a3f7e53e528d8fa61d6e57a6048f80357122a2f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:30:57 +0000
Subject: [PATCH 03/13] fix: complex product kernels with a fixed grid size

The real and imaginary views of a complex array are strided, so the kernels generated for a fixed size rejected every array.
---
 .../stencil_ops_2d/elementwise_ops_2d.py      | 28 ++++++++++----
 .../stencil_ops_3d/elementwise_ops_3d.py      | 37 ++++++++++++++-----
 2 files changed, 49 insertions(+), 16 deletions(-)

diff --git a/sopht/numeric/eulerian_grid_ops/stencil_ops_2d/elementwise_ops_2d.py b/sopht/numeric/eulerian_grid_ops/stencil_ops_2d/elementwise_ops_2d.py
index 6238bf2..a8bf66d 100644
--- a/sopht/numeric/eulerian_grid_ops/stencil_ops_2d/elementwise_ops_2d.py
+++ b/sopht/numeric/eulerian_grid_ops/stencil_ops_2d/elementwise_ops_2d.py
@@ -1,4 +1,6 @@
 """Kernels for elementwise operations in 2D."""
+import numpy as np
+
 import pystencils as ps
 
 import sympy as sp
@@ -131,17 +133,29 @@ def gen_elementwise_complex_product_pyst_kernel_2d(
     pyst_dtype = get_pyst_dtype(real_t)
     kernel_config = get_pyst_kernel_config(real_t, num_threads)
     # we can add dtype checks later
-    grid_info = (
-        f"{fixed_grid_size[0]}, {fixed_grid_size[1]}" if fixed_grid_size else "2D"
-    )
+
+    def complex_part_fields(*names):
+        """Fields for the real or imaginary parts of complex arrays."""
+        if not fixed_grid_size:
+            return ps.fields(f"{', '.join(names)} : {pyst_dtype}[2D]")
+        # the parts are views on the complex array, with twice the strides of a
+        # contiguous real array
+        real_size = np.dtype(pyst_dtype).itemsize
+        strides = (2 * fixed_grid_size[1] * real_size, 2 * real_size)
+        return [
+            ps.Field.create_fixed_size(
+                name, shape=fixed_grid_size, dtype=pyst_dtype, strides=strides
+            )
+            for name in names
+        ]
 
     @ps.kernel
     def _elementwise_complex_product_stencil_2d():
-        product_field_real, field_1_real, field_2_real = ps.fields(
-            f"product_field_real, field_1_real, field_2_real : {pyst_dtype}[{grid_info}]"
+        product_field_real, field_1_real, field_2_real = complex_part_fields(
+            "product_field_real", "field_1_real", "field_2_real"
         )
-        product_field_imag, field_1_imag, field_2_imag = ps.fields(
-            f"product_field_imag, field_1_imag, field_2_imag : {pyst_dtype}[{grid_info}]"
+        product_field_imag, field_1_imag, field_2_imag = complex_part_fields(
+            "product_field_imag", "field_1_imag", "field_2_imag"
         )
         product_field_real[0, 0] @= (
             field_1_real[0, 0] * field_2_real[0, 0]
diff --git a/sopht/numeric/eulerian_grid_ops/stencil_ops_3d/elementwise_ops_3d.py b/sopht/numeric/eulerian_grid_ops/stencil_ops_3d/elementwise_ops_3d.py
index cd8aa41..5134966 100644
--- a/sopht/numeric/eulerian_grid_ops/stencil_ops_3d/elementwise_ops_3d.py
+++ b/sopht/numeric/eulerian_grid_ops/stencil_ops_3d/elementwise_ops_3d.py
@@ -1,4 +1,6 @@
 """Kernels for elementwise operations in 3D."""
+import numpy as np
+
 import pystencils as ps
 
 import sympy as sp
@@ -141,19 +143,36 @@ def gen_elementwise_complex_product_pyst_kernel_3d(
     pyst_dtype = get_pyst_dtype(real_t)
     kernel_config = get_pyst_kernel_config(real_t, num_threads)
     # we can add dtype checks later
-    grid_info = (
-        f"{fixed_grid_size[0]}, {fixed_grid_size[1]}, {fixed_grid_size[2]}"
-        if fixed_grid_size
-        else "3D"
-    )
+
+    def complex_part_fields(*names):
+        """Fields for the real or imaginary parts of complex arrays."""
+        if not fixed_grid_size:
+            return ps.fields(f"{', '.join(names)} : {pyst_dtype}[3D]")
+        # the parts are views on the complex array, with twice the strides of a
+        # contiguous real array
+        real_size = np.dtype(pyst_dtype).itemsize
+        strides = tuple(
+            2 * stride * real_size
+            for stride in (
+                fixed_grid_size[1] * fixed_grid_size[2],
+                fixed_grid_size[2],
+                1,
+            )
+        )
+        return [
+            ps.Field.create_fixed_size(
+                name, shape=fixed_grid_size, dtype=pyst_dtype, strides=strides
+            )
+            for name in names
+        ]
 
     @ps.kernel
     def _elementwise_complex_product_stencil_3d():
-        product_field_real, field_1_real, field_2_real = ps.fields(
-            f"product_field_real, field_1_real, field_2_real : {pyst_dtype}[{grid_info}]"
+        product_field_real, field_1_real, field_2_real = complex_part_fields(
+            "product_field_real", "field_1_real", "field_2_real"
         )
-        product_field_imag, field_1_imag, field_2_imag = ps.fields(
-            f"product_field_imag, field_1_imag, field_2_imag : {pyst_dtype}[{grid_info}]"
+        product_field_imag, field_1_imag, field_2_imag = complex_part_fields(
+            "product_field_imag", "field_1_imag", "field_2_imag"
         )
         product_field_real[0, 0, 0] @= (
             field_1_real[0, 0, 0] * field_2_real[0, 0, 0]
-- 
2.43.0


From e00cd15c2de60a672b2cfe63b5a745900cf226d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:33:42 +0000
Subject: [PATCH 04/13] fix: scipy inverse FFT wrappers for odd grid sizes

irfftn was called without the output shape and assumed an even last extent.
---
 .../eulerian_grid_ops/poisson_solver_2d/scipy_fft_2d.py       | 4 +++-
 .../eulerian_grid_ops/poisson_solver_3d/scipy_fft_3d.py       | 4 +++-
 2 files changed, 6 insertions(+), 2 deletions(-)

diff --git a/sopht/numeric/eulerian_grid_ops/poisson_solver_2d/scipy_fft_2d.py b/sopht/numeric/eulerian_grid_ops/poisson_solver_2d/scipy_fft_2d.py
index 6da5ece..1f8ea19 100644
--- a/sopht/numeric/eulerian_grid_ops/poisson_solver_2d/scipy_fft_2d.py
+++ b/sopht/numeric/eulerian_grid_ops/poisson_solver_2d/scipy_fft_2d.py
@@ -7,4 +7,6 @@ def fft_ifft_via_scipy_kernel_2d(
 ):
     """Perform reference FFT operations via scipy."""
     fourier_field[...] = rfftn(field, workers=num_threads)
-    inv_fourier_field[...] = irfftn(fourier_field, workers=num_threads)
+    inv_fourier_field[...] = irfftn(
+        fourier_field, s=field.shape, workers=num_threads
+    )
diff --git a/sopht/numeric/eulerian_grid_ops/poisson_solver_3d/scipy_fft_3d.py b/sopht/numeric/eulerian_grid_ops/poisson_solver_3d/scipy_fft_3d.py
index b682f2e..a18e24a 100644
--- a/sopht/numeric/eulerian_grid_ops/poisson_solver_3d/scipy_fft_3d.py
+++ b/sopht/numeric/eulerian_grid_ops/poisson_solver_3d/scipy_fft_3d.py
@@ -7,4 +7,6 @@ def fft_ifft_via_scipy_kernel_3d(
 ):
     """Perform reference FFT operations via scipy."""
     fourier_field[...] = rfftn(field, workers=num_threads)
-    inv_fourier_field[...] = irfftn(fourier_field, workers=num_threads)
+    inv_fourier_field[...] = irfftn(
+        fourier_field, s=field.shape, workers=num_threads
+    )
-- 
2.43.0


From 7b65069f87352e693b8550e0ccef0f88553ed4ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:41 +0000
Subject: [PATCH 05/13] fix: description files named after the data file suffix
 only

The .xmf names were made by replacing every '.h5' of the path: without that
suffix the description file overwrote the data file, and a '.h5' elsewhere in
the path was replaced as well.
---
 sopht/utils/IO.py | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/sopht/utils/IO.py b/sopht/utils/IO.py
index 2026017..076ad83 100644
--- a/sopht/utils/IO.py
+++ b/sopht/utils/IO.py
@@ -1,4 +1,6 @@
 """Module for Input/Output via HD5 format."""
+import os
+
 import h5py
 
 import numpy as np
@@ -419,6 +421,12 @@ class IO:
 
         return time
 
+    @staticmethod
+    def _xdmf_file_name(h5_file_name, grid_name):
+        """Name of the XDMF description file of a grid, next to the hdf5 file."""
+        root, extension = os.path.splitext(h5_file_name)
+        return f"{root if extension == '.h5' else h5_file_name}_{grid_name}.xmf"
+
     def generate_xdmf_eulerian(self, h5_file_name, time=0.0):
         """Generate XDMF description file for Eulerian fields.
 
@@ -512,7 +520,7 @@ class IO:
     </Domain>
 </Xdmf>
 """
-        with open(h5_file_name.replace(".h5", "_eulerian.xmf"), "w") as f:
+        with open(self._xdmf_file_name(h5_file_name, "eulerian"), "w") as f:
             f.write(xdmffile)
 
     def generate_xdmf_lagrangian(self, h5_file_name, time):
@@ -548,7 +556,7 @@ class IO:
             return entry
 
         for lagrangian_grid_name in self.lagrangian_grids:
-            xmf_file_name = h5_file_name.replace(".h5", f"_{lagrangian_grid_name}.xmf")
+            xmf_file_name = self._xdmf_file_name(h5_file_name, lagrangian_grid_name)
             field_entries = ""
             lagrangian_grid = self.lagrangian_grids[lagrangian_grid_name]
             lagrangian_grid_size = np.flip(np.array(lagrangian_grid.shape))
-- 
2.43.0


From 95034855f7fcd4a4aebed54d2d2dceb2fab3a443 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:41 +0000
Subject: [PATCH 06/13] fix: type of lagrangian fields on grids with as many
 nodes as dimensions

A vector field (dim, N) with N == dim was taken for a scalar field.
---
 sopht/utils/IO.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sopht/utils/IO.py b/sopht/utils/IO.py
index 076ad83..03acdad 100644
--- a/sopht/utils/IO.py
+++ b/sopht/utils/IO.py
@@ -167,7 +167,7 @@ class IO:
             )
 
             # Assign field types
-            if field.shape[0] == lagrangian_grid.shape[1]:
+            if field.shape == (lagrangian_grid.shape[1],):
                 self.lagrangian_fields_type[field_name] = "Scalar"
             elif field.shape == lagrangian_grid.shape:
                 self.lagrangian_fields_type[field_name] = "Vector"
-- 
2.43.0


From f3528d6452f4c3f69d6ad92f67617951e1a76f53 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:41 +0000
Subject: [PATCH 07/13] fix: lagrangian fields of equal name on different grids

Fields were kept by name only, so that the field of the grid added last was
saved to and loaded from every grid with a field of that name.
---
 sopht/utils/IO.py | 33 ++++++++++++++++++++++-----------
 1 file changed, 22 insertions(+), 11 deletions(-)

diff --git a/sopht/utils/IO.py b/sopht/utils/IO.py
index 03acdad..772eaa2 100644
--- a/sopht/utils/IO.py
+++ b/sopht/utils/IO.py
@@ -161,16 +161,20 @@ class IO:
         for field_name in fields_for_io:
             # Add each field into local dictionary
             field = fields_for_io[field_name]
-            self.lagrangian_fields[field_name] = field
+            self.lagrangian_fields[lagrangian_grid_name, field_name] = field
             self.lagrangian_fields_with_grid_name[lagrangian_grid_name].append(
                 field_name
             )
 
             # Assign field types
             if field.shape == (lagrangian_grid.shape[1],):
-                self.lagrangian_fields_type[field_name] = "Scalar"
+                self.lagrangian_fields_type[
+                    lagrangian_grid_name, field_name
+                ] = "Scalar"
             elif field.shape == lagrangian_grid.shape:
-                self.lagrangian_fields_type[field_name] = "Vector"
+                self.lagrangian_fields_type[
+                    lagrangian_grid_name, field_name
+                ] = "Vector"
             else:
                 raise ValueError(
                     f"Unable to identify lagrangian field type "
@@ -284,8 +288,10 @@ class IO:
                 for field_name in self.lagrangian_fields_with_grid_name[
                     lagrangian_grid_name
                 ]:
-                    field = self.lagrangian_fields[field_name]
-                    field_type = self.lagrangian_fields_type[field_name]
+                    field = self.lagrangian_fields[lagrangian_grid_name, field_name]
+                    field_type = self.lagrangian_fields_type[
+                        lagrangian_grid_name, field_name
+                    ]
                     if field_type == "Scalar":
                         lagrangian_scalar_grp.create_dataset(field_name, data=field)
                     elif field_type == "Vector":
@@ -386,7 +392,10 @@ class IO:
                     for field_name in self.lagrangian_fields_with_grid_name[
                         lagrangian_grid_name
                     ]:
-                        field_type = self.lagrangian_fields_type[field_name]
+                        field = self.lagrangian_fields[lagrangian_grid_name, field_name]
+                        field_type = self.lagrangian_fields_type[
+                            lagrangian_grid_name, field_name
+                        ]
                         if field_type == "Scalar":
                             assert (
                                 f"Lagrangian/{lagrangian_grid_name}/{field_type}/{field_name}"
@@ -395,9 +404,9 @@ class IO:
                                 f"Unable to find scalar field {field_name} on "
                                 f"grid {lagrangian_grid_name} in loaded file!"
                             )
-                            self.lagrangian_fields[field_name][...] = f["Lagrangian"][
-                                lagrangian_grid_name
-                            ][field_type][field_name][...]
+                            field[...] = f["Lagrangian"][lagrangian_grid_name][
+                                field_type
+                            ][field_name][...]
                         elif field_type == "Vector":
                             assert (
                                 f"Lagrangian/{lagrangian_grid_name}/{field_type}/{field_name}"
@@ -406,7 +415,7 @@ class IO:
                                 f"Unable to find vector field {field_name} on grid "
                                 f"{lagrangian_grid_name} in loaded file!"
                             )
-                            self.lagrangian_fields[field_name][...] = np.moveaxis(
+                            field[...] = np.moveaxis(
                                 f["Lagrangian"][lagrangian_grid_name][field_type][
                                     field_name
                                 ][...],
@@ -569,7 +578,9 @@ class IO:
             for field_name in self.lagrangian_fields_with_grid_name[
                 lagrangian_grid_name
             ]:
-                field_type = self.lagrangian_fields_type[field_name]
+                field_type = self.lagrangian_fields_type[
+                    lagrangian_grid_name, field_name
+                ]
 
                 if field_type == "Scalar":
                     field_grid_size_string = lagrangian_grid_size[0]
-- 
2.43.0


From cc6a32ce90962e0803261ff6def2d754fcec2ad8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:41 +0000
Subject: [PATCH 08/13] fix: adding lagrangian fields to a grid added before

A second call for the same grid dropped the fields added by the first one.
---
 sopht/utils/IO.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/sopht/utils/IO.py b/sopht/utils/IO.py
index 772eaa2..ed73e35 100644
--- a/sopht/utils/IO.py
+++ b/sopht/utils/IO.py
@@ -157,14 +157,15 @@ class IO:
         self.lagrangian_grids[lagrangian_grid_name] = lagrangian_grid
         # Create a list of to store names of fields that lie on
         # grid with grid name `lagrangian_grid_name`
-        self.lagrangian_fields_with_grid_name[lagrangian_grid_name] = []
+        grid_field_names = self.lagrangian_fields_with_grid_name.setdefault(
+            lagrangian_grid_name, []
+        )
         for field_name in fields_for_io:
             # Add each field into local dictionary
             field = fields_for_io[field_name]
             self.lagrangian_fields[lagrangian_grid_name, field_name] = field
-            self.lagrangian_fields_with_grid_name[lagrangian_grid_name].append(
-                field_name
-            )
+            if field_name not in grid_field_names:
+                grid_field_names.append(field_name)
 
             # Assign field types
             if field.shape == (lagrangian_grid.shape[1],):
-- 
2.43.0


From ce6bbfa4f4035032869e63233926a45eaf4a0f0a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:41 +0000
Subject: [PATCH 09/13] fix: default lagrangian grid names colliding with given
 names

---
 sopht/utils/IO.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/sopht/utils/IO.py b/sopht/utils/IO.py
index ed73e35..15845a1 100644
--- a/sopht/utils/IO.py
+++ b/sopht/utils/IO.py
@@ -145,6 +145,10 @@ class IO:
         ), "Invalid lagrangian grid dimension (only 2D and 3D)"
 
         if lagrangian_grid_name is None:
+            while (
+                f"Lagrangian_grid_{self.lagrangian_grid_count}" in self.lagrangian_grids
+            ):
+                self.lagrangian_grid_count += 1
             lagrangian_grid_name = f"Lagrangian_grid_{self.lagrangian_grid_count}"
             self.lagrangian_grid_count += 1
 
-- 
2.43.0


From 3366eff0f96cd8ef7d09562866c2698722ae654a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:41 +0000
Subject: [PATCH 10/13] fix: load and describe lagrangian grids without fields

---
 sopht/utils/IO.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/sopht/utils/IO.py b/sopht/utils/IO.py
index 15845a1..a580a21 100644
--- a/sopht/utils/IO.py
+++ b/sopht/utils/IO.py
@@ -311,7 +311,7 @@ class IO:
         # Generate xdmf files for every grid
         if self.eulerian_fields:
             self.generate_xdmf_eulerian(h5_file_name=h5_file_name, time=time)
-        if self.lagrangian_fields:
+        if self.lagrangian_grids:
             self.generate_xdmf_lagrangian(h5_file_name=h5_file_name, time=time)
 
     def load(self, h5_file_name):  # noqa: C901
@@ -378,7 +378,7 @@ class IO:
                 )
 
             # Load Lagrangian fields
-            if self.lagrangian_fields:
+            if self.lagrangian_grids:
                 # First loop over and load each of the lagrangian grids
                 for lagrangian_grid_name in self.lagrangian_grids:
                     assert (
-- 
2.43.0


From e3aeab39fa4200d569b8982384b16b2d95e78c50 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:41 +0000
Subject: [PATCH 11/13] fix: reject lagrangian grids of another size on load

A saved grid with a single node was broadcast onto larger grids.
---
 sopht/utils/IO.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/sopht/utils/IO.py b/sopht/utils/IO.py
index a580a21..d686ec9 100644
--- a/sopht/utils/IO.py
+++ b/sopht/utils/IO.py
@@ -384,9 +384,14 @@ class IO:
                     assert (
                         f"Lagrangian/{lagrangian_grid_name}/Grid" in keys
                     ), f"Unable to find grid '{lagrangian_grid_name}' in loaded file!"
-                    self.lagrangian_grids[lagrangian_grid_name][...] = np.transpose(
+                    loaded_grid = np.transpose(
                         f["Lagrangian"][lagrangian_grid_name]["Grid"][...]
                     )
+                    assert (
+                        loaded_grid.shape
+                        == self.lagrangian_grids[lagrangian_grid_name].shape
+                    ), f"Size of grid '{lagrangian_grid_name}' differs in loaded file!"
+                    self.lagrangian_grids[lagrangian_grid_name][...] = loaded_grid
 
                     if f"Lagrangian/{lagrangian_grid_name}/Connection" in keys:
                         self.lagrangian_grid_connection[lagrangian_grid_name] = f[
-- 
2.43.0


From 1ce6240f044f434baa34972866660eed6da0acb0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:49 +0000
Subject: [PATCH 12/13] fix: compare the eulerian grid on load also without
 eulerian fields

---
 sopht/utils/IO.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/sopht/utils/IO.py b/sopht/utils/IO.py
index d686ec9..2ef3f0d 100644
--- a/sopht/utils/IO.py
+++ b/sopht/utils/IO.py
@@ -364,7 +364,11 @@ class IO:
                             "Unsupported lagrangian_field_type ('Scalar' and 'Vector' only)"
                         )
 
-                # Load 'Parameters' and assert equals for restart consistency
+            # Load 'Parameters' and assert equals for restart consistency
+            if self.eulerian_grid_defined:
+                assert (
+                    "Eulerian/Parameters" in keys
+                ), "Unable to find eulerian grid in loaded file!"
                 np.testing.assert_allclose(
                     self.eulerian_origin,
                     f["Eulerian"]["Parameters"].attrs["origin"],
-- 
2.43.0


From 96346c4b247d22bfbb59cc62dabc8a2b470d9379 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:00 +0000
Subject: [PATCH 13/13] fix: planar ENO3 advection flux generator rejects
 unsupported precisions

It built its own kernel configuration and silently generated a double
precision kernel for any real_t other than float32, where every other
generator raises ValueError.
---
 .../eulerian_grid_ops/stencil_ops_2d/advection_flux_2d.py | 8 ++------
 1 file changed, 2 insertions(+), 6 deletions(-)

diff --git a/sopht/numeric/eulerian_grid_ops/stencil_ops_2d/advection_flux_2d.py b/sopht/numeric/eulerian_grid_ops/stencil_ops_2d/advection_flux_2d.py
index 966922e..bf970cf 100644
--- a/sopht/numeric/eulerian_grid_ops/stencil_ops_2d/advection_flux_2d.py
+++ b/sopht/numeric/eulerian_grid_ops/stencil_ops_2d/advection_flux_2d.py
@@ -1,6 +1,4 @@
 """Kernels for computing advection flux in 2D."""
-import numpy as np
-
 import pystencils as ps
 
 import sympy as sp
@@ -13,10 +11,8 @@ def gen_advection_flux_conservative_eno3_pyst_kernel_2d(
 ):
     # TODO expand docs
     """2D conservative ENO3 advection flux kernel generator."""
-    pyst_dtype = "float32" if real_t == np.float32 else "float64"
-    kernel_config = ps.CreateKernelConfig(
-        data_type=pyst_dtype, default_number_float=pyst_dtype, cpu_openmp=num_threads
-    )
+    pyst_dtype = get_pyst_dtype(real_t)
+    kernel_config = get_pyst_kernel_config(real_t, num_threads)
     # we can add dtype checks later
     grid_info = (
         f"{fixed_grid_size[0]}, {fixed_grid_size[1]}" if fixed_grid_size else "2D"
-- 
2.43.0

