From 43e8dabc95d1e77f5b7ac3d263c4892210b1fbce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:18 +0000
Subject: [PATCH 01/25] fix: load_poscar closes the file it has opened

---
 src/wulfric/io/_vasp.py | 17 ++++++++++-------
 1 file changed, 10 insertions(+), 7 deletions(-)

diff --git a/src/wulfric/io/_vasp.py b/src/wulfric/io/_vasp.py
index 281d652..cc74321 100644
--- a/src/wulfric/io/_vasp.py
+++ b/src/wulfric/io/_vasp.py
@@ -30,6 +30,11 @@ from wulfric.geometry._geometry import get_volume
 __all__ = ["load_poscar", "dump_poscar"]
 
 
+def _read_lines(filename, encoding="utf-8"):
+    with open(filename, "r", encoding=encoding) as file:
+        return file.readlines()
+
+
 def load_poscar(file_object=None):
     r"""
     Reads crystal structure from the |POSCAR|_ file.
@@ -73,25 +78,23 @@ def load_poscar(file_object=None):
     # Open file if needed
     if file_object is None:
         try:
-            file_object = open("POSCAR")
+            lines = _read_lines("POSCAR", encoding=None)
         except FileNotFoundError:
             raise FileNotFoundError(
                 f'"POSCAR" file not found, looked here: {os.getcwd()}'
             )
     elif isinstance(file_object, str):
         try:
-            file_object = open(file_object, "r", encoding="utf-8")
+            lines = _read_lines(file_object)
         except FileNotFoundError:
             try:
-                file_object = open(
-                    os.path.join(file_object, "POSCAR"), "r", encoding="utf-8"
-                )
+                lines = _read_lines(os.path.join(file_object, "POSCAR"))
             except FileNotFoundError:
                 raise FileNotFoundError(
                     f'"POSCAR" file not found, looked here: {file_object}'
                 )
-
-    lines = file_object.readlines()
+    else:
+        lines = file_object.readlines()
 
     comment = lines[0].strip()
 
-- 
2.43.0


From 69baf5c9f2c67a61bbfc027af47868e2808211a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:18 +0000
Subject: [PATCH 02/25] fix: default POSCAR file is decoded as utf-8 in every
 locale

---
 src/wulfric/io/_vasp.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/wulfric/io/_vasp.py b/src/wulfric/io/_vasp.py
index cc74321..7754973 100644
--- a/src/wulfric/io/_vasp.py
+++ b/src/wulfric/io/_vasp.py
@@ -30,8 +30,8 @@ from wulfric.geometry._geometry import get_volume
 __all__ = ["load_poscar", "dump_poscar"]
 
 
-def _read_lines(filename, encoding="utf-8"):
-    with open(filename, "r", encoding=encoding) as file:
+def _read_lines(filename):
+    with open(filename, "r", encoding="utf-8") as file:
         return file.readlines()
 
 
@@ -78,7 +78,7 @@ def load_poscar(file_object=None):
     # Open file if needed
     if file_object is None:
         try:
-            lines = _read_lines("POSCAR", encoding=None)
+            lines = _read_lines("POSCAR")
         except FileNotFoundError:
             raise FileNotFoundError(
                 f'"POSCAR" file not found, looked here: {os.getcwd()}'
-- 
2.43.0


From aba1a1fa250869ed17d8cba0685eb494dc5b4768 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:18 +0000
Subject: [PATCH 03/25] fix: load_poscar finds the POSCAR file inside of a
 given directory

---
 src/wulfric/io/_vasp.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/wulfric/io/_vasp.py b/src/wulfric/io/_vasp.py
index 7754973..17482a4 100644
--- a/src/wulfric/io/_vasp.py
+++ b/src/wulfric/io/_vasp.py
@@ -86,7 +86,7 @@ def load_poscar(file_object=None):
     elif isinstance(file_object, str):
         try:
             lines = _read_lines(file_object)
-        except FileNotFoundError:
+        except (FileNotFoundError, IsADirectoryError):
             try:
                 lines = _read_lines(os.path.join(file_object, "POSCAR"))
             except FileNotFoundError:
-- 
2.43.0


From a5c9514001c81087fc52a5ff2963070f494d72e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:38 +0000
Subject: [PATCH 04/25] fix: dump_poscar leaves the file untouched if the data
 can not be written, reports errors of closing it

---
 src/wulfric/io/_vasp.py | 39 +++++++++++++++++++++++----------------
 1 file changed, 23 insertions(+), 16 deletions(-)

diff --git a/src/wulfric/io/_vasp.py b/src/wulfric/io/_vasp.py
index 17482a4..8d300fb 100644
--- a/src/wulfric/io/_vasp.py
+++ b/src/wulfric/io/_vasp.py
@@ -260,32 +260,39 @@ def dump_poscar(
             atom_species[atom[0]] += 1
         atom_coordinates.append(atom[1])
 
-    # Open file if needed
-    if isinstance(file_object, str):
-        file_object = open(file_object, "w", encoding="utf-8")
-
-    # Write
-    file_object.write(comment + "\n")
-    file_object.write("1.0\n")
+    # Prepare the whole text before the file is touched
+    text = []
+    text.append(comment + "\n")
+    text.append("1.0\n")
     for vector_index in range(3):
         for component_index in range(3):
-            file_object.write(
+            text.append(
                 f"{cell[vector_index][component_index]:{decimals + 5}.{decimals}f} "
             )
-        file_object.write("\n")
+        text.append("\n")
 
     for species in atom_species:
-        file_object.write(f"{species} ")
-    file_object.write("\n")
+        text.append(f"{species} ")
+    text.append("\n")
     for species in atom_species:
-        file_object.write(f"{atom_species[species]} ")
-    file_object.write("\n")
+        text.append(f"{atom_species[species]} ")
+    text.append("\n")
 
-    file_object.write(mode + "\n")
+    text.append(mode + "\n")
 
     for coordinate in atom_coordinates:
         for component_index in range(3):
-            file_object.write(
+            text.append(
                 f"{coordinate[component_index]:{decimals + 5}.{decimals}f} "
             )
-        file_object.write("\n")
+        text.append("\n")
+    text = "".join(text)
+
+    # Write
+    if isinstance(file_object, str):
+        # Text that can not be encoded shall not erase an existing file
+        text.encode("utf-8")
+        with open(file_object, "w", encoding="utf-8") as file:
+            file.write(text)
+    else:
+        file_object.write(text)
-- 
2.43.0


From 6955eac42d88b3aa68e1e2658e4deac2c428669c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:38 +0000
Subject: [PATCH 05/25] fix: carriage return in the comment does not break the
 first line of POSCAR

---
 src/wulfric/io/_vasp.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/wulfric/io/_vasp.py b/src/wulfric/io/_vasp.py
index 8d300fb..66a9fc0 100644
--- a/src/wulfric/io/_vasp.py
+++ b/src/wulfric/io/_vasp.py
@@ -223,7 +223,7 @@ def dump_poscar(
             f"at {cd.hour}:{cd.minute}:{cd.second}"
         )
     else:
-        comment = comment.replace("\n", " ")
+        comment = comment.replace("\n", " ").replace("\r", " ")
 
     # Check mode
     if mode not in ("Direct", "Cartesian"):
-- 
2.43.0


From 199f121910bd352f03cdcc3f3cab5c8e82dca075 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:38 +0000
Subject: [PATCH 06/25] fix: ValueError instead of KeyError for an undeducible
 atom's type in dump_poscar

---
 src/wulfric/io/_vasp.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/wulfric/io/_vasp.py b/src/wulfric/io/_vasp.py
index 66a9fc0..8996a11 100644
--- a/src/wulfric/io/_vasp.py
+++ b/src/wulfric/io/_vasp.py
@@ -238,7 +238,7 @@ def dump_poscar(
             atom_type = get_atom_species(atoms["names"][i])
             if atom_type == "X":
                 raise ValueError(
-                    f"Can not deduce atom's type from the name '{atoms['name'][i]}', while dumping to POSCAR."
+                    f"Can not deduce atom's type from the name '{atoms['names'][i]}', while dumping to POSCAR."
                 )
         if mode == "Direct":
             atom_position = atoms["positions"][i]
-- 
2.43.0


From 27816321d9d5ee5b2e35556e9a3d3d0d40e1ee01 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:38 +0000
Subject: [PATCH 07/25] fix: three scale factors of POSCAR scale x, y, z
 components of the lattice vectors

---
 src/wulfric/io/_vasp.py | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/src/wulfric/io/_vasp.py b/src/wulfric/io/_vasp.py
index 8996a11..ea6de49 100644
--- a/src/wulfric/io/_vasp.py
+++ b/src/wulfric/io/_vasp.py
@@ -106,9 +106,7 @@ def load_poscar(file_object=None):
             scale_factor = abs(scale_factor[0] / get_volume(cell))
         cell *= scale_factor
     elif len(scale_factor) == 3 and np.all(scale_factor > 0):
-        cell[0] *= scale_factor[0]
-        cell[1] *= scale_factor[1]
-        cell[2] *= scale_factor[2]
+        cell *= scale_factor
     else:
         raise ValueError(
             "Scale factor has to be a single positive ot negative number or "
-- 
2.43.0


From ba39d031a28d6b7382e80d6cbd187007093c967f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:38 +0000
Subject: [PATCH 08/25] fix: negative scale factor of POSCAR is the volume of
 the cell

---
 src/wulfric/io/_vasp.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/wulfric/io/_vasp.py b/src/wulfric/io/_vasp.py
index ea6de49..b9f6862 100644
--- a/src/wulfric/io/_vasp.py
+++ b/src/wulfric/io/_vasp.py
@@ -103,7 +103,7 @@ def load_poscar(file_object=None):
     cell = np.array(list(map(lambda x: list(map(float, x.split())), lines[2:5])))
     if len(scale_factor) == 1:
         if scale_factor[0] < 0:
-            scale_factor = abs(scale_factor[0] / get_volume(cell))
+            scale_factor = abs(scale_factor[0] / get_volume(cell)) ** (1 / 3)
         cell *= scale_factor
     elif len(scale_factor) == 3 and np.all(scale_factor > 0):
         cell *= scale_factor
-- 
2.43.0


From bc345ac0566e1daeaf64b001d341bb6786628e0e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:38 +0000
Subject: [PATCH 09/25] fix: load_poscar raises an error for the lattice vector
 or position with less than three components

---
 src/wulfric/io/_vasp.py | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/src/wulfric/io/_vasp.py b/src/wulfric/io/_vasp.py
index b9f6862..f601dd3 100644
--- a/src/wulfric/io/_vasp.py
+++ b/src/wulfric/io/_vasp.py
@@ -35,6 +35,13 @@ def _read_lines(filename):
         return file.readlines()
 
 
+def _read_vector(line):
+    vector = list(map(float, line.split()[:3]))
+    if len(vector) != 3:
+        raise ValueError(f"Three numbers are expected in the line, got: {line!r}")
+    return vector
+
+
 def load_poscar(file_object=None):
     r"""
     Reads crystal structure from the |POSCAR|_ file.
@@ -100,7 +107,7 @@ def load_poscar(file_object=None):
 
     # 1 or 3 numbers
     scale_factor = np.array(list(map(float, lines[1].split())))
-    cell = np.array(list(map(lambda x: list(map(float, x.split())), lines[2:5])))
+    cell = np.array([_read_vector(line) for line in lines[2:5]])
     if len(scale_factor) == 1:
         if scale_factor[0] < 0:
             scale_factor = abs(scale_factor[0] / get_volume(cell)) ** (1 / 3)
@@ -141,7 +148,7 @@ def load_poscar(file_object=None):
     atoms = {"names": [], "positions": []}
     for i in range(len(species)):
         for j in range(ions_per_species[i]):
-            coordinates = np.array(list(map(float, lines[index].split()[:3])))
+            coordinates = np.array(_read_vector(lines[index]))
             index += 1
             if CARTESIAN:
                 # Both cases (1 or 3 numbers) are covered
-- 
2.43.0


From 1a19514b4f5e040d51144d1212af9be36d3877ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:38 +0000
Subject: [PATCH 10/25] fix: load_poscar raises an error if species names do
 not match species counts

---
 src/wulfric/io/_vasp.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/wulfric/io/_vasp.py b/src/wulfric/io/_vasp.py
index f601dd3..d85b2cd 100644
--- a/src/wulfric/io/_vasp.py
+++ b/src/wulfric/io/_vasp.py
@@ -135,6 +135,11 @@ def load_poscar(file_object=None):
     else:
         species_names = None
     ions_per_species = list(map(int, species))
+    if GOT_SPECIES_NAMES and len(species_names) != len(ions_per_species):
+        raise ValueError(
+            f"Amount of species names ({len(species_names)}) is different from "
+            f"the amount of species counts ({len(ions_per_species)})"
+        )
 
     # Skip selective dynamics
     if lines[index][0] in ["S", "s"]:
-- 
2.43.0


From 7713f72bd5b8e7d51728a703cb2829a770f31a84 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:47 +0000
Subject: [PATCH 11/25] fix: Kpoints does not share the list of names with the
 caller

---
 src/wulfric/_kpoints_class.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/wulfric/_kpoints_class.py b/src/wulfric/_kpoints_class.py
index a0ae811..b45b028 100644
--- a/src/wulfric/_kpoints_class.py
+++ b/src/wulfric/_kpoints_class.py
@@ -114,7 +114,7 @@ class Kpoints:
             [(names[i], np.array(coordinates[i])) for i in range(len(coordinates))]
         )
         self.hs_labels = dict([(names[i], labels[i]) for i in range(len(coordinates))])
-        self.hs_names = names
+        self.hs_names = list(names)
 
         self._n = n
 
-- 
2.43.0


From ebbbbd9a78db007f1d14135c26d3d39f96962afd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:47 +0000
Subject: [PATCH 12/25] fix: Kpoints.add_hs_point with wrong coordinate does
 not leave a half-defined point

---
 src/wulfric/_kpoints_class.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/wulfric/_kpoints_class.py b/src/wulfric/_kpoints_class.py
index b45b028..0b2cce4 100644
--- a/src/wulfric/_kpoints_class.py
+++ b/src/wulfric/_kpoints_class.py
@@ -269,9 +269,9 @@ class Kpoints:
             # Transform from Cartesian coordinates to relative coordinates.
             coordinate = coordinate @ np.linalg.inv(self.rcell)
 
-        self.hs_names.append(name)
         self.hs_coordinates[name] = np.array(coordinate)
         self.hs_labels[name] = label
+        self.hs_names.append(name)
 
     def remove_hs_point(self, name) -> None:
         r"""
-- 
2.43.0


From 863ac4f4b7adac752dc80a1a05352e9acb97487f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:47 +0000
Subject: [PATCH 13/25] fix: get_conventional and get_primitive return copies,
 editing of them does not change spglib_data or given atoms

---
 src/wulfric/crystal/_conventional.py | 10 ++++++----
 src/wulfric/crystal/_primitive.py    | 10 ++++++----
 2 files changed, 12 insertions(+), 8 deletions(-)

diff --git a/src/wulfric/crystal/_conventional.py b/src/wulfric/crystal/_conventional.py
index 4dbc7b1..b6a4536 100644
--- a/src/wulfric/crystal/_conventional.py
+++ b/src/wulfric/crystal/_conventional.py
@@ -18,6 +18,8 @@
 # along with this program.  If not, see <https://www.gnu.org/licenses/>.
 #
 # ================================ END LICENSE =================================
+from copy import deepcopy
+
 
 import numpy as np
 
@@ -742,8 +744,8 @@ def get_conventional(cell, atoms, convention="HPKOT", spglib_data=None):
                 @ np.linalg.inv(conv_cell)
             )
         else:
-            conv_cell = spglib_data.conventional_cell
-            conv_positions = spglib_data.conventional_positions
+            conv_cell = np.array(spglib_data.conventional_cell)
+            conv_positions = np.array(spglib_data.conventional_positions)
 
         conv_types = spglib_data.conventional_types
 
@@ -808,10 +810,10 @@ def get_conventional(cell, atoms, convention="HPKOT", spglib_data=None):
         if key != "positions":
             conv_atoms[key] = []
             for type_index in conv_types:
-                conv_atoms[key].append(atoms[key][types_mapping[type_index]])
+                conv_atoms[key].append(deepcopy(atoms[key][types_mapping[type_index]]))
 
     # Add spglib_types to new atoms if necessary
     if "spglib_types" not in conv_atoms:
-        conv_atoms["spglib_types"] = conv_types
+        conv_atoms["spglib_types"] = list(conv_types)
 
     return conv_cell, conv_atoms
diff --git a/src/wulfric/crystal/_primitive.py b/src/wulfric/crystal/_primitive.py
index add4bfa..d1c145d 100644
--- a/src/wulfric/crystal/_primitive.py
+++ b/src/wulfric/crystal/_primitive.py
@@ -18,6 +18,8 @@
 # along with this program.  If not, see <https://www.gnu.org/licenses/>.
 #
 # ================================ END LICENSE =================================
+from copy import deepcopy
+
 
 import numpy as np
 from wulfric.crystal._crystal_validation import validate_atoms
@@ -247,8 +249,8 @@ def get_primitive(cell, atoms, convention="HPKOT", spglib_data=None):
 
     # Straightforward interface to spglib
     if convention == "spglib":
-        prim_cell = spglib_data.primitive_cell
-        prim_positions = spglib_data.primitive_positions
+        prim_cell = np.array(spglib_data.primitive_cell)
+        prim_positions = np.array(spglib_data.primitive_positions)
         prim_types = spglib_data.primitive_types
     # Some work needed for other conventions
     elif convention in ["hpkot", "sc"]:
@@ -298,10 +300,10 @@ def get_primitive(cell, atoms, convention="HPKOT", spglib_data=None):
         if key != "positions":
             prim_atoms[key] = []
             for type_index in prim_types:
-                prim_atoms[key].append(atoms[key][types_mapping[type_index]])
+                prim_atoms[key].append(deepcopy(atoms[key][types_mapping[type_index]]))
 
     # Add spglib_types to new atoms if necessary
     if "spglib_types" not in prim_atoms:
-        prim_atoms["spglib_types"] = prim_types
+        prim_atoms["spglib_types"] = list(prim_types)
 
     return prim_cell, prim_atoms
-- 
2.43.0


From 8f594da0d714c566958d3ecb5341c564472cf168 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:47 +0000
Subject: [PATCH 14/25] fix: spglib_types returned by get_conventional and
 get_primitive pass validate_atoms

---
 src/wulfric/crystal/_conventional.py | 2 +-
 src/wulfric/crystal/_primitive.py    | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/wulfric/crystal/_conventional.py b/src/wulfric/crystal/_conventional.py
index b6a4536..aba3d97 100644
--- a/src/wulfric/crystal/_conventional.py
+++ b/src/wulfric/crystal/_conventional.py
@@ -814,6 +814,6 @@ def get_conventional(cell, atoms, convention="HPKOT", spglib_data=None):
 
     # Add spglib_types to new atoms if necessary
     if "spglib_types" not in conv_atoms:
-        conv_atoms["spglib_types"] = list(conv_types)
+        conv_atoms["spglib_types"] = [int(type_index) for type_index in conv_types]
 
     return conv_cell, conv_atoms
diff --git a/src/wulfric/crystal/_primitive.py b/src/wulfric/crystal/_primitive.py
index d1c145d..8ae0c74 100644
--- a/src/wulfric/crystal/_primitive.py
+++ b/src/wulfric/crystal/_primitive.py
@@ -304,6 +304,6 @@ def get_primitive(cell, atoms, convention="HPKOT", spglib_data=None):
 
     # Add spglib_types to new atoms if necessary
     if "spglib_types" not in prim_atoms:
-        prim_atoms["spglib_types"] = list(prim_types)
+        prim_atoms["spglib_types"] = [int(type_index) for type_index in prim_types]
 
     return prim_cell, prim_atoms
-- 
2.43.0


From c4a1cb1ce614731ad04ecf221d84df14221779df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:11 +0000
Subject: [PATCH 15/25] fix: axis limits of figures contain all content and
 never have zero extent

Multiplying both limits by 1.05 cuts the content whenever a range does not
straddle the origin, and divides by zero when the content is flat along z.
---
 src/wulfric/_plotly_engine.py | 18 +++++++++++++++---
 1 file changed, 15 insertions(+), 3 deletions(-)

diff --git a/src/wulfric/_plotly_engine.py b/src/wulfric/_plotly_engine.py
index e7d6b7c..b6d26f0 100644
--- a/src/wulfric/_plotly_engine.py
+++ b/src/wulfric/_plotly_engine.py
@@ -125,9 +125,21 @@ class PlotlyEngine:
     # Fix for plotly #7143
     def _update_fig_aspect_range(self):
         for row, col in self.x_range:
-            xlim = 1.05 * self.x_range[(row, col)]
-            ylim = 1.05 * self.y_range[(row, col)]
-            zlim = 1.05 * self.z_range[(row, col)]
+            xlim = self.x_range[(row, col)]
+            ylim = self.y_range[(row, col)]
+            zlim = self.z_range[(row, col)]
+
+            # Same padding for all axes, never zero: a plot can be flat along any axis
+            padding = max(
+                0.025 * max(lim[1] - lim[0] for lim in (xlim, ylim, zlim)),
+                1e-6 * max(np.abs(lim).max() for lim in (xlim, ylim, zlim)),
+            )
+            if padding == 0:
+                padding = 1.0
+
+            xlim = xlim + np.array([-padding, padding])
+            ylim = ylim + np.array([-padding, padding])
+            zlim = zlim + np.array([-padding, padding])
 
             self.fig.update_scenes(
                 xaxis=dict(range=xlim),
-- 
2.43.0


From eaf2810f85e8b9d638fd0735458fdfd2425e241d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:11 +0000
Subject: [PATCH 16/25] fix: plot_kpath accounts for every subpath in the axis
 limits

Only the last subpath was used, so that the others could fall outside of the axes.
---
 src/wulfric/_plotly_engine.py | 22 +++++++++++-----------
 1 file changed, 11 insertions(+), 11 deletions(-)

diff --git a/src/wulfric/_plotly_engine.py b/src/wulfric/_plotly_engine.py
index b6d26f0..b98bc54 100644
--- a/src/wulfric/_plotly_engine.py
+++ b/src/wulfric/_plotly_engine.py
@@ -776,17 +776,17 @@ class PlotlyEngine:
             if legend_label is not None:
                 legend_label = None
 
-        # Fix for plotly #7143
-        self._update_range(
-            x_min=xyz[0].min(),
-            x_max=xyz[0].max(),
-            y_min=xyz[1].min(),
-            y_max=xyz[1].max(),
-            z_min=xyz[2].min(),
-            z_max=xyz[2].max(),
-            row=row,
-            col=col,
-        )
+            # Fix for plotly #7143
+            self._update_range(
+                x_min=xyz[0].min(),
+                x_max=xyz[0].max(),
+                y_min=xyz[1].min(),
+                y_max=xyz[1].max(),
+                z_min=xyz[2].min(),
+                z_max=xyz[2].max(),
+                row=row,
+                col=col,
+            )
 
     def plot_kpoints(
         self,
-- 
2.43.0


From 016bd2670632f2022a06e5a4ef29da257c9586cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:46 +0000
Subject: [PATCH 17/25] fix: get_niggli raises documented errors when spglib
 fails or volume is zero

It returned None (or a cell of zeros) as if it was a reduced cell.
---
 src/wulfric/_exceptions.py  | 10 +++++++---
 src/wulfric/cell/_niggli.py | 12 ++++++++++--
 2 files changed, 17 insertions(+), 5 deletions(-)

diff --git a/src/wulfric/_exceptions.py b/src/wulfric/_exceptions.py
index 20de1eb..e26cf77 100644
--- a/src/wulfric/_exceptions.py
+++ b/src/wulfric/_exceptions.py
@@ -76,11 +76,15 @@ class FailedToDeduceAtomSpecies(Exception):
 
 class NiggliReductionFailed(Exception):
     r"""
-    Raised when niggli reduction reaches ``max_iterations``.
+    Raised when niggli reduction reaches ``max_iterations`` or when spglib fails to find
+    the reduced cell (``max_iterations is None``).
     """
 
-    def __init__(self, max_iterations: int):
-        self.message = f"Niggli reduction algorithm reached maximum amount of iterations: {max_iterations}"
+    def __init__(self, max_iterations: int = None):
+        if max_iterations is None:
+            self.message = "Niggli reduction failed in spglib."
+        else:
+            self.message = f"Niggli reduction algorithm reached maximum amount of iterations: {max_iterations}"
 
     def __str__(self):
         return self.message
diff --git a/src/wulfric/cell/_niggli.py b/src/wulfric/cell/_niggli.py
index ab5356a..7e006b1 100644
--- a/src/wulfric/cell/_niggli.py
+++ b/src/wulfric/cell/_niggli.py
@@ -300,7 +300,8 @@ def get_niggli(cell, eps_relative=1e-5, implementation="spglib", max_iterations=
     Raises
     ------
     wulfric.exceptions.NiggliReductionFailed
-        If the niggli cell is not found in ``max_iterations`` iterations.
+        If the niggli cell is not found in ``max_iterations`` iterations or if spglib
+        fails to find it.
     ValueError
         If the volume of ``cell`` is zero.
 
@@ -357,7 +358,14 @@ def get_niggli(cell, eps_relative=1e-5, implementation="spglib", max_iterations=
             raise ImportError(
                 "spglib is not installed. Please install it with `pip install spglib`"
             )
-        return spglib.niggli_reduce(lattice=cell, eps=eps_relative)
+        if get_volume(cell) == 0:
+            raise ValueError("Cell volume is zero")
+
+        niggli_cell = spglib.niggli_reduce(lattice=cell, eps=eps_relative)
+        if niggli_cell is None:
+            raise NiggliReductionFailed()
+
+        return niggli_cell
     elif implementation != "wulfric":
         raise ValueError(
             f"Implementation {implementation} is not supported. "
-- 
2.43.0


From 24126ae13249456cf4a8addebae57dc5a467f631 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:46 +0000
Subject: [PATCH 18/25] fix: cure_negative works for a single atom given by a
 list

min_values stayed a list and could not be compared with zero.
---
 src/wulfric/crystal/_basic_manipulation.py | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/src/wulfric/crystal/_basic_manipulation.py b/src/wulfric/crystal/_basic_manipulation.py
index fec00e4..65ff5f7 100644
--- a/src/wulfric/crystal/_basic_manipulation.py
+++ b/src/wulfric/crystal/_basic_manipulation.py
@@ -128,9 +128,7 @@ def cure_negative(atoms) -> None:
         Cr2 [0.6 0.5 0. ]
     """
 
-    min_values = atoms["positions"][0]
-    for position in atoms["positions"][1:]:
-        min_values = np.minimum(min_values, position)
+    min_values = np.min(atoms["positions"], axis=0)
 
     shift = np.where(min_values < 0, -min_values, 0)
 
-- 
2.43.0


From 2bcb64be1bc09d7a0fda51d72d1bf8b87d72fd2f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:54:28 +0000
Subject: [PATCH 19/25] fix: keep the arrow inside of the axis limits when its
 label is refused

---
 src/wulfric/_plotly_engine.py | 24 ++++++++++++------------
 1 file changed, 12 insertions(+), 12 deletions(-)

diff --git a/src/wulfric/_plotly_engine.py b/src/wulfric/_plotly_engine.py
index b98bc54..4d1da06 100644
--- a/src/wulfric/_plotly_engine.py
+++ b/src/wulfric/_plotly_engine.py
@@ -446,6 +446,18 @@ class PlotlyEngine:
             rows=row,
             cols=col,
         )
+        # Fix for plotly #7143
+        self._update_range(
+            x_min=x.min(),
+            x_max=x.max(),
+            y_min=y.min(),
+            y_max=y.max(),
+            z_min=z.min(),
+            z_max=z.max(),
+            row=row,
+            col=col,
+        )
+
         if vector_label is not None:
             self.fig.add_traces(
                 data=dict(
@@ -478,18 +490,6 @@ class PlotlyEngine:
                 col=col,
             )
 
-        # Fix for plotly #7143
-        self._update_range(
-            x_min=x.min(),
-            x_max=x.max(),
-            y_min=y.min(),
-            y_max=y.max(),
-            z_min=z.min(),
-            z_max=z.max(),
-            row=row,
-            col=col,
-        )
-
     def plot_cell(
         self,
         cell,
-- 
2.43.0


From 2e9873e9b19bc675b90a94aae27797b6616f79d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:59:15 +0000
Subject: [PATCH 20/25] fix: HPKOT conventional to primitive matrix of hR spans
 the primitive cell

---
 .../api/constants/hpkot_conventional_to_primitive.rst       | 6 +++---
 src/wulfric/constants/_hpkot_convention.py                  | 6 +++---
 2 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/docs/source/api/constants/hpkot_conventional_to_primitive.rst b/docs/source/api/constants/hpkot_conventional_to_primitive.rst
index 87922f2..64de842 100644
--- a/docs/source/api/constants/hpkot_conventional_to_primitive.rst
+++ b/docs/source/api/constants/hpkot_conventional_to_primitive.rst
@@ -90,9 +90,9 @@ Data are from the Table 3 of [1]_.
         ),
         "hR" : np.array(
             [
-                [1.0, -0.5, -0.5],
-                [0.5, 0.5, -1.0],
-                [0.5, 0.5, 0.5],
+                [2 / 3, -1 / 3, -1 / 3],
+                [1 / 3, 1 / 3, -2 / 3],
+                [1 / 3, 1 / 3, 1 / 3],
             ]
         ),
         "mP" : np.array(
diff --git a/src/wulfric/constants/_hpkot_convention.py b/src/wulfric/constants/_hpkot_convention.py
index a4a31c9..5c04450 100644
--- a/src/wulfric/constants/_hpkot_convention.py
+++ b/src/wulfric/constants/_hpkot_convention.py
@@ -111,9 +111,9 @@ HPKOT_CONVENTIONAL_TO_PRIMITIVE = {
     ),
     "hR": np.array(
         [
-            [1.0, -0.5, -0.5],
-            [0.5, 0.5, -1.0],
-            [0.5, 0.5, 0.5],
+            [2 / 3, -1 / 3, -1 / 3],
+            [1 / 3, 1 / 3, -2 / 3],
+            [1 / 3, 1 / 3, 1 / 3],
         ]
     ),
     "mP": np.array(
-- 
2.43.0


From 9a8974d9aaebbe96dcea12e74288e3b2a1994a07 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:47:52 +0000
Subject: [PATCH 21/25] fix: conventional cell of SC convention is a copy,
 editing of it does not change spglib_data

---
 src/wulfric/crystal/_conventional.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/wulfric/crystal/_conventional.py b/src/wulfric/crystal/_conventional.py
index aba3d97..085b26d 100644
--- a/src/wulfric/crystal/_conventional.py
+++ b/src/wulfric/crystal/_conventional.py
@@ -575,7 +575,7 @@ def _sc_get_conventional_no_hR(
     """
     # Run over possible crystal families but hR
     if crystal_family in ["c", "t"] or (crystal_family == "h" and centring_type == "P"):
-        conv_cell = spglib_std_lattice
+        conv_cell = np.array(spglib_std_lattice)
     elif crystal_family == "o":
         if centring_type in ["P", "F", "I"]:
             conv_cell = _sc_get_conventional_oPFI(spglib_std_lattice=spglib_std_lattice)
-- 
2.43.0


From 6830979d50c5ddfc371450f174ccf8bdc4f9a612 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:05:16 +0000
Subject: [PATCH 22/25] fix: errors of wulfric can be copied and pickled

---
 src/wulfric/_exceptions.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/wulfric/_exceptions.py b/src/wulfric/_exceptions.py
index e26cf77..d78812f 100644
--- a/src/wulfric/_exceptions.py
+++ b/src/wulfric/_exceptions.py
@@ -53,6 +53,7 @@ class ConventionNotSupported(Exception):
     """
 
     def __init__(self, convention: str, supported_conventions: list):
+        super().__init__(convention, supported_conventions)
         self.message = (
             f'Convention "{convention}" is not supported. Supported conventions are\n  * '
             + "\n  * ".join(supported_conventions)
@@ -68,6 +69,7 @@ class FailedToDeduceAtomSpecies(Exception):
     """
 
     def __init__(self, name: str):
+        super().__init__(name)
         self.message = f"Tried to deduce name from '{name}'. Failed."
 
     def __str__(self):
@@ -81,6 +83,7 @@ class NiggliReductionFailed(Exception):
     """
 
     def __init__(self, max_iterations: int = None):
+        super().__init__(max_iterations)
         if max_iterations is None:
             self.message = "Niggli reduction failed in spglib."
         else:
@@ -92,6 +95,7 @@ class NiggliReductionFailed(Exception):
 
 class PotentialBugError(Exception):
     def __init__(self, error_summary):
+        super().__init__(error_summary)
         self.message = (
             error_summary
             + "\nIf you see this error, than there might be a bug in wulfric."
-- 
2.43.0


From 829d6dd30c4b57fa43a71dda4b54dbe357fee543 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:00:34 +0000
Subject: [PATCH 23/25] fix: conventional cell of SC convention for
 orthorhombic crystals with equal lattice parameters

---
 src/wulfric/crystal/_conventional.py | 18 +++++++++---------
 1 file changed, 9 insertions(+), 9 deletions(-)

diff --git a/src/wulfric/crystal/_conventional.py b/src/wulfric/crystal/_conventional.py
index 085b26d..1f39284 100644
--- a/src/wulfric/crystal/_conventional.py
+++ b/src/wulfric/crystal/_conventional.py
@@ -138,7 +138,7 @@ def _sc_get_conventional_oPFI(spglib_std_lattice):
 
     Choose the cell with the lattice parameters that satisfy
 
-    * ``a < b < c``
+    * ``a <= b <= c``
     * ``alpha = beta = gamma = 90``
 
     Parameters
@@ -154,9 +154,9 @@ def _sc_get_conventional_oPFI(spglib_std_lattice):
 
     a, b, c, _, _, _ = get_params(cell=spglib_std_lattice)
 
-    if a < b < c:  # No change
+    if a <= b <= c:  # No change
         matrix = np.eye(3, dtype=float)
-    elif a < c < b:  # -> -a1, -a3, -a2
+    elif a <= c <= b:  # -> -a1, -a3, -a2
         matrix = np.array(
             [
                 [-1, 0, 0],
@@ -165,7 +165,7 @@ def _sc_get_conventional_oPFI(spglib_std_lattice):
             ],
             dtype=float,
         )
-    elif b < a < c:  # -> -a2, -a1, -a3
+    elif b <= a <= c:  # -> -a2, -a1, -a3
         matrix = np.array(
             [
                 [0, -1, 0],
@@ -174,7 +174,7 @@ def _sc_get_conventional_oPFI(spglib_std_lattice):
             ],
             dtype=float,
         )
-    elif b < c < a:  # -> a2, a3, a1
+    elif b <= c <= a:  # -> a2, a3, a1
         matrix = np.array(
             [
                 [0, 0, 1],
@@ -183,7 +183,7 @@ def _sc_get_conventional_oPFI(spglib_std_lattice):
             ],
             dtype=float,
         )
-    elif c < a < b:  # -> a3, a1, a2
+    elif c <= a <= b:  # -> a3, a1, a2
         matrix = np.array(
             [
                 [0, 1, 0],
@@ -192,7 +192,7 @@ def _sc_get_conventional_oPFI(spglib_std_lattice):
             ],
             dtype=float,
         )
-    elif c < b < a:  # -> -a3, -a2, -a1
+    elif c <= b <= a:  # -> -a3, -a2, -a1
         matrix = np.array(
             [
                 [0, 0, -1],
@@ -215,7 +215,7 @@ def _sc_get_conventional_oC(spglib_std_lattice):
 
     Choose the cell with the lattice parameters that satisfy
 
-    * ``a < b``
+    * ``a <= b``
     * ``alpha = beta = gamma = 90``
 
     Parameters
@@ -231,7 +231,7 @@ def _sc_get_conventional_oC(spglib_std_lattice):
 
     a, b, _, _, _, _ = get_params(cell=spglib_std_lattice)
 
-    if a < b:  # No change
+    if a <= b:  # No change
         matrix = np.eye(3, dtype=float)
     # Have to keep a3 in place
     elif b < a:  # -> a2, -a1, a3
-- 
2.43.0


From a8a1d035f9dbfcfc4ed4d105e99115060c8361c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:11:21 +0000
Subject: [PATCH 24/25] fix: decide signs one by one in steps 3 and 4 of Niggli
 reduction

---
 src/wulfric/cell/_niggli.py | 29 +++++++++++++++++++++--------
 1 file changed, 21 insertions(+), 8 deletions(-)

diff --git a/src/wulfric/cell/_niggli.py b/src/wulfric/cell/_niggli.py
index 7e006b1..80614eb 100644
--- a/src/wulfric/cell/_niggli.py
+++ b/src/wulfric/cell/_niggli.py
@@ -72,8 +72,21 @@ def _niggli_step_2(A, B, C, xi, eta, zeta, trans_matrix, eps):
     return condition, (A, B, C, xi, eta, zeta), trans_matrix
 
 
+def _niggli_product_is_positive(xi, eta, zeta, eps):
+    # Signs are decided one by one: a product of a numerical zero and two large numbers
+    # does not have to be small.
+    n_positive = 0
+    for value in (xi, eta, zeta):
+        if compare_with_tolerance(value, "==", 0, eps=eps):
+            return False
+        if compare_with_tolerance(value, ">", 0, eps=eps):
+            n_positive += 1
+
+    return n_positive in (1, 3)
+
+
 def _niggli_step_3(A, B, C, xi, eta, zeta, trans_matrix, eps):
-    condition = compare_with_tolerance(xi * eta * zeta, ">", 0, eps=eps)
+    condition = _niggli_product_is_positive(xi, eta, zeta, eps=eps)
     if condition:
         if compare_with_tolerance(xi, ">", 0, eps=eps):
             i = 1
@@ -105,28 +118,28 @@ def _niggli_step_3(A, B, C, xi, eta, zeta, trans_matrix, eps):
 
 
 def _niggli_step_4(A, B, C, xi, eta, zeta, trans_matrix, eps):
-    condition = compare_with_tolerance(xi * eta * zeta, "<=", 0, eps=eps)
+    condition = not _niggli_product_is_positive(xi, eta, zeta, eps=eps)
     if condition:
         # Step 1
         i, j, k = 1, 1, 1
         p = None
 
         # Step 2
-        if compare_with_tolerance(xi, ">", 0):
+        if compare_with_tolerance(xi, ">", 0, eps=eps):
             i = -1
-        elif not compare_with_tolerance(xi, "<", 0):
+        elif not compare_with_tolerance(xi, "<", 0, eps=eps):
             p = "i"
 
         # Step 3
-        if compare_with_tolerance(eta, ">", 0):
+        if compare_with_tolerance(eta, ">", 0, eps=eps):
             j = -1
-        elif not compare_with_tolerance(eta, "<", 0):
+        elif not compare_with_tolerance(eta, "<", 0, eps=eps):
             p = "j"
 
         # Step 4
-        if compare_with_tolerance(zeta, ">", 0):
+        if compare_with_tolerance(zeta, ">", 0, eps=eps):
             k = -1
-        elif not compare_with_tolerance(zeta, "<", 0):
+        elif not compare_with_tolerance(zeta, "<", 0, eps=eps):
             p = "k"
 
         # Step 5
-- 
2.43.0


From c251ee198a2ea2577cbcb1d4176da68757cf29ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:21:19 +0000
Subject: [PATCH 25/25] fix: compare distances between atoms, not relative
 coordinates, with symprec in get_primitive

---
 src/wulfric/crystal/_primitive.py | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/src/wulfric/crystal/_primitive.py b/src/wulfric/crystal/_primitive.py
index 8ae0c74..1e9954c 100644
--- a/src/wulfric/crystal/_primitive.py
+++ b/src/wulfric/crystal/_primitive.py
@@ -69,6 +69,13 @@ def _get_unique(
 
     non_unique_types = np.array(non_unique_types, dtype=int)
 
+    # Compute pair-wise distances between atoms (in Cartesian coordinates and between
+    # the closest periodic images, as distance_tolerance has the units of length)
+    distances = (
+        non_unique_positions[:, np.newaxis, :] - non_unique_positions[np.newaxis, :, :]
+    )
+    distances = np.linalg.norm((distances - np.round(distances)) @ prim_cell, axis=2)
+
     # Deal with finite precision
     # Temporary solution
     non_unique_positions = np.round(non_unique_positions, decimals=8)
@@ -79,12 +86,6 @@ def _get_unique(
     # Done twice it fixes some problems of finite precision arithmetics
     non_unique_positions = non_unique_positions % 1
 
-    # Compute pair-wise distances between atoms
-    distances = np.linalg.norm(
-        non_unique_positions[:, np.newaxis, :] - non_unique_positions[np.newaxis, :, :],
-        axis=2,
-    )
-
     # Check if two atoms are the same for each pair
     same_atoms = np.isclose(
         distances, np.zeros(distances.shape), atol=distance_tolerance
-- 
2.43.0

