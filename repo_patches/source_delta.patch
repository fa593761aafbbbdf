From c303f5c9ba3b3c139a4ca4eb887e4459d76901d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:57:41 +0000
Subject: [PATCH 01/15] fix: use the square root of the product of the moments
 of inertia

The rotational partition function is proportional to sqrt(I1*I2*I3), as
documented, but the plain product was used, which gave wrong populations
for any isomers with different moments.
---
 occuprob/partitionfunctions.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/occuprob/partitionfunctions.py b/occuprob/partitionfunctions.py
index 3ca8d9b..96304c5 100644
--- a/occuprob/partitionfunctions.py
+++ b/occuprob/partitionfunctions.py
@@ -241,7 +241,7 @@ class RotationalPF(PartitionFunction):
             functions for each of the N minima in the given temperature range.
         """
         moments_product = np.prod(self.moments, axis=1)[:, None]
-        partition_function = moments_product * np.ones_like(temperature)
+        partition_function = np.sqrt(moments_product) * np.ones_like(temperature)
         partition_function /= self.symmetry_order[:, None]
 
         return partition_function
-- 
2.43.0


From 86ebbbbed940d421e8f4162dcd976867465463f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:57:41 +0000
Subject: [PATCH 02/15] fix: treat round-off in the vanishing moment of linear
 molecules as zero

For a linear molecule that is not aligned with an axis the vanishing
moment comes out as e.g. 5.8e-15, which was taken as a real moment and
made the rotational partition function depend on the orientation.
---
 occuprob/partitionfunctions.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/occuprob/partitionfunctions.py b/occuprob/partitionfunctions.py
index 96304c5..89411f9 100644
--- a/occuprob/partitionfunctions.py
+++ b/occuprob/partitionfunctions.py
@@ -217,7 +217,9 @@ class RotationalPF(PartitionFunction):
 
     def __init__(self, symmetry_order, moments):
         self.symmetry_order = symmetry_order
-        self.moments = np.where(moments > 0, moments, 1.)
+        # Vanishing moments of linear molecules are only zero up to round-off
+        threshold = 1e-6 * np.amax(moments, axis=1, keepdims=True)
+        self.moments = np.where(moments > threshold, moments, 1.)
 
     def calc_part_func(self, temperature):
         """
-- 
2.43.0


From ab1ce4582199cd8634168e824fe714b4269299ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:57:41 +0000
Subject: [PATCH 03/15] fix: sign of W in the quantum harmonic partition
 function

d(ln Z)/d(beta) of exp(-x)/(1-exp(-2x)) is negative. With the positive
sign the electronic and vibrational energies were subtracted instead of
added in the fluctuation term of the heat capacity.
---
 occuprob/partitionfunctions.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/occuprob/partitionfunctions.py b/occuprob/partitionfunctions.py
index 89411f9..edebe3b 100644
--- a/occuprob/partitionfunctions.py
+++ b/occuprob/partitionfunctions.py
@@ -447,7 +447,7 @@ class QuantumHarmonicPF(PartitionFunction):
         multiplied by :math:`\\beta`:
 
         .. math::
-            \\beta W_{vib,a} = \\sum_{i=1}^{\\kappa}(\\beta h\\nu_{a,i}/2)
+            \\beta W_{vib,a} = -\\sum_{i=1}^{\\kappa}(\\beta h\\nu_{a,i}/2)
                                 \\textrm{coth}(\\beta h\\nu_{a,i}/2)
 
         Parameters
@@ -468,7 +468,7 @@ class QuantumHarmonicPF(PartitionFunction):
 
         aux_w = np.multiply(exponent, coth, where=temperature > 0,
                             out=np.zeros_like(exponent))
-        part_func_w = np.sum(aux_w, axis=1)
+        part_func_w = -np.sum(aux_w, axis=1)
 
         return part_func_w
 
-- 
2.43.0


From f51df0b68b50fdbdf1ecf5fa3f656bd0e71cdf03 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:09:26 +0000
Subject: [PATCH 04/15] fix: heat capacity of an approximation without
 contributions is None

The probabilities and ensemble averages already report None in this case,
while calc_heat_capacity raised a TypeError.
---
 occuprob/superpositions.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/occuprob/superpositions.py b/occuprob/superpositions.py
index d79dbcd..bf15a03 100644
--- a/occuprob/superpositions.py
+++ b/occuprob/superpositions.py
@@ -225,6 +225,9 @@ class SuperpositionApproximation():
                                                      'calc_part_func_' + d)
                        for d in ['w', 'v']}
 
+        if part_func_d['w'] is None or part_func_d['v'] is None:
+            return None
+
         heat_capacity = (self.calc_ensemble_average(temperature, part_func_d['v']) +
                          self.calc_ensemble_average(temperature, part_func_d['w']**2) -
                          self.calc_ensemble_average(temperature, part_func_d['w'])**2)
-- 
2.43.0


From 4d168fde6968af28bf029036e1ada99602644c72 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:17:37 +0000
Subject: [PATCH 05/15] fix: replace only the extension in the name of plot
 files

---
 occuprob/cli.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/occuprob/cli.py b/occuprob/cli.py
index 91b771c..e1920eb 100644
--- a/occuprob/cli.py
+++ b/occuprob/cli.py
@@ -167,7 +167,7 @@ def main():
         save_results(results[key], temperature, outfile)
 
         if args.plot:
-            plotfile = outfile.replace('dat', args.plot_format.lower())
+            plotfile = outfile[:-len('dat')] + args.plot_format.lower()
             plot_results(results[key], key, temperature, plotfile, args.size)
 
 
-- 
2.43.0


From 45dc99f640ec74e5890053f94cd5398fc1777208 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:17:37 +0000
Subject: [PATCH 06/15] fix: strip only the extension of the input file from
 output names

---
 occuprob/cli.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/occuprob/cli.py b/occuprob/cli.py
index e1920eb..6c93aaa 100644
--- a/occuprob/cli.py
+++ b/occuprob/cli.py
@@ -23,6 +23,7 @@
 # SOFTWARE.
 
 import argparse
+import re
 
 import numpy as np
 
@@ -162,7 +163,7 @@ def main():
         if args.out_file:
             outfile = args.out_file + '_' + key + '.dat'
         else:
-            outfile = args.in_file.replace('.xyz', '_') + key + '.dat'
+            outfile = re.sub(r'\.xyz\Z', '', args.in_file) + '_' + key + '.dat'
 
         save_results(results[key], temperature, outfile)
 
-- 
2.43.0


From d820f8b972696eb41834ab62e453dac74d777a20 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:18:14 +0000
Subject: [PATCH 07/15] fix: never exceed the maximum temperature requested in
 the command line

---
 occuprob/cli.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/occuprob/cli.py b/occuprob/cli.py
index 6c93aaa..23403c2 100644
--- a/occuprob/cli.py
+++ b/occuprob/cli.py
@@ -148,7 +148,9 @@ def main():
         superposition = SuperpositionApproximation()
         superposition.add_partition_functions(partition_functions)
 
-        temperature = np.arange(args.min_temp, args.max_temp + 1., 1.)
+        # Steps of 1 K that never exceed the maximum temperature
+        steps = np.floor(args.max_temp - args.min_temp + 1e-9)
+        temperature = args.min_temp + np.arange(steps + 1.)
 
         results = {'C': superposition.calc_heat_capacity(temperature),
                    'P': superposition.calc_probability(temperature)}
-- 
2.43.0


From 13f970e69d7040337f777126270f1015226180bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:18:14 +0000
Subject: [PATCH 08/15] fix: dictionaries with arrays of different shapes are
 not equal

---
 occuprob/utils.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/occuprob/utils.py b/occuprob/utils.py
index 3c88696..742314a 100644
--- a/occuprob/utils.py
+++ b/occuprob/utils.py
@@ -103,4 +103,5 @@ def compare_numpy_dictionaries(dict1, dict2):
     if dict1.keys() != dict2.keys():
         return False
 
-    return all(np.allclose(dict1[key], dict2[key]) for key in dict1)
+    return all(np.shape(dict1[key]) == np.shape(dict2[key]) and
+               np.allclose(dict1[key], dict2[key]) for key in dict1)
-- 
2.43.0


From 2828ef01f457dd3d499b53bd79cdd07886f84c43 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:15:33 +0000
Subject: [PATCH 09/15] fix: refuse isomers whose energy or multiplicity has no
 numerical value

---
 occuprob/io.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/occuprob/io.py b/occuprob/io.py
index 28c6538..836a9d8 100644
--- a/occuprob/io.py
+++ b/occuprob/io.py
@@ -90,6 +90,11 @@ def load_properties_from_extxyz(xyz_filename):
 
     # Reads the values from the input file
     for atoms in isomers:
+        # A key without a value (or T/F) is read as a boolean, not as a number
+        for key in ('Energy', 'Multiplicity'):
+            if isinstance(atoms.info[key], (bool, np.bool_)):
+                raise ValueError(f'{key} is not a number in {xyz_filename}')
+
         energies.append(atoms.info['Energy'])
         spin_multiplicity.append(atoms.info['Multiplicity'])
         frequencies.append(atoms.info['Frequencies'].flatten(order='F'))
-- 
2.43.0


From 08a0ba4aade3782bc5fcac6b3a1ccc63233e291f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:26:30 +0000
Subject: [PATCH 10/15] fix: geometric mean of small integers in double
 precision

---
 occuprob/utils.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/occuprob/utils.py b/occuprob/utils.py
index 742314a..661c20f 100644
--- a/occuprob/utils.py
+++ b/occuprob/utils.py
@@ -89,8 +89,10 @@ def calc_geometric_mean(in_array):
     geometric_mean : :obj:`numpy.ndarray`
         A 1D array of size N contaning the geometric mean of the input.
     """
-    geometric_mean = np.exp(np.mean(np.log(in_array, where=in_array > 0,
-                                           out=-np.inf * np.ones_like(in_array)),
+    # Small integers would otherwise be evaluated in half or single precision
+    dtype = np.result_type(in_array.dtype, np.float64)
+    geometric_mean = np.exp(np.mean(np.log(in_array, where=in_array > 0, dtype=dtype,
+                                           out=-np.inf * np.ones_like(in_array, dtype=dtype)),
                                     axis=1))
 
     return geometric_mean
-- 
2.43.0


From 9de1bd04bea60de012a5bea5253fc8100998b8e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:31:25 +0000
Subject: [PATCH 11/15] fix: electronic Boltzmann factors of low temperatures
 in long doubles

---
 occuprob/partitionfunctions.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/occuprob/partitionfunctions.py b/occuprob/partitionfunctions.py
index edebe3b..7ed08af 100644
--- a/occuprob/partitionfunctions.py
+++ b/occuprob/partitionfunctions.py
@@ -119,7 +119,9 @@ class ElectronicPF(PartitionFunction):
         self.potential_energy = potential_energy
         self.spin_multiplicity = spin_multiplicity
 
-        self.relative_energy = potential_energy - np.amin(potential_energy)
+        relative_energy = potential_energy - np.amin(potential_energy)
+        # Long doubles keep the Boltzmann factors from vanishing at low temperatures
+        self.relative_energy = relative_energy.astype(np.longdouble)
 
     def calc_part_func(self, temperature):
         """
-- 
2.43.0


From e2a77efa21f2a2e3f351561714784043620b240f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:31:44 +0000
Subject: [PATCH 12/15] fix: classical harmonic partition functions of many
 stiff modes in long doubles

---
 occuprob/partitionfunctions.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/occuprob/partitionfunctions.py b/occuprob/partitionfunctions.py
index 7ed08af..3109ea7 100644
--- a/occuprob/partitionfunctions.py
+++ b/occuprob/partitionfunctions.py
@@ -313,7 +313,8 @@ class ClassicalHarmonicPF(PartitionFunction):
     """
 
     def __init__(self, frequencies):
-        self.frequencies = frequencies
+        # Long doubles keep the product over many modes from vanishing
+        self.frequencies = frequencies.astype(np.longdouble)
         self.num_vib = frequencies.shape[1]  # Number of vibrational modes
 
     def calc_part_func(self, temperature):
-- 
2.43.0


From 16ebb4137de1c134f191874f650dbf42d14c72b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:40:53 +0000
Subject: [PATCH 13/15] fix: count only whole kelvins up to the maximum
 temperature, beyond round-off

---
 occuprob/cli.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/occuprob/cli.py b/occuprob/cli.py
index 23403c2..75de67d 100644
--- a/occuprob/cli.py
+++ b/occuprob/cli.py
@@ -148,8 +148,9 @@ def main():
         superposition = SuperpositionApproximation()
         superposition.add_partition_functions(partition_functions)
 
-        # Steps of 1 K that never exceed the maximum temperature
-        steps = np.floor(args.max_temp - args.min_temp + 1e-9)
+        # Steps of 1 K that never exceed the maximum temperature (beyond round-off)
+        round_off = 4. * np.spacing(args.max_temp)
+        steps = np.floor(args.max_temp - args.min_temp + round_off)
         temperature = args.min_temp + np.arange(steps + 1.)
 
         results = {'C': superposition.calc_heat_capacity(temperature),
-- 
2.43.0


From 40d5f7906993b7bf537b1f387bab691100f605e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:37:33 +0000
Subject: [PATCH 14/15] fix: take energy differences in long double, small
 integers wrapped around

---
 occuprob/partitionfunctions.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/occuprob/partitionfunctions.py b/occuprob/partitionfunctions.py
index 3109ea7..823f12d 100644
--- a/occuprob/partitionfunctions.py
+++ b/occuprob/partitionfunctions.py
@@ -119,7 +119,9 @@ class ElectronicPF(PartitionFunction):
         self.potential_energy = potential_energy
         self.spin_multiplicity = spin_multiplicity
 
-        relative_energy = potential_energy - np.amin(potential_energy)
+        # Differences of small integers would wrap around in their own type
+        relative_energy = np.subtract(potential_energy, np.amin(potential_energy),
+                                      dtype=np.longdouble)
         # Long doubles keep the Boltzmann factors from vanishing at low temperatures
         self.relative_energy = relative_energy.astype(np.longdouble)
 
-- 
2.43.0


From 3dd51d93ce7cbae6c344a50b2bffb0016e5171bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:12 +0000
Subject: [PATCH 15/15] fix: read the input as Extended XYZ whatever its name

A name with an '@' made ASE read (part of) another file, and names that
resemble those of other formats (CONTCAR.xyz) made it use another reader.
---
 occuprob/io.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/occuprob/io.py b/occuprob/io.py
index 836a9d8..8e52757 100644
--- a/occuprob/io.py
+++ b/occuprob/io.py
@@ -80,7 +80,9 @@ def load_properties_from_extxyz(xyz_filename):
         Dictionary that maps each key to the correspoding property of each
         isomer in the input file.
     """
-    isomers = read(xyz_filename, index=':')
+    # Neither an '@' nor the resemblance to other formats in the name is special
+    isomers = read(xyz_filename, index=':', format='extxyz',
+                   do_not_split_by_at_sign=True)
 
     energies = []
     spin_multiplicity = []
-- 
2.43.0

