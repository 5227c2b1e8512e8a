From 8b3ecdd4fd072512606eacfb5d8381fba9b92222 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:47:00 +0000
Subject: [PATCH 01/63] fix: use all Wigner-Seitz faces when finding nearest
 images in skewed supercells

---
 euphonic/force_constants.py | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/euphonic/force_constants.py b/euphonic/force_constants.py
index 252b595..074c7bf 100644
--- a/euphonic/force_constants.py
+++ b/euphonic/force_constants.py
@@ -1588,11 +1588,10 @@ class ForceConstants:
         sc_matrix = self.sc_matrix
         ax = np.newaxis
 
-        # List of points defining Wigner-Seitz cell
-        ws_frac = np.array([[0, 0, 0], [0, 0, 1], [0, 1, 0], [0, 1, 1],
-                            [0, 1, -1], [1, 0, 0], [1, 0, 1], [1, 0, -1],
-                            [1, 1, 0], [1, 1, 1], [1, 1, -1], [1, -1, 0],
-                            [1, -1, 1], [1, -1, -1]])
+        # List of points defining Wigner-Seitz cell. For skewed supercells
+        # its faces may come from points more than one supercell away. Only
+        # one of each +/- pair is required, starting with the origin
+        ws_frac = get_all_origins((3, 3, 3), min_xyz=(-2, -2, -2))[62:]
         cutoff_scale = 1.0
 
         # Calculate points of WS cell for this supercell
-- 
2.43.0


From 2d65d89511f66333f3381112a109b26f8595dc0f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:49:03 +0000
Subject: [PATCH 02/63] fix: make LO-TO splitting loop variables private to
 each OpenMP thread

---
 c/_euphonic.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/c/_euphonic.c b/c/_euphonic.c
index 84ce901..678b854 100644
--- a/c/_euphonic.c
+++ b/c/_euphonic.c
@@ -86,7 +86,7 @@ static PyObject *calculate_phonons(PyObject *self, PyObject *args) {
     int modegs_len;
     int asr_corr_len;
     int n_split_qpts;
-    int q, i, qpos;
+    int q;
     int max_ims;
     int dmat_elems;
     // Extra vars only required if dipole = True
@@ -224,6 +224,7 @@ static PyObject *calculate_phonons(PyObject *self, PyObject *args) {
         #pragma omp for
         for (q = 0; q < n_rqpts; q++) {
             double *qpt, *dmat, *eval, *modeg;
+            int i, qpos;
             qpt = (rqpts + 3*q);
             eval = (evals + q*3*n_atoms);
 
-- 
2.43.0


From 8041c1afbd8086deb7f971b3a1f0e964d623cb6c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:49:32 +0000
Subject: [PATCH 03/63] fix: convert integer or non-contiguous dipole inputs
 and q-points before calling C

---
 euphonic/force_constants.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/euphonic/force_constants.py b/euphonic/force_constants.py
index 074c7bf..27ae7d5 100644
--- a/euphonic/force_constants.py
+++ b/euphonic/force_constants.py
@@ -670,6 +670,14 @@ class ForceConstants:
             # a very small difference and can only be seen in near-flat
             # mode gradients, but should be corrected anyway
             recip_asr_correction =  recip_asr_correction.conj().T
+            # C expects doubles, so any integer input must be converted
+            reduced_qpts, cell_vectors, self.crystal.atom_r = (
+                np.ascontiguousarray(arr, dtype=np.float64) for arr in (
+                    reduced_qpts, cell_vectors, self.crystal.atom_r))
+            if dipole:
+                self._born, self._dielectric = (
+                    np.ascontiguousarray(arr, dtype=np.float64)
+                    for arr in (self._born, self._dielectric))
             # Make sure all arrays are contiguous before calling C
             (cell_vectors, recip_vectors, reduced_qpts, split_idx, q_dirs,
              fc_img_weighted, sc_origins, recip_asr_correction,
-- 
2.43.0


From 1e741a11eabb530671da446c0dc2e6e908f5fd7a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:00:13 +0000
Subject: [PATCH 04/63] fix: use the correct cofactor sign in the determinant
 of the dielectric tensor

---
 c/util.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/c/util.c b/c/util.c
index a4aeab4..de8f686 100644
--- a/c/util.c
+++ b/c/util.c
@@ -23,7 +23,7 @@ void copy_array(const int size, const double *arr, double *copy) {
 
 double det_array(const double arr[9]) {
    double det;
-   det = arr[0]*(arr[4]*arr[8] - arr[7]*arr[5]) +
+   det = arr[0]*(arr[4]*arr[8] - arr[7]*arr[5]) -
          arr[1]*(arr[3]*arr[8] - arr[6]*arr[5]) +
          arr[2]*(arr[3]*arr[7] - arr[6]*arr[4]);
    return det;
-- 
2.43.0


From c31a2578e2cf21ae88100e3192b1126ce50fbcc0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:41:47 +0000
Subject: [PATCH 05/63] fix: use the conjugate when projecting out acoustic
 modes in the reciprocal sum rule

---
 euphonic/force_constants.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/euphonic/force_constants.py b/euphonic/force_constants.py
index 27ae7d5..fc541cd 100644
--- a/euphonic/force_constants.py
+++ b/euphonic/force_constants.py
@@ -1460,7 +1460,7 @@ class ForceConstants:
                                         dtype=np.complex128)
         for i, ac in enumerate(ac_i):
             recip_asr_correction -= (tol*i + g_evals[ac])*np.einsum(
-                'i,j->ij', g_evecs[:, ac], g_evecs[:, ac])
+                'i,j->ij', g_evecs[:, ac], np.conj(g_evecs[:, ac]))
 
         return recip_asr_correction
 
-- 
2.43.0


From f08028db0f46b8c961a04887f71e3807f7311f49 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:47:32 +0000
Subject: [PATCH 06/63] fix: do not transpose the supercell transformation when
 subtracting the dipole term

---
 euphonic/force_constants.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/euphonic/force_constants.py b/euphonic/force_constants.py
index fc541cd..10036e3 100644
--- a/euphonic/force_constants.py
+++ b/euphonic/force_constants.py
@@ -1784,7 +1784,7 @@ class ForceConstants:
         # First create Crystal and Born charges for supercell
         sc_atom_r = (np.repeat(cell_origins, n_atoms, axis=0)
                      + np.tile(crystal.atom_r, (n_cells, 1)))
-        sc_to_u_matrix = np.linalg.inv(sc_matrix).transpose()
+        sc_to_u_matrix = np.linalg.inv(sc_matrix)
         sc_atom_r_scell = np.einsum('ij,jk->ik', sc_atom_r, sc_to_u_matrix)
         sc_vecs = np.einsum('ji,ik->jk', sc_matrix, crystal._cell_vectors)
         sc_mass = np.tile(crystal._atom_mass, n_cells)
-- 
2.43.0


From d78d199e38285e7a43577c48aa267b29bb9c4405 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:47:32 +0000
Subject: [PATCH 07/63] fix: convert dielectric units before subtracting the
 dipole term

---
 euphonic/force_constants.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/euphonic/force_constants.py b/euphonic/force_constants.py
index 10036e3..94182e8 100644
--- a/euphonic/force_constants.py
+++ b/euphonic/force_constants.py
@@ -1793,12 +1793,13 @@ class ForceConstants:
                              sc_mass*ureg('m_e'))
         sc_born = np.tile(born.to(ureg('e')).magnitude,
                           (n_cells, 1, 1))
+        dielectric_mag = dielectric.to('e**2/(bohr*hartree)').magnitude
         # Now initialise, calculate and subtract the dipole correction
         dipole_data = cls._dipole_correction_init(
-            sc_crystal, sc_born, dielectric.magnitude)
+            sc_crystal, sc_born, dielectric_mag)
         corr = cls._calculate_dipole_correction(
             np.array([0., 0., 0.]), sc_crystal, sc_born,
-            dielectric.magnitude, dipole_data)
+            dielectric_mag, dipole_data)
         corr = np.transpose(
             np.reshape(corr[:, :3*n_atoms], (n_cells, 3*n_atoms, 3*n_atoms)),
             axes=[0, 2, 1])
-- 
2.43.0


From bac3496bcf31a5291f2e6883b047d703b79bf8e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:49:21 +0000
Subject: [PATCH 08/63] fix: cell volume is positive for left-handed cell
 vectors

---
 c/util.c            | 3 ++-
 euphonic/crystal.py | 3 ++-
 euphonic/util.py    | 3 ++-
 3 files changed, 6 insertions(+), 3 deletions(-)

diff --git a/c/util.c b/c/util.c
index de8f686..46ab5eb 100644
--- a/c/util.c
+++ b/c/util.c
@@ -57,7 +57,8 @@ double cell_volume(const double *cell_vec) {
     for (i = 0; i < 3; i++) {
         vol += cell_vec[i]*bxc[i];
     }
-    return vol;
+    // The triple product is negative for left-handed cell vectors
+    return fabs(vol);
 }
 
 void cmult(const double c1[2], const double c2[2], double result[2]) {
diff --git a/euphonic/crystal.py b/euphonic/crystal.py
index 57191a5..42ee936 100644
--- a/euphonic/crystal.py
+++ b/euphonic/crystal.py
@@ -118,7 +118,8 @@ class Crystal:
         bxc = np.cross(cv[1], cv[2])
         cxa = np.cross(cv[2], cv[0])
         axb = np.cross(cv[0], cv[1])
-        vol = self.cell_volume()
+        # Signed, so that this is also correct for left-handed cells
+        vol = np.dot(cv[0], bxc)
         norm = 2*np.pi/vol
 
         return np.vstack((norm * bxc, norm * cxa, norm * axb))
diff --git a/euphonic/util.py b/euphonic/util.py
index f1d3d0a..68567b1 100644
--- a/euphonic/util.py
+++ b/euphonic/util.py
@@ -439,7 +439,8 @@ def _cell_vectors_to_volume(cell_vectors: Quantity) -> Quantity:
     volume = np.dot(cell_vectors[0],
                     np.cross(cell_vectors[1], cell_vectors[2]))
     assert isinstance(volume, Quantity)
-    return volume
+    # The triple product is negative for left-handed cell vectors
+    return abs(volume)
 
 
 def _get_unique_elems_and_idx(
-- 
2.43.0


From 801e12ebe2b1316ec6b2707cb173488ce67311c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:16:01 +0000
Subject: [PATCH 09/63] fix: do not reuse corrections calculated from replaced
 data

The cached acoustic sum rule correction and Ewald tables of a
ForceConstants object were kept when the force constants, Born charges,
dielectric tensor or cell were replaced, so later calculations used stale
data.
---
 euphonic/force_constants.py | 20 +++++++++++++++-----
 1 file changed, 15 insertions(+), 5 deletions(-)

diff --git a/euphonic/force_constants.py b/euphonic/force_constants.py
index 94182e8..95f6237 100644
--- a/euphonic/force_constants.py
+++ b/euphonic/force_constants.py
@@ -131,6 +131,8 @@ class ForceConstants:
     def force_constants(self, value: Quantity) -> None:
         self.force_constants_unit = str(value.units)
         self._force_constants = value.to('hartree/bohr**2').magnitude
+        # Corrected force constants must be recalculated from the new values
+        self.__dict__.pop('_force_constants_asr', None)
 
     @property
     def born(self) -> Union[Quantity, None]:
@@ -579,11 +581,19 @@ class ForceConstants:
         dyn_mat_weighting = 1/np.sqrt(masses*np.transpose(masses))
 
         # Initialise dipole correction calc to FC matrix if required
-        if dipole and (not hasattr(self, '_dipole_init_data') or
-                       dipole_parameter != self._dipole_init_data[
-                           'dipole_parameter']):
-            self._dipole_init_data = self._dipole_correction_init(
-                self.crystal, self._born, self._dielectric, dipole_parameter)
+        if dipole:
+            # Only reuse precalculated data if it was made from these inputs
+            dipole_inputs = [
+                np.array(x) for x in (
+                    dipole_parameter, self.crystal._cell_vectors,
+                    self.crystal.atom_r, self._born, self._dielectric)]
+            if (not hasattr(self, '_dipole_init_data')
+                    or not all(map(np.array_equal, dipole_inputs,
+                                   self._dipole_init_inputs))):
+                self._dipole_init_data = self._dipole_correction_init(
+                    self.crystal, self._born, self._dielectric,
+                    dipole_parameter)
+                self._dipole_init_inputs = dipole_inputs
 
         force_constants = self._force_constants
         if asr == 'realspace':
-- 
2.43.0


From dd2917fd3d2319b6c4620c781be36694b9b5293b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:41:04 +0000
Subject: [PATCH 10/63] fix: recalculate supercell images when the structure
 has changed

---
 euphonic/force_constants.py | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/euphonic/force_constants.py b/euphonic/force_constants.py
index 95f6237..60f54ae 100644
--- a/euphonic/force_constants.py
+++ b/euphonic/force_constants.py
@@ -539,9 +539,17 @@ class ForceConstants:
             q_dirs = np.array([])
 
         n_sc_shells = 2  # How many supercells out to search for atom images
-        # Construct list of supercell atom images
-        if not hasattr(self, '_sc_image_i'):
+        # Construct list of supercell atom images, unless there already is
+        # one that was made for this structure
+        image_inputs = [
+            np.array(x) for x in (
+                self.crystal._cell_vectors, self.crystal.atom_r,
+                self.sc_matrix, self.cell_origins)]
+        if (not hasattr(self, '_sc_image_i')
+                or not all(map(np.array_equal, image_inputs,
+                               self._sc_image_inputs))):
             self._calculate_supercell_images(n_sc_shells)
+            self._sc_image_inputs = image_inputs
 
         # Get a list of all the unique supercell image origins and cell
         # origins in x, y, z and how to rebuild them to minimise
-- 
2.43.0


From 6b911c68666028ee0099a87947375d0f4ed718e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:42:45 +0000
Subject: [PATCH 11/63] fix: never map a mode twice when reordering frequencies

If only zero overlaps were left, a mode that was already mapped was chosen
again, and another one was lost.
---
 euphonic/qpoint_phonon_modes.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/euphonic/qpoint_phonon_modes.py b/euphonic/qpoint_phonon_modes.py
index 2f63253..aa4ac26 100644
--- a/euphonic/qpoint_phonon_modes.py
+++ b/euphonic/qpoint_phonon_modes.py
@@ -150,9 +150,10 @@ class QpointPhononModes(QpointFrequencies):
                     mode = int(max_i/n_branches)
                     # Prev q-pt modes are columns
                     prev_mode = max_i % n_branches
-                    # Ensure modes aren't mapped more than once
-                    dot_mat[mode, :] = 0
-                    dot_mat[:, prev_mode] = 0
+                    # Ensure modes aren't mapped more than once, even if
+                    # all the remaining dot products are zero
+                    dot_mat[mode, :] = -1
+                    dot_mat[:, prev_mode] = -1
 
                     prev_mode_idx = np.where(mode_map[i-1] == prev_mode)[0][0]
                     mode_map[i, prev_mode_idx] = mode
-- 
2.43.0


From 4bbdef389f4c6182592ed9cdfb6e6b8bcae072ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:49:54 +0000
Subject: [PATCH 12/63] fix: keep q-point weights in calculated structure
 factors

---
 euphonic/qpoint_phonon_modes.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/euphonic/qpoint_phonon_modes.py b/euphonic/qpoint_phonon_modes.py
index aa4ac26..844b681 100644
--- a/euphonic/qpoint_phonon_modes.py
+++ b/euphonic/qpoint_phonon_modes.py
@@ -294,7 +294,7 @@ class QpointPhononModes(QpointFrequencies):
         return StructureFactor(
             self.crystal, self.qpts, self.frequencies,
             sf*ureg('bohr**2').to('mbarn'),
-            temperature=temperature)
+            weights=self.weights, temperature=temperature)
 
     def calculate_debye_waller(
         self, temperature: Quantity,
-- 
2.43.0


From 02ff62acd6d3e7263ef04db66b15773adaf0ca88 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:49:54 +0000
Subject: [PATCH 13/63] fix: exclude modes of exactly zero frequency from the
 Debye-Waller sum

---
 euphonic/qpoint_phonon_modes.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/euphonic/qpoint_phonon_modes.py b/euphonic/qpoint_phonon_modes.py
index 844b681..379c4d8 100644
--- a/euphonic/qpoint_phonon_modes.py
+++ b/euphonic/qpoint_phonon_modes.py
@@ -384,6 +384,8 @@ class QpointPhononModes(QpointFrequencies):
         # Mask out frequencies below frequency_min
         freq_mask = np.ones(freqs.shape)
         freq_mask[freqs < freq_min] = 0
+        # Masked frequencies may be zero, which must not result in NaN
+        freqs = np.where(freqs < freq_min, 1., freqs)
 
         if temp > 0:
             x = freqs/(2*kB*temp)
-- 
2.43.0


From fe27d68136532c35d7807aa0f622d07c5fd8cbe6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:53:17 +0000
Subject: [PATCH 14/63] fix: DOS map at q-points of zero weight

---
 euphonic/qpoint_frequencies.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/euphonic/qpoint_frequencies.py b/euphonic/qpoint_frequencies.py
index 63310b2..f60ed41 100644
--- a/euphonic/qpoint_frequencies.py
+++ b/euphonic/qpoint_frequencies.py
@@ -196,7 +196,8 @@ class QpointFrequencies:
             weights = self.weights
         else:
             freqs = self._frequencies[q_idx][np.newaxis, :]
-            weights = np.array([self.weights[q_idx]])
+            # A single q-point has unit weight (its own may be zero)
+            weights = np.ones(1)
         n_modes = freqs.shape[-1]
         # dos_bins commonly contains a 0 bin, and converting from 0 1/cm
         # to 0 hartree causes a RuntimeWarning, so suppress it
-- 
2.43.0


From 827053adb6ffa0caa4c5a73bc7b6f24fe2cb82aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:57:05 +0000
Subject: [PATCH 15/63] fix: Bose factor for temperatures in degrees Celsius

---
 euphonic/structure_factor.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/euphonic/structure_factor.py b/euphonic/structure_factor.py
index 97d2ddb..405d5a6 100644
--- a/euphonic/structure_factor.py
+++ b/euphonic/structure_factor.py
@@ -332,7 +332,7 @@ class StructureFactor(QpointFrequencies):
         kB = (1*ureg.k).to('E_h/K').magnitude
         temp = temperature.to('K').magnitude
         bose = np.zeros(self._frequencies.shape)
-        if temperature > 0:
+        if temp > 0:
             bose = 1/(np.exp(np.absolute(self._frequencies)/(kB*temp)) - 1)
         else:
             bose = 0
-- 
2.43.0


From 396cfc8cc42936e3f0c9be6a132cefd9edef6a73 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:10:02 +0000
Subject: [PATCH 16/63] fix: Spectrum2DCollection.from_spectra of spectra with
 changed z_data_unit

---
 euphonic/spectra.py | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/euphonic/spectra.py b/euphonic/spectra.py
index e260927..1deaa00 100644
--- a/euphonic/spectra.py
+++ b/euphonic/spectra.py
@@ -1948,9 +1948,8 @@ class Spectrum2DCollection(SpectrumCollectionMixin,
 
         for i, spectrum in enumerate(spectra[1:]):
             _type_check(spectrum)
-            spectrum_i_raw_data = cls._get_item_raw_data(spectrum)
-            spectrum_i_data_units = cls._get_item_data_unit(spectrum)
-            assert spectrum_i_data_units == spectrum_data_units
+            spectrum_i_data = cls._get_item_data(spectrum)
+            assert spectrum_i_data.units == spectrum_data_units
 
             for key, ref_bins in bins_data.items():
                 item_bins = getattr(spectrum, key)
@@ -1958,7 +1957,7 @@ class Spectrum2DCollection(SpectrumCollectionMixin,
                 assert item_bins.units == ref_bins.units
 
             assert spectrum.x_tick_labels == x_tick_labels
-            spectrum_data_magnitude[i + 1, :, :] = spectrum_i_raw_data
+            spectrum_data_magnitude[i + 1, :, :] = spectrum_i_data.magnitude
 
         metadata = cls._combine_metadata([spec.metadata for spec in spectra])
         spectrum_data = Quantity(spectrum_data_magnitude, spectrum_data_units)
-- 
2.43.0


From f44105d5b663c81d4fff122ee9c7529b294cc361 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:10:02 +0000
Subject: [PATCH 17/63] fix: scale the spectral data of Spectrum2DCollection,
 not its y_data bins

---
 euphonic/spectra.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/euphonic/spectra.py b/euphonic/spectra.py
index 1deaa00..6b52625 100644
--- a/euphonic/spectra.py
+++ b/euphonic/spectra.py
@@ -1922,6 +1922,11 @@ class Spectrum2DCollection(SpectrumCollectionMixin,
         self.z_data_unit = str(value.units)
         self._z_data = value.to(self._internal_z_data_unit).magnitude
 
+    def __imul__(self, other: Real) -> Self:
+        """Scale spectral data in-place"""
+        self._z_data *= other
+        return self
+
     @classmethod
     def from_spectra(cls, spectra: Sequence[Spectrum2D]) -> Self:
         if len(spectra) < 1:
-- 
2.43.0


From 6a346446b6e32e7998e33f88f4a3349676bb451d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:10:02 +0000
Subject: [PATCH 18/63] fix: spectra in reciprocal units: setting data, scaling
 and summing

---
 euphonic/spectra.py | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/euphonic/spectra.py b/euphonic/spectra.py
index 6b52625..6cc28bd 100644
--- a/euphonic/spectra.py
+++ b/euphonic/spectra.py
@@ -55,7 +55,8 @@ class Spectrum(ABC):
     @x_data.setter
     def x_data(self, value: Quantity) -> None:
         self.x_data_unit = str(value.units)
-        self._x_data = value.to(self._internal_x_data_unit).magnitude
+        self._x_data = value.to(self._internal_x_data_unit,
+                                "reciprocal_spectroscopy").magnitude
 
     @property
     def y_data(self) -> Quantity:
@@ -65,7 +66,8 @@ class Spectrum(ABC):
     @y_data.setter
     def y_data(self, value: Quantity) -> None:
         self.y_data_unit = str(value.units)
-        self._y_data = value.to(self._internal_y_data_unit).magnitude
+        self._y_data = value.to(self._internal_y_data_unit,
+                                "reciprocal_spectroscopy").magnitude
 
     def __imul__(self: T, other: Real) -> T:
         """Scale spectral data in-place"""
@@ -777,7 +779,7 @@ class SpectrumCollectionMixin(ABC):
         summed_s_data = ureg.Quantity(
             np.sum(self._get_raw_spectrum_data(), axis=0),
             units=self._get_internal_spectrum_data_unit()
-        ).to(self._get_spectrum_data_unit())
+        ).to(self._get_spectrum_data_unit(), "reciprocal_spectroscopy")
         return self._item_type(
             **self._get_bin_kwargs(),
             **{self._spectrum_data_name(): summed_s_data},
@@ -1501,7 +1503,8 @@ class Spectrum2D(Spectrum):
     @z_data.setter
     def z_data(self, value: Quantity) -> None:
         self.z_data_unit = str(value.units)
-        self._z_data = value.to(self._internal_z_data_unit).magnitude
+        self._z_data = value.to(self._internal_z_data_unit,
+                                "reciprocal_spectroscopy").magnitude
 
     def __imul__(self: T, other: Real) -> T:
         """Scale spectral data in-place"""
@@ -1920,7 +1923,8 @@ class Spectrum2DCollection(SpectrumCollectionMixin,
     @z_data.setter
     def z_data(self, value: Quantity) -> None:
         self.z_data_unit = str(value.units)
-        self._z_data = value.to(self._internal_z_data_unit).magnitude
+        self._z_data = value.to(self._internal_z_data_unit,
+                                "reciprocal_spectroscopy").magnitude
 
     def __imul__(self, other: Real) -> Self:
         """Scale spectral data in-place"""
-- 
2.43.0


From 5cb66ca7680891646c0d702c3362c543a84a2482 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:19:45 +0000
Subject: [PATCH 19/63] fix: bin edges, centres and widths of
 Spectrum2DCollection

---
 euphonic/spectra.py | 31 +++++++++++++++++++++++++++++++
 1 file changed, 31 insertions(+)

diff --git a/euphonic/spectra.py b/euphonic/spectra.py
index 6cc28bd..a939fae 100644
--- a/euphonic/spectra.py
+++ b/euphonic/spectra.py
@@ -1931,6 +1931,37 @@ class Spectrum2DCollection(SpectrumCollectionMixin,
         self._z_data *= other
         return self
 
+    def get_bin_edges(self, bin_ax: Literal['x', 'y'] = 'x') -> Quantity:
+        """
+        Get bin edges for the axis specified by bin_ax. See
+        Spectrum2D.get_bin_edges for details
+        """
+        return self[0].get_bin_edges(bin_ax)
+
+    def get_bin_centres(self, bin_ax: Literal['x', 'y'] = 'x') -> Quantity:
+        """
+        Get bin centres for the axis specified by bin_ax. See
+        Spectrum2D.get_bin_centres for details
+        """
+        return self[0].get_bin_centres(bin_ax)
+
+    def get_bin_widths(self, bin_ax: Literal['x', 'y'] = 'x') -> Quantity:
+        """
+        Get bin widths for the axis specified by bin_ax
+        """
+        return self[0].get_bin_widths(bin_ax)
+
+    def assert_regular_bins(self, bin_ax: Literal['x', 'y'] = 'x',
+                            message: str = '',
+                            rtol: float = 1e-5,
+                            atol: float = 0.) -> None:
+        """
+        Raise AssertionError if bins are not evenly spaced. See
+        Spectrum2D.assert_regular_bins for details
+        """
+        self[0].assert_regular_bins(bin_ax, message=message,
+                                    rtol=rtol, atol=atol)
+
     @classmethod
     def from_spectra(cls, spectra: Sequence[Spectrum2D]) -> Self:
         if len(spectra) < 1:
-- 
2.43.0


From 96ebe7b5e8856976a95361e6d245d4b60a8cb636 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:24:16 +0000
Subject: [PATCH 20/63] fix: find uneven bins in broadening whatever the unit
 of the axis

---
 euphonic/spectra.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/euphonic/spectra.py b/euphonic/spectra.py
index a939fae..baab07d 100644
--- a/euphonic/spectra.py
+++ b/euphonic/spectra.py
@@ -250,7 +250,8 @@ class Spectrum(ABC):
             for ax, (width, bin_data) in enumerate(zip(widths, bin_centres)):
                 if width is not None:
                     bin_widths = np.diff(bin_data)
-                    if not np.all(np.isclose(bin_widths, bin_widths[0])):
+                    if not np.all(np.isclose(bin_widths, bin_widths[0],
+                                             atol=0.)):
                         unequal_bin_axes += [axes[ax]]
             if len(unequal_bin_axes) > 0:
                 msg = (f'{" and ".join(unequal_bin_axes)} bin widths are '
@@ -1656,7 +1657,8 @@ class Spectrum2D(Spectrum):
         bins = spectrum.get_bin_edges(bin_ax=axis)
         bin_widths = np.diff(bins)
 
-        if not np.all(np.isclose(bin_widths, bin_widths[0])):
+        if not np.all(np.isclose(bin_widths.magnitude, bin_widths.magnitude[0],
+                                 atol=0.)):
             bin_width = bin_widths.mean()
         else:
             bin_width = bin_widths[0]
-- 
2.43.0


From cde699201c476af2864fa18141bd6d9608d7a5c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:25:11 +0000
Subject: [PATCH 21/63] fix: width interpolation error of Lorentzian broadening
 was ignored

---
 euphonic/broadening.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/euphonic/broadening.py b/euphonic/broadening.py
index 0cb59e4..5884072 100644
--- a/euphonic/broadening.py
+++ b/euphonic/broadening.py
@@ -179,7 +179,7 @@ def _get_spacing(error,
             cheby = Chebyshev(
                 [1.26039672, 0.39900457, 0.20392176, 0.08602507,
                  0.03337662, 0.00878684, 0.00619626],
-                window=[1., 1.],
+                window=[-1., 1.],
                 domain=[-4.99146317, -1.34655197])
             safe_domain = [-4, -1.35]
 
-- 
2.43.0


From 09b38edc02880c483b90eebc813f4babd1da5b5a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:28:21 +0000
Subject: [PATCH 22/63] fix: kinematic constraints for angle ranges that pass
 through 0 and 180

---
 euphonic/spectra.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/euphonic/spectra.py b/euphonic/spectra.py
index baab07d..0089a23 100644
--- a/euphonic/spectra.py
+++ b/euphonic/spectra.py
@@ -2112,13 +2112,14 @@ def _get_cos_range(angle_range: Tuple[float]) -> Tuple[float]:
     a cosine max/min point lies within the angle range, 1/-1 respectively.
 
     Method: the angle range is translated such that it starts within 0-2π; then
-    we check for the presence of turning points at π and 2π.
+    we check for the presence of turning points at π, 2π and 3π.
     """
     limiting_values = np.cos(angle_range).tolist()
 
     shift, lower_angle = divmod(min(angle_range), np.pi * 2)
     upper_angle = max(angle_range) - (shift * 2 * np.pi)
-    if lower_angle < np.pi < upper_angle:
+    if (lower_angle < np.pi < upper_angle
+            or lower_angle < 3 * np.pi < upper_angle):
         limiting_values.append(-1.)
     if lower_angle < 2 * np.pi < upper_angle:
         limiting_values.append(1.)
-- 
2.43.0


From 0a76c6c219108911c0d0dc15b1501eabb6d8716d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:28:21 +0000
Subject: [PATCH 23/63] fix: elastic line lost in kinematic constraints because
 of rounding

---
 euphonic/spectra.py | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/euphonic/spectra.py b/euphonic/spectra.py
index 0089a23..a1e1374 100644
--- a/euphonic/spectra.py
+++ b/euphonic/spectra.py
@@ -2077,9 +2077,10 @@ def apply_kinematic_constraints(spectrum: Spectrum2D,
     cos_values = np.asarray(
         _get_cos_range(np.asarray(angle_range) * np.pi / 180.))
 
-    # Momentum goes negative where final energy greater than incident
-    # energy; detect this as complex component and set extreme q-bounds to
-    # enforce conservation of energy
+    # Energy of the other neutron state goes negative where energy transfer
+    # greater than incident energy; detect this and set extreme q-bounds to
+    # enforce conservation of energy. (Tiny negative squares of q due to
+    # rounding near the elastic line must not be taken for this.)
 
     # (Complex number sqrt separated from units sqrt for compatibility with
     # older library versions; in newer versions this is not necessary.)
@@ -2089,8 +2090,8 @@ def apply_kinematic_constraints(spectrum: Spectrum2D,
                                      dtype=complex)
                            * (k2_i.units * k2_f.units)**0.5
                        )
-    q_bounds.magnitude.T[np.any(q_bounds.imag, axis=0)] = [float('Inf'),
-                                                           float('-Inf')]
+    unphysical = np.minimum(k2_i.magnitude, k2_f.magnitude) < 0
+    q_bounds.magnitude.T[unphysical] = [float('Inf'), float('-Inf')]
     q_bounds = q_bounds.real
 
     mask = np.logical_or((spectrum.get_bin_edges(bin_ax='x')[1:, np.newaxis]
-- 
2.43.0


From 7d9570c54d5b81b077912a79db0c2ecf3be444c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:40:37 +0000
Subject: [PATCH 24/63] fix: units were accepted that values cannot be
 converted to

---
 euphonic/spectra.py  | 12 ++++++++++--
 euphonic/validate.py |  8 +++++---
 2 files changed, 15 insertions(+), 5 deletions(-)

diff --git a/euphonic/spectra.py b/euphonic/spectra.py
index a1e1374..5ff9bcc 100644
--- a/euphonic/spectra.py
+++ b/euphonic/spectra.py
@@ -38,7 +38,8 @@ class Spectrum(ABC):
 
     def __setattr__(self, name: str, value: Any) -> None:
         _check_unit_conversion(self, name, value,
-                               ['x_data_unit', 'y_data_unit'])
+                               ['x_data_unit', 'y_data_unit'],
+                               "reciprocal_spectroscopy")
         super().__setattr__(name, value)
 
     def _set_data(self, data: Quantity, attr_name: str) -> None:
@@ -1514,7 +1515,8 @@ class Spectrum2D(Spectrum):
 
     def __setattr__(self, name: str, value: Any) -> None:
         _check_unit_conversion(self, name, value,
-                               ['z_data_unit'])
+                               ['z_data_unit'],
+                               "reciprocal_spectroscopy")
         super(Spectrum2D, self).__setattr__(name, value)
 
     def _split_by_indices(self,
@@ -1933,6 +1935,12 @@ class Spectrum2DCollection(SpectrumCollectionMixin,
         self._z_data *= other
         return self
 
+    def __setattr__(self, name: str, value: Any) -> None:
+        _check_unit_conversion(self, name, value,
+                               ['z_data_unit'],
+                               "reciprocal_spectroscopy")
+        super().__setattr__(name, value)
+
     def get_bin_edges(self, bin_ax: Literal['x', 'y'] = 'x') -> Quantity:
         """
         Get bin edges for the axis specified by bin_ax. See
diff --git a/euphonic/validate.py b/euphonic/validate.py
index 21d38cc..203be75 100644
--- a/euphonic/validate.py
+++ b/euphonic/validate.py
@@ -56,7 +56,7 @@ def _check_constructor_inputs(
 
 
 def _check_unit_conversion(obj: object, attr_name: str, attr_value: Any,
-                           unit_attrs: List[str]) -> None:
+                           unit_attrs: List[str], *contexts: str) -> None:
     """
     If setting an attribute on an object that relates to the units of a
     Quantity (e.g. 'frequencies_unit' in QpointPhononModes) check that
@@ -73,6 +73,9 @@ def _check_unit_conversion(obj: object, attr_name: str, attr_value: Any,
     unit_attrs
         Only check the unit conversion if the attribute is one of
         unit_attrs
+    *contexts
+        Names of additional Pint contexts used by obj to convert this
+        Quantity
 
     Raises
     ------
@@ -82,8 +85,7 @@ def _check_unit_conversion(obj: object, attr_name: str, attr_value: Any,
     if hasattr(obj, attr_name):
         if attr_name in unit_attrs:
             try:
-                ureg(getattr(obj, attr_name)).ito(attr_value,
-                                                  "reciprocal_spectroscopy")
+                ureg(getattr(obj, attr_name)).ito(attr_value, *contexts)
             except DimensionalityError:
                 raise ValueError((
                     f'"{attr_value}" is not a known dimensionally-consistent '
-- 
2.43.0


From fb7fc15fb497000053e79af446e5951387946a35 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:40:37 +0000
Subject: [PATCH 25/63] fix: frequencies in reciprocal units (wavelength) were
 converted by a factor

---
 euphonic/qpoint_frequencies.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/euphonic/qpoint_frequencies.py b/euphonic/qpoint_frequencies.py
index f60ed41..6da1f76 100644
--- a/euphonic/qpoint_frequencies.py
+++ b/euphonic/qpoint_frequencies.py
@@ -79,7 +79,9 @@ class QpointFrequencies:
 
     @property
     def frequencies(self) -> Quantity:
-        return self._frequencies*ureg('hartree').to(self.frequencies_unit)
+        # Not a factor: units may be reciprocal (e.g. wavelength)
+        return Quantity(np.array(self._frequencies),
+                        ureg('hartree')).to(self.frequencies_unit)
 
     @frequencies.setter
     def frequencies(self, value: Quantity) -> None:
-- 
2.43.0


From e3a03a81919d1378f79d58755025f47aecd6d1ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:40:37 +0000
Subject: [PATCH 26/63] fix: temperatures in degC could not be read back from
 dictionaries and JSON files

---
 euphonic/io.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/euphonic/io.py b/euphonic/io.py
index e89a095..f097ac6 100644
--- a/euphonic/io.py
+++ b/euphonic/io.py
@@ -5,7 +5,7 @@ from typing import Dict, Type, TypeVar, Sequence, Any
 
 import numpy as np
 
-from euphonic import ureg, Quantity, __version__
+from euphonic import Quantity, __version__
 
 T = TypeVar('T')
 
@@ -91,7 +91,8 @@ def _process_dict(dictionary: Dict[str, Any], quantities: Sequence[str] = [],
     for qkey in quantities:
         val = dictionary.pop(qkey)
         if val is not None:
-            val = val*ureg(dictionary.pop(qkey + '_unit'))
+            # Multiplication isn't defined for offset units such as degC
+            val = Quantity(val, dictionary.pop(qkey + '_unit'))
         dictionary[qkey] = val
     return dictionary
 
-- 
2.43.0


From ee8a13668ebb7bba8f7e598af5ef71d8570ddf23 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:40:37 +0000
Subject: [PATCH 27/63] fix: dielectric of ForceConstants without born had
 wrong units

---
 euphonic/force_constants.py | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/euphonic/force_constants.py b/euphonic/force_constants.py
index 60f54ae..7328d81 100644
--- a/euphonic/force_constants.py
+++ b/euphonic/force_constants.py
@@ -117,9 +117,14 @@ class ForceConstants:
         else:
             self._born = born
             self.born_unit = str(ureg.e)
-            self._dielectric = dielectric
-            self.dielectric_unit = str(ureg((
-                'e**2/(bohr*hartree)')))
+            if dielectric is not None:
+                self._dielectric = dielectric.to(ureg(
+                    'e**2/(bohr*hartree)')).magnitude
+                self.dielectric_unit = str(dielectric.units)
+            else:
+                self._dielectric = dielectric
+                self.dielectric_unit = str(ureg((
+                    'e**2/(bohr*hartree)')))
 
     @property
     def force_constants(self) -> Quantity:
-- 
2.43.0


From 9d7d63e032eee75513c77d5139dfb9424d666da2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:49:11 +0000
Subject: [PATCH 28/63] fix: reorder_frequencies changed arrays shared with
 other objects

---
 euphonic/qpoint_phonon_modes.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/euphonic/qpoint_phonon_modes.py b/euphonic/qpoint_phonon_modes.py
index 379c4d8..57e818e 100644
--- a/euphonic/qpoint_phonon_modes.py
+++ b/euphonic/qpoint_phonon_modes.py
@@ -160,11 +160,11 @@ class QpointPhononModes(QpointFrequencies):
             else:
                 mode_map[i] = mode_map[i-1]
 
-        # Actually rearrange frequencies/eigenvectors
-        for i in range(n_qpts):
-            self._frequencies[i] = self._frequencies[i, mode_map[i]]
-            evec_tmp = np.copy(self.eigenvectors[i, mode_map[i]])
-            self.eigenvectors[i] = evec_tmp
+        # Actually rearrange frequencies/eigenvectors. Don't change the arrays
+        # in place as they may be shared with other objects
+        qpt_idx = np.arange(n_qpts)[:, np.newaxis]
+        self._frequencies = self._frequencies[qpt_idx, mode_map]
+        self.eigenvectors = self.eigenvectors[qpt_idx, mode_map]
 
     def calculate_structure_factor(
         self,
-- 
2.43.0


From 04bc87d2633b38406cdbe688e55037a27b099d1b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:49:11 +0000
Subject: [PATCH 29/63] fix: pieces of split spectra shared their metadata

---
 euphonic/spectra.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/euphonic/spectra.py b/euphonic/spectra.py
index 5ff9bcc..997480d 100644
--- a/euphonic/spectra.py
+++ b/euphonic/spectra.py
@@ -481,7 +481,7 @@ class Spectrum1D(Spectrum):
         return [type(self)(self.x_data[x0:x1], self.y_data[x0:x1],
                            x_tick_labels=self._cut_x_ticks(self.x_tick_labels,
                                                            x0, x1),
-                           metadata=self.metadata)
+                           metadata=copy.deepcopy(self.metadata))
                 for x0, x1 in ranges]
 
     def copy(self: T) -> T:
@@ -1206,7 +1206,7 @@ class Spectrum1DCollection(SpectrumCollectionMixin,
         return [type(self)(self.x_data[x0:x1], self.y_data[:, x0:x1],
                            x_tick_labels=self._cut_x_ticks(self.x_tick_labels,
                                                            x0, x1),
-                           metadata=self.metadata)
+                           metadata=copy.deepcopy(self.metadata))
                 for x0, x1 in ranges]
 
     @classmethod
@@ -1528,7 +1528,7 @@ class Spectrum2D(Spectrum):
                            self.z_data[x0:x1, :],
                            x_tick_labels=self._cut_x_ticks(self.x_tick_labels,
                                                            x0, x1),
-                           metadata=self.metadata)
+                           metadata=copy.deepcopy(self.metadata))
                 for x0, x1 in ranges]
 
     def broaden(self: T,
@@ -1915,7 +1915,7 @@ class Spectrum2DCollection(SpectrumCollectionMixin,
                            self.z_data[:, x0:x1, :],
                            x_tick_labels=self._cut_x_ticks(
                                self.x_tick_labels, x0, x1),
-                           metadata=self.metadata)
+                           metadata=copy.deepcopy(self.metadata))
                 for x0, x1 in ranges]
 
     @property
-- 
2.43.0


From f6da1af718ce748a84c7610ef694cf1fa2077d72 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:49:20 +0000
Subject: [PATCH 30/63] fix: eigenvectors that are not C-contiguous could not
 be written to JSON

---
 euphonic/io.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/euphonic/io.py b/euphonic/io.py
index f097ac6..f4ba7cb 100644
--- a/euphonic/io.py
+++ b/euphonic/io.py
@@ -16,8 +16,8 @@ def _to_json_dict(dictionary: Dict[str, Any]) -> Dict[str, Any]:
     """
     for key, val in dictionary.items():
         if isinstance(val, np.ndarray):
-            if val.dtype == np.complex128:
-                val = val.view(np.float64).reshape(val.shape + (2,))
+            if np.iscomplexobj(val):
+                val = np.stack((val.real, val.imag), axis=-1)
             dictionary[key] = val.tolist()
         elif isinstance(val, dict):
             if key != 'metadata':
-- 
2.43.0


From e309dddc4cd926e01685962d2a0b3028ea50832f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:49:20 +0000
Subject: [PATCH 31/63] fix: dictionaries shared their metadata with the object

---
 euphonic/io.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/euphonic/io.py b/euphonic/io.py
index f4ba7cb..b862dc7 100644
--- a/euphonic/io.py
+++ b/euphonic/io.py
@@ -63,6 +63,8 @@ def _obj_to_dict(obj: T, attrs: Sequence[str]) -> Dict[str, Any]:
             dout[attr] = np.copy(val)
         elif isinstance(val, list):
             dout[attr] = val.copy()
+        elif isinstance(val, dict):
+            dout[attr] = copy.deepcopy(val)
         elif isinstance(val, Quantity):
             if isinstance(val.magnitude, np.ndarray):
                 dout[attr] = np.copy(val.magnitude)
-- 
2.43.0


From 284d8cc381754d6ccce085d82742a143d8c5404f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:00:01 +0000
Subject: [PATCH 32/63] fix: Spectrum2D.broaden without widths returned the
 spectrum itself

---
 euphonic/spectra.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/euphonic/spectra.py b/euphonic/spectra.py
index 997480d..2a33d46 100644
--- a/euphonic/spectra.py
+++ b/euphonic/spectra.py
@@ -1625,7 +1625,7 @@ class Spectrum2D(Spectrum):
                                   copy.copy(self.x_tick_labels),
                                   copy.deepcopy(self.metadata))
         else:
-            spectrum = self
+            spectrum = self.copy()
 
         # Then apply variable-width broadening to any axes with Callable
         for axis, width, lower_limit in (('x', x_width, x_width_lower_limit),
-- 
2.43.0


From 57dbbf2025a9a4d13f37da3f12f7838ab1443d67 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:06:14 +0000
Subject: [PATCH 33/63] fix: scalar quantities were accepted in place of arrays

---
 euphonic/validate.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/euphonic/validate.py b/euphonic/validate.py
index 203be75..1e96134 100644
--- a/euphonic/validate.py
+++ b/euphonic/validate.py
@@ -46,12 +46,14 @@ def _check_constructor_inputs(
         if not any(isinstance(obj, t) for t in typ):
             raise TypeError((f'The type of {name} {type(obj)} doesn\'t '
                              f'match the expected type(s) {typ}'))
-        if hasattr(obj, 'shape') and shape:
+        # A Quantity with a scalar magnitude has no shape attribute
+        if (hasattr(obj, 'shape') or isinstance(obj, ureg.Quantity)) and shape:
             if not isinstance(shape, list):
                 shape = [shape]
-            if not any(obj.shape == _replace_dim(s, obj.shape) for s in shape):
+            obj_shape = getattr(obj, 'shape', ())
+            if not any(obj_shape == _replace_dim(s, obj_shape) for s in shape):
                 raise ValueError((
-                    f'The shape of {name} {obj.shape} doesn\'t match '
+                    f'The shape of {name} {obj_shape} doesn\'t match '
                     f'the expected shape(s) {shape}'))
 
 
-- 
2.43.0


From 1839848549cc313cfe771a122a14176488b69f7b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:06:14 +0000
Subject: [PATCH 34/63] fix: wrong types of Crystal arguments raised
 AttributeError

---
 euphonic/crystal.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/euphonic/crystal.py b/euphonic/crystal.py
index 42ee936..6d7d63a 100644
--- a/euphonic/crystal.py
+++ b/euphonic/crystal.py
@@ -59,9 +59,9 @@ class Crystal:
         # shape/type. This is required here to allow reading from .json
         # files where attrs will have been converted to a list so
         # shape/type information will have been lost
-        if n_atoms == 0 and atom_r.shape == (0,):
+        if n_atoms == 0 and getattr(atom_r, 'shape', None) == (0,):
             atom_r = np.zeros((0, 3), dtype=np.float64)
-        if n_atoms == 0 and atom_type.shape == (0,):
+        if n_atoms == 0 and getattr(atom_type, 'shape', None) == (0,):
             atom_type = np.array([], dtype='<U32')
 
         _check_constructor_inputs(
-- 
2.43.0


From 980d41dd0bc82340ea7d2590144ebb6bf0e3e2e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:06:14 +0000
Subject: [PATCH 35/63] fix: born without dielectric raised AttributeError

---
 euphonic/force_constants.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/euphonic/force_constants.py b/euphonic/force_constants.py
index 7328d81..d6467c1 100644
--- a/euphonic/force_constants.py
+++ b/euphonic/force_constants.py
@@ -100,6 +100,8 @@ class ForceConstants:
                 [Quantity, type(None)]],
             [(n_sc, 3*n_at, 3*n_at), (n_sc, 3), (n_at, 3, 3), (3, 3)],
             ['force_constants', 'cell_origins', 'born', 'dielectric'])
+        if born is not None and dielectric is None:
+            raise ValueError('dielectric must be provided if born is')
         self.crystal = crystal
         self._force_constants = force_constants.to(
             'hartree/bohr**2').magnitude
-- 
2.43.0


From 9b9baf71219f61d09583d92883b369807ceff42b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:43:39 +0000
Subject: [PATCH 36/63] fix: spherical_polar_improved dropped a point because
 of rounding

---
 euphonic/sampling.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/euphonic/sampling.py b/euphonic/sampling.py
index b36f9bc..6727472 100644
--- a/euphonic/sampling.py
+++ b/euphonic/sampling.py
@@ -300,7 +300,8 @@ def spherical_polar_improved(npts: int,
     theta_circumferences = 2 * np.pi * np.abs(np.sin(theta_sequence))
     bin_edges = np.concatenate([[0], np.cumsum(theta_circumferences)])
 
-    counts, _ = np.histogram(np.linspace(0, theta_circumferences.sum(), npts),
+    # (The last edge is not quite the sum because of rounding)
+    counts, _ = np.histogram(np.linspace(0, bin_edges[-1], npts),
                              bins=bin_edges, density=False)
 
     for row_theta, count in zip(theta_sequence, counts):
-- 
2.43.0


From 6ee067dc081817a67f1a23208edfd85f3b5b6426 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:43:39 +0000
Subject: [PATCH 37/63] fix: spherical_polar_grid failed with one row or column

---
 euphonic/sampling.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/euphonic/sampling.py b/euphonic/sampling.py
index 6727472..c4bb439 100644
--- a/euphonic/sampling.py
+++ b/euphonic/sampling.py
@@ -218,12 +218,12 @@ def spherical_polar_grid(n_phi: int, n_theta: int,
         (r, phi, theta) spherical coordinates.
     """
     phi_sequence = np.linspace(-np.pi, np.pi, n_phi + 1)[:-1]
-    phi_spacing = phi_sequence[1] - phi_sequence[0]
+    phi_spacing = 2 * np.pi / n_phi
 
     # Offset theta samples to avoid redundancy at pole
     theta_sequence = (np.linspace(0, np.pi, n_theta + 1)[:-1]
                       + np.pi / (2 * n_theta))
-    theta_spacing = theta_sequence[1] - theta_sequence[0]
+    theta_spacing = np.pi / n_theta
 
     for phi, theta in product(phi_sequence, theta_sequence):
         if jitter:
-- 
2.43.0


From 9df2006abd2237ed6e582addf5ac8c327c364ead Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:43:39 +0000
Subject: [PATCH 38/63] fix: points of regular_square with jitter could be
 outside the unit square

---
 euphonic/sampling.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/euphonic/sampling.py b/euphonic/sampling.py
index c4bb439..77fc9cd 100644
--- a/euphonic/sampling.py
+++ b/euphonic/sampling.py
@@ -97,8 +97,8 @@ def regular_square(n_rows: int, n_cols: int,
         else:
             delta_x, delta_y = 0, 0
 
-        yield (x + x_offset + delta_x,
-               y + y_offset + delta_y)
+        yield ((x + x_offset + delta_x) % 1,
+               (y + y_offset + delta_y) % 1)
 
 
 def _spherical_polar_to_cartesian(phi, theta):
-- 
2.43.0


From 79228f650e341b59b791110fa2e7a7eda2041d65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:43:39 +0000
Subject: [PATCH 39/63] fix: spherical sampling schemes were case-sensitive

---
 euphonic/powder.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/euphonic/powder.py b/euphonic/powder.py
index b51105e..8301e58 100644
--- a/euphonic/powder.py
+++ b/euphonic/powder.py
@@ -364,6 +364,7 @@ def _get_qpts_sphere(npts: int,
                                    spherical_polar_improved,
                                    random_sphere)
 
+    sampling = sampling.lower()
     if sampling == 'golden':
         return np.asarray(list(golden_sphere(npts, jitter=jitter)))
     elif sampling == 'sphere-projected-grid':
-- 
2.43.0


From d0c3f5f2d8c07879f3e75b0b295919baf00d4b69 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:43:39 +0000
Subject: [PATCH 40/63] fix: wrong number of points in message about rounding
 up

---
 euphonic/powder.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/euphonic/powder.py b/euphonic/powder.py
index 8301e58..5cc361b 100644
--- a/euphonic/powder.py
+++ b/euphonic/powder.py
@@ -388,6 +388,6 @@ def _check_gridpts(npts: int) -> int:
     n_cols = int(np.ceil(np.sqrt(npts / 2)))
     actual_npts = n_cols**2 * 2
     if actual_npts != npts:
-        print("Requested npts ∉ {2x^2, x ∈ Z, x > 1}; "
-              f"rounding up to {npts}.")
+        print("Requested npts ∉ {2x^2, x ∈ Z, x > 0}; "
+              f"rounding up to {actual_npts}.")
     return n_cols
-- 
2.43.0


From 84ff7fae8ceb1972f6938072882e7564e9e03df5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:17:49 +0000
Subject: [PATCH 41/63] fix: labels of points equivalent to a special point by
 a reciprocal lattice vector were missing

---
 euphonic/util.py | 27 ++++++++++++++-------------
 1 file changed, 14 insertions(+), 13 deletions(-)

diff --git a/euphonic/util.py b/euphonic/util.py
index 68567b1..77d642d 100644
--- a/euphonic/util.py
+++ b/euphonic/util.py
@@ -635,27 +635,28 @@ def _get_qpt_label(qpt: np.ndarray,
         point label is just an empty string
     """
 
-    # Normalise qpt to [0,1]
-    qpt_norm = [x - math.floor(x) for x in qpt]
+    # Normalise qpt to [0,1)
+    TOL = 1e-6
+    qpt_norm = [x - math.floor(x + TOL) for x in qpt]
 
     # Split dict into keys and values so labels can be looked up by
     # comparing q-point coordinates with the dict values
     labels = list(point_labels)
     # Ensure symmetry points in label_keys and label_values are in the
     # same order (not guaranteed if using .values() function)
-    label_coords = [point_labels[x] for x in labels]
+    label_coords = np.array([point_labels[x] for x in labels])
 
     # Check for matching symmetry point coordinates (roll q-point
-    # coordinates if no match is found)
-    TOL = 1e-6
-    matching_label_index = np.where((np.isclose(
-        label_coords, qpt_norm, atol=TOL)).all(axis=1))[0]
-    if matching_label_index.size == 0:
-        matching_label_index = np.where((np.isclose(
-            label_coords, np.roll(qpt_norm, 1), atol=TOL)).all(axis=1))[0]
-    if matching_label_index.size == 0:
-        matching_label_index = np.where((np.isclose(
-            label_coords, np.roll(qpt_norm, 2), atol=TOL)).all(axis=1))[0]
+    # coordinates if no match is found). Symmetry points may themselves
+    # be outside [0,1)
+    for coords in (label_coords, label_coords - np.floor(label_coords + TOL)):
+        for roll in range(3):
+            matching_label_index = np.where((np.isclose(
+                coords, np.roll(qpt_norm, roll), atol=TOL)).all(axis=1))[0]
+            if matching_label_index.size > 0:
+                break
+        if matching_label_index.size > 0:
+            break
 
     label = ''
     if matching_label_index.size > 0:
-- 
2.43.0


From 15bdfb1e8e411e2d3c22975ae902a84d150c22b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:17:49 +0000
Subject: [PATCH 42/63] fix: symbols of special points were given to points
 which are not equivalent to them

---
 euphonic/util.py | 26 +++++++++++++++++++++-----
 1 file changed, 21 insertions(+), 5 deletions(-)

diff --git a/euphonic/util.py b/euphonic/util.py
index 77d642d..51de1cd 100644
--- a/euphonic/util.py
+++ b/euphonic/util.py
@@ -11,6 +11,7 @@ import warnings
 import numpy as np
 import seekpath
 from seekpath.hpkot import SymmetryDetectionError
+import spglib
 from pint import UndefinedUnitError
 
 from euphonic import ureg, Quantity
@@ -563,6 +564,7 @@ def _recip_space_labels(qpts: np.ndarray,
             [True]))
     qpts_with_labels = np.where(qpt_has_label)[0]
 
+    rotations = np.eye(3)[np.newaxis]
     if cell is None:
         sym_label_to_coords = _generic_qpt_labels()
     else:
@@ -572,6 +574,7 @@ def _recip_space_labels(qpts: np.ndarray,
                 # don't care to see those for now
                 warnings.simplefilter("ignore", category=DeprecationWarning)
                 sym_label_to_coords = seekpath.get_path(cell)["point_coords"]
+                rotations = spglib.get_symmetry(cell)["rotations"]
 
         except (SymmetryDetectionError, TypeError) as err:
             if isinstance(err, TypeError):
@@ -586,7 +589,8 @@ def _recip_space_labels(qpts: np.ndarray,
     # Get labels for each q-point
     labels = np.array([])
     for qpt in qpts[qpts_with_labels]:
-        labels = np.append(labels, _get_qpt_label(qpt, sym_label_to_coords))
+        labels = np.append(labels, _get_qpt_label(qpt, sym_label_to_coords,
+                                                  rotations))
 
     return labels, qpts_with_labels
 
@@ -611,7 +615,8 @@ def _generic_qpt_labels() -> dict[str, tuple[float, float, float]]:
 
 
 def _get_qpt_label(qpt: np.ndarray,
-                   point_labels: dict[str, tuple[float, float, float]]
+                   point_labels: dict[str, tuple[float, float, float]],
+                   rotations: np.ndarray
                    ) -> str:
     """
     Gets a label for a particular q-point, based on the high symmetry
@@ -627,6 +632,9 @@ def _get_qpt_label(qpt: np.ndarray,
         (e.g. 'GAMMA', 'X'), to their 3-dimensional coordinates (e.g.
         [0.0, 0.0, 0.0]) where N = number of high symmetry points for a
         particular space group
+    rotations
+        Shape (n_ops, 3, 3) ndarray. The rotation matrices of the space
+        group, for fractional coordinates in real space
 
     Returns
     -------
@@ -646,13 +654,21 @@ def _get_qpt_label(qpt: np.ndarray,
     # same order (not guaranteed if using .values() function)
     label_coords = np.array([point_labels[x] for x in labels])
 
+    # The q-points that are equivalent by symmetry or time reversal
+    equivalent_qpts = np.einsum('i,kij->kj', qpt, rotations)
+    equivalent_qpts = np.concatenate((equivalent_qpts, -equivalent_qpts))
+
     # Check for matching symmetry point coordinates (roll q-point
-    # coordinates if no match is found). Symmetry points may themselves
-    # be outside [0,1)
+    # coordinates if no match is found, if that is an equivalent point).
+    # Symmetry points may themselves be outside [0,1)
     for coords in (label_coords, label_coords - np.floor(label_coords + TOL)):
         for roll in range(3):
+            qpt_roll = np.roll(qpt_norm, roll)
+            diff = equivalent_qpts - qpt_roll
+            if not (np.abs(diff - np.rint(diff)) < TOL).all(axis=1).any():
+                continue
             matching_label_index = np.where((np.isclose(
-                coords, np.roll(qpt_norm, roll), atol=TOL)).all(axis=1))[0]
+                coords, qpt_roll, atol=TOL)).all(axis=1))[0]
             if matching_label_index.size > 0:
                 break
         if matching_label_index.size > 0:
-- 
2.43.0


From 66a3f42be5617777c42992fcb5f8472a51358c23 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:47:57 +0000
Subject: [PATCH 43/63] fix: .phonon_dos files with one bin could not be read

---
 euphonic/readers/castep.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/euphonic/readers/castep.py b/euphonic/readers/castep.py
index 2e150c5..a88a525 100644
--- a/euphonic/readers/castep.py
+++ b/euphonic/readers/castep.py
@@ -71,7 +71,7 @@ def read_phonon_dos_data(
             raise RuntimeError(
                 f'Expected "BEGIN DOS" in {filename}, got {line}')
 
-        dos_data = np.loadtxt(f, max_rows=n_bins)
+        dos_data = np.loadtxt(f, max_rows=n_bins, ndmin=2)
 
     data_dict: Dict[str, Any] = {}
     cry_dict = data_dict['crystal'] = {}
-- 
2.43.0


From a08e5a1b4462020f06f65eaed167c81922b3b08c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:47:57 +0000
Subject: [PATCH 44/63] fix: q-point number was missing in message about
 several non-split blocks

---
 euphonic/readers/castep.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/euphonic/readers/castep.py b/euphonic/readers/castep.py
index a88a525..b5e4468 100644
--- a/euphonic/readers/castep.py
+++ b/euphonic/readers/castep.py
@@ -241,7 +241,7 @@ def read_phonon_data(
                 weights[indices] = 0
             else:
                 raise ValueError(
-                    "Found multiple non-split blocks for q-point {qpt_id},"
+                    f"Found multiple non-split blocks for q-point {qpt_id},"
                     " cannot determine which to use.")
 
         elif average_repeat_points:
-- 
2.43.0


From a476136bcf2b6fafe5a70f7751e0f919baa04586 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:12:50 +0000
Subject: [PATCH 45/63] fix: Phonopy supercells with a non-symmetric
 supercell_matrix were read as their transpose

---
 euphonic/readers/phonopy.py | 19 ++++++-------------
 1 file changed, 6 insertions(+), 13 deletions(-)

diff --git a/euphonic/readers/phonopy.py b/euphonic/readers/phonopy.py
index b1b0bc9..5a33e00 100644
--- a/euphonic/readers/phonopy.py
+++ b/euphonic/readers/phonopy.py
@@ -516,21 +516,14 @@ def _extract_summary(filename: str, fc_extract: bool = False
     summary_dict['atom_mass'] = atom_mass
 
     if fc_extract:
-        # Get matrix to convert from primitive cell to unit cell
-        u_to_sc_matrix = np.array(summary_object['supercell_matrix'])
-        if 'primitive_matrix' in summary_object:
-            u_to_p_matrix = np.array(summary_object['primitive_matrix'])
-            # Matrix to convert from primitive to supercell
-            p_to_u_matrix = np.linalg.inv(u_to_p_matrix).transpose()
-            p_to_sc_matrix = np.rint(
-                np.matmul(u_to_sc_matrix, p_to_u_matrix)).astype(np.int32)
-        else:
-            u_to_p_matrix = np.identity(3, dtype=np.int32)
-            p_to_sc_matrix = u_to_sc_matrix
-
         # Get supercell info
-        _, _, satom_r, _, _, sc_idx_in_pc = _extract_crystal_data(
+        sc_vectors, _, satom_r, _, _, sc_idx_in_pc = _extract_crystal_data(
             summary_object['supercell'])
+        # Get matrix to convert from primitive cell to supercell, so that
+        # sc_vectors = p_to_sc_matrix.cell_vectors. Note that in Phonopy's
+        # supercell_matrix and primitive_matrix the vectors are columns
+        p_to_sc_matrix = np.rint(
+            np.matmul(sc_vectors, np.linalg.inv(cell_vectors))).astype(np.int32)
         # Coords of supercell atoms in frac coords of the prim cell
         satom_r_pcell = np.einsum('ij,jk->ik', satom_r, p_to_sc_matrix)
         # Determine mapping from atoms in the supercell to the prim cell
-- 
2.43.0


From 27dc3abab8bf2baf744a16c5b1c777dcd62b83f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:12:50 +0000
Subject: [PATCH 46/63] fix: Phonopy force constants belonged to other cells
 than the normalised atom positions

---
 euphonic/readers/phonopy.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/euphonic/readers/phonopy.py b/euphonic/readers/phonopy.py
index 5a33e00..2df16fb 100644
--- a/euphonic/readers/phonopy.py
+++ b/euphonic/readers/phonopy.py
@@ -756,7 +756,7 @@ def read_interpolation_data(
     cry_dict['atom_mass_unit'] = atom_mass_unit
 
     fc, cell_origins = convert_fc_phases(
-         summary_dict['force_constants'], summary_dict['atom_r'],
+         summary_dict['force_constants'], cry_dict['atom_r'],
          summary_dict['sc_atom_r'], summary_dict['pc_to_sc_atom_idx'],
          summary_dict['sc_to_pc_atom_idx'], summary_dict['sc_matrix'])
     data_dict['force_constants'] = fc*ureg(
-- 
2.43.0


From 8e6843411dc247714dee97a5ff6a582b68d8845c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:12:50 +0000
Subject: [PATCH 47/63] fix: Phonopy force constants files with extension h5 or
 hd5 were not recognised

---
 euphonic/readers/phonopy.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/euphonic/readers/phonopy.py b/euphonic/readers/phonopy.py
index 2df16fb..574f09a 100644
--- a/euphonic/readers/phonopy.py
+++ b/euphonic/readers/phonopy.py
@@ -706,7 +706,7 @@ def read_interpolation_data(
             with open(fc_pathname, 'r') as fc_file:
                 summary_dict['force_constants'] = _extract_force_constants(
                     fc_pathname, n_atoms, n_cells, summary_pathname)
-        elif fc_format in 'hdf5':
+        elif fc_format in ('hdf5', 'hd5', 'h5'):
             summary_dict['force_constants'] =  _extract_force_constants_hdf5(
                 fc_pathname, n_atoms, n_cells, summary_pathname)
         else:
-- 
2.43.0


From e578ebe5b397120c854b8044765a91ae985956f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:12:50 +0000
Subject: [PATCH 48/63] fix: atoms of Phonopy supercells without reduced_to
 were off by one

---
 euphonic/readers/phonopy.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/euphonic/readers/phonopy.py b/euphonic/readers/phonopy.py
index 574f09a..57b779f 100644
--- a/euphonic/readers/phonopy.py
+++ b/euphonic/readers/phonopy.py
@@ -622,7 +622,8 @@ def _extract_crystal_data(crystal: Dict[str, Any]
             idx_in_pcell[i] = crystal['points'][i]['reduced_to']
     else:
         # If reduced_to isn't present it is already the primitive cell
-        idx_in_pcell = np.arange(n_atoms, dtype=np.int32)
+        # (indices start from 1, as in reduced_to)
+        idx_in_pcell = np.arange(1, n_atoms + 1, dtype=np.int32)
 
     return cell_vectors, n_atoms, atom_r, atom_mass, atom_type, idx_in_pcell
 
-- 
2.43.0


From ea56e1e39afb67b8a1c15057e382629015cfadb3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:12:50 +0000
Subject: [PATCH 49/63] fix: empty lines at the end of BORN files were taken
 for charges

---
 euphonic/readers/phonopy.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/euphonic/readers/phonopy.py b/euphonic/readers/phonopy.py
index 57b779f..7909e38 100644
--- a/euphonic/readers/phonopy.py
+++ b/euphonic/readers/phonopy.py
@@ -424,8 +424,8 @@ def _extract_born(born_file_obj: TextIO) -> Dict[str, Union[float, np.ndarray]]:
     born_lines_str = born_file_obj.readlines()
     born_lines: List[List[float]] = []
     for line in born_lines_str:
-        # Ignore comments
-        if line.startswith('#'):
+        # Ignore comments and empty lines
+        if line.startswith('#') or not line.strip():
             pass
         else:
             born_lines.append([float(x) for x in line.split()])
-- 
2.43.0


From 67b3f5646bfe24d36364b01eb50d715b2512f452 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:13:07 +0000
Subject: [PATCH 50/63] fix: Phonopy supercells could not be read if atoms are
 more than one supercell apart

---
 euphonic/util.py | 21 +++++++++------------
 1 file changed, 9 insertions(+), 12 deletions(-)

diff --git a/euphonic/util.py b/euphonic/util.py
index 51de1cd..bc68eb8 100644
--- a/euphonic/util.py
+++ b/euphonic/util.py
@@ -389,9 +389,7 @@ def convert_fc_phases(force_constants: np.ndarray, atom_r: np.ndarray,
     # origins for atoms 1..n onto the equivalent cell origins for
     # atom 0, so the same cell origins can be used for all atoms
     cell_origins_map = np.zeros((n_atoms_sc), dtype=np.int32)
-    # Get origins of adjacent supercells in prim cell frac coords
-    sc_origins = get_all_origins((2, 2, 2), min_xyz=(-1, -1, -1))
-    sc_origins_pcell = np.einsum('ij,jk->ik', sc_origins, sc_matrix)
+    inv_sc_matrix = np.linalg.inv(sc_matrix)
     for i in range(n_atoms_sc):
         co_idx = np.where(
             (cell_origins_per_atom[i] == cell_origins).all(axis=1))[0]
@@ -399,18 +397,17 @@ def convert_fc_phases(force_constants: np.ndarray, atom_r: np.ndarray,
         if len(co_idx) == 1:
             co_idx = co_idx[0]
         else:
-            # Get equivalent cell origin in surrounding supercells
-            origin_in_scs = cell_origins_per_atom[i] - sc_origins_pcell
-
-            # Find which of the 'unique' cell origins is equivalent
-            for j, cell_origin in enumerate(cell_origins):
-                if np.any((origin_in_scs == cell_origin).all(axis=1)):
-                    co_idx = j
-                    break
-            else:
+            # Find which of the 'unique' cell origins is equivalent, so
+            # differs by a whole number of supercell vectors
+            sc_diff = np.matmul(cell_origins_per_atom[i] - cell_origins,
+                                inv_sc_matrix)
+            co_idx = np.where((np.abs(
+                sc_diff - np.rint(sc_diff)) < 1e-6).all(axis=1))[0]
+            if len(co_idx) != 1:
                 raise ValueError(
                     "Couldn't determine cell origins for "
                     "force constants matrix")
+            co_idx = co_idx[0]
         cell_origins_map[i] = co_idx
 
     if force_constants.shape[0] == force_constants.shape[1]:
-- 
2.43.0


From 54e5f996a89d765c77166e05747dd1ad58b6098b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:39:02 +0000
Subject: [PATCH 51/63] fix: images of atoms more than two supercells away were
 not found, giving random force constants

---
 euphonic/force_constants.py | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/euphonic/force_constants.py b/euphonic/force_constants.py
index d6467c1..9545d31 100644
--- a/euphonic/force_constants.py
+++ b/euphonic/force_constants.py
@@ -545,7 +545,15 @@ class ForceConstants:
             split_idx = np.array([])
             q_dirs = np.array([])
 
-        n_sc_shells = 2  # How many supercells out to search for atom images
+        # How many supercells out to search for atom images. Usually 2 are
+        # enough, but some cell origins may be further away
+        sc_frac = np.einsum(
+            'ijk,kl->ijl',
+            (self.cell_origins - self.cell_origins[0])[:, np.newaxis]
+            + (self.crystal.atom_r[:, np.newaxis]
+               - self.crystal.atom_r).reshape(1, -1, 3),
+            np.linalg.inv(self.sc_matrix))
+        n_sc_shells = max(2, 1 + int(np.floor(np.abs(sc_frac).max() + 0.51)))
         # Construct list of supercell atom images, unless there already is
         # one that was made for this structure
         image_inputs = [
-- 
2.43.0


From bcc3ecce7f3604eff0b99afc7394b3a481c066be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:40:40 +0000
Subject: [PATCH 52/63] fix: band structures were split at both ends of short
 segments

---
 euphonic/cli/utils.py | 30 +++++++++++++-----------------
 1 file changed, 13 insertions(+), 17 deletions(-)

diff --git a/euphonic/cli/utils.py b/euphonic/cli/utils.py
index 4dd3628..b462b66 100644
--- a/euphonic/cli/utils.py
+++ b/euphonic/cli/utils.py
@@ -256,22 +256,12 @@ def _get_break_points(bandpath: dict) -> List[int]:
     break_points
         Indices at which the spectrum should be split into subplots
     """
-    # Find break points between continuous spectra: wherever there are two
-    # adjacent labels
-    labels = np.array(bandpath["explicit_kpoints_labels"])
-
-    special_point_bools = np.fromiter(
-        map(bool, labels), dtype=bool)
-
-    # [T F F T T F T] -> [F F T T F T] AND [T F F T T F] = [F F F T F F] -> 3,
-    adjacent_non_empty_labels = np.logical_and(special_point_bools[:-1],
-                                               special_point_bools[1:])
-
-    adjacent_different_labels = (labels[:-1] != labels[1:])
-
-    break_points = np.where(np.logical_and(adjacent_non_empty_labels,
-                                           adjacent_different_labels))[0]
-    return (break_points + 1).tolist()
+    # Consecutive segments of a continuous path have a point in common.
+    # (Adjacent labels do not imply a break: these could be the ends of a
+    # short segment)
+    segments = bandpath["explicit_segments"]
+    return [int(start) for (_, previous_stop), (start, _)
+            in zip(segments[:-1], segments[1:]) if start == previous_stop]
 
 
 def _insert_gamma(bandpath: dict) -> None:
@@ -289,6 +279,13 @@ def _insert_gamma(bandpath: dict) -> None:
         rel_kpts.insert(i, [0., 0., 0.])
         labels.insert(i, 'GAMMA')
 
+    def _new_index(i: int) -> int:
+        return int(i + np.count_nonzero(gamma_indices < i))
+
+    bandpath['explicit_segments'] = [
+        (_new_index(start), _new_index(stop - 1) + 1)
+        for start, stop in bandpath['explicit_segments']]
+
     bandpath['explicit_kpoints_rel'] = np.array(rel_kpts)
     bandpath['explicit_kpoints_labels'] = labels
 
@@ -296,7 +293,6 @@ def _insert_gamma(bandpath: dict) -> None:
     # to leave None than incorrect values
     bandpath['explicit_kpoints_abs'] = None
     bandpath['explicit_kpoints_linearcoord'] = None
-    bandpath['explicit_segments'] = None
 
 
 XTickLabels = List[Tuple[int, str]]
-- 
2.43.0


From 20dfac9267275c4e71f690a02fe602c82c250e16 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:40:40 +0000
Subject: [PATCH 53/63] fix: Gamma points next to a break of a band path were
 inserted twice, once with the wrong limit

---
 euphonic/cli/utils.py | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/euphonic/cli/utils.py b/euphonic/cli/utils.py
index b462b66..ed8a34c 100644
--- a/euphonic/cli/utils.py
+++ b/euphonic/cli/utils.py
@@ -270,11 +270,16 @@ def _insert_gamma(bandpath: dict) -> None:
     This enables LO-TO splitting to be included
     """
     import numpy as np
-    gamma_indices = np.where(np.array(bandpath['explicit_kpoints_labels'][1:-1]
-                                      ) == 'GAMMA')[0] + 1
-
     rel_kpts = bandpath['explicit_kpoints_rel'].tolist()
     labels = bandpath['explicit_kpoints_labels']
+    # Gamma only has two limits where the path goes through it: not at the
+    # first or last point of the path, or next to a break
+    segments = bandpath['explicit_segments']
+    gamma_indices = np.array(
+        [start for (_, previous_stop), (start, _)
+         in zip(segments[:-1], segments[1:])
+         if start == previous_stop - 1 and labels[start] == 'GAMMA'],
+        dtype=int)
     for i in reversed(gamma_indices.tolist()):
         rel_kpts.insert(i, [0., 0., 0.])
         labels.insert(i, 'GAMMA')
-- 
2.43.0


From 2d654ac419e6d55c7cf6bbe9260db7f819fd8645 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:40:40 +0000
Subject: [PATCH 54/63] fix: intensity-map ignored all but the first
 coefficient of --energy-broadening

---
 euphonic/cli/intensity_map.py | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/euphonic/cli/intensity_map.py b/euphonic/cli/intensity_map.py
index 3256489..326c705 100755
--- a/euphonic/cli/intensity_map.py
+++ b/euphonic/cli/intensity_map.py
@@ -15,6 +15,7 @@ from .utils import (_bands_from_force_constants, _calc_modes_kwargs,
                     _get_energy_bins, _get_q_distance,
                     _get_cli_parser, load_data_from_file,
                     matplotlib_save_or_show)
+from .powder_map import _get_broaden_kwargs
 
 
 def main(params: Optional[List[str]] = None) -> None:
@@ -72,11 +73,11 @@ def main(params: Optional[List[str]] = None) -> None:
 
     if args.q_broadening or args.energy_broadening:
         spectrum = spectrum.broaden(
-            x_width=(args.q_broadening * recip_length_unit
-                     if args.q_broadening else None),
-            y_width=(args.energy_broadening[0] * ebins.units
-                     if args.energy_broadening else None),
-            shape=args.shape, method='convolve')
+            shape=args.shape, method='convolve',
+            **_get_broaden_kwargs(q_broadening=args.q_broadening,
+                                  q_unit=recip_length_unit,
+                                  energy_broadening=args.energy_broadening,
+                                  energy_unit=args.energy_unit))
 
     print("Plotting figure")
     plot_label_kwargs = _plot_label_kwargs(
-- 
2.43.0


From 65b3e09069eee274154773d9510a614e6d1f6c7f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:40:40 +0000
Subject: [PATCH 55/63] fix: the FWHM of --instrument-broadening was used as
 standard deviation with --adaptive

---
 euphonic/cli/dos.py | 15 ++++++++-------
 1 file changed, 8 insertions(+), 7 deletions(-)

diff --git a/euphonic/cli/dos.py b/euphonic/cli/dos.py
index 7933932..b4b6d34 100644
--- a/euphonic/cli/dos.py
+++ b/euphonic/cli/dos.py
@@ -2,7 +2,7 @@ from argparse import ArgumentParser
 from typing import List, Optional
 
 import matplotlib.style
-from numpy import sqrt
+from numpy import log, sqrt
 from numpy.polynomial import Polynomial
 
 from euphonic import ureg, ForceConstants, QpointFrequencies
@@ -74,12 +74,13 @@ def main(params: Optional[List[str]] = None) -> None:
             if args.inst_broadening and args.shape == 'gauss':
                 # Combine instrumental broadening and adaptive sample
                 # broadening: the convolution of a Gaussian with a Gaussian is
-                # a Gaussian with sigma = sqrt(sigma1^2 + sigma2^2)
-                mode_widths = sqrt(
-                    mode_widths**2
-                    + (energy_broadening_poly(modes.frequencies
-                                              .to(args.energy_unit).magnitude
-                                              ) * ureg(args.energy_unit))**2)
+                # a Gaussian with sigma = sqrt(sigma1^2 + sigma2^2).
+                # (Instrumental broadening is given as FWHM)
+                inst_sigma = (energy_broadening_poly(modes.frequencies
+                                                     .to(args.energy_unit)
+                                                     .magnitude)
+                              * ureg(args.energy_unit) / sqrt(8 * log(2)))
+                mode_widths = sqrt(mode_widths**2 + inst_sigma**2)
         else:
             modes = data.calculate_qpoint_phonon_modes(
                 mp_grid(grid_spec), **_calc_modes_kwargs(args))
-- 
2.43.0


From 6f8fb9f2b0096fbd546b89eeec932960138507c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:40:40 +0000
Subject: [PATCH 56/63] fix: --adaptive with --instrument-broadening failed if
 --energy-unit is a frequency or wavenumber

---
 euphonic/cli/dos.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/euphonic/cli/dos.py b/euphonic/cli/dos.py
index b4b6d34..1c3c438 100644
--- a/euphonic/cli/dos.py
+++ b/euphonic/cli/dos.py
@@ -80,7 +80,8 @@ def main(params: Optional[List[str]] = None) -> None:
                                                      .to(args.energy_unit)
                                                      .magnitude)
                               * ureg(args.energy_unit) / sqrt(8 * log(2)))
-                mode_widths = sqrt(mode_widths**2 + inst_sigma**2)
+                mode_widths = sqrt(
+                    mode_widths.to(args.energy_unit)**2 + inst_sigma**2)
         else:
             modes = data.calculate_qpoint_phonon_modes(
                 mp_grid(grid_spec), **_calc_modes_kwargs(args))
-- 
2.43.0


From d97bb605b5b2a5b0800bb12eca9e20a6d2bbdea2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:40:40 +0000
Subject: [PATCH 57/63] fix: plot_1d cut off data outside of the y-range of the
 first subplot

---
 euphonic/plot.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/euphonic/plot.py b/euphonic/plot.py
index 7b42724..1062bf5 100644
--- a/euphonic/plot.py
+++ b/euphonic/plot.py
@@ -182,6 +182,9 @@ def plot_1d(spectra: Union[Spectrum1D,
             leg_handles, leg_labels = ax.get_legend_handles_labels()
             if len(leg_labels) > 0:
                 ax.legend()
+
+    # This turns autoscaling off, so all data should have been plotted
+    for ax in subplots.flatten():
         ax.set_ylim(bottom=ymin, top=ymax)
 
     # Add an invisible large axis for common labels
-- 
2.43.0


From 6331210c5d715c8a532556c728e39327d091ed80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:40:40 +0000
Subject: [PATCH 58/63] fix: spectra with an empty list of x_tick_labels, as
 obtained by splitting, could not be plotted

---
 euphonic/plot.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/euphonic/plot.py b/euphonic/plot.py
index 1062bf5..3d3891a 100644
--- a/euphonic/plot.py
+++ b/euphonic/plot.py
@@ -331,12 +331,13 @@ def _set_x_tick_labels(ax: Axes,
                        x_tick_labels: Optional[Sequence[Tuple[int, str]]],
                        x_data: Quantity) -> None:
     if x_tick_labels is not None:
-        locs, labels = [list(x) for x in zip(*x_tick_labels)]
+        locs = [loc for loc, _ in x_tick_labels]
+        labels = [label for _, label in x_tick_labels]
         x_values = x_data.magnitude  # type: np.ndarray
         ax.set_xticks(x_values[locs])
 
         # Rotate long tick labels
-        if len(max(labels, key=len)) >= 11:
+        if max(map(len, labels), default=0) >= 11:
             ax.set_xticklabels(labels, rotation=90)
         else:
             ax.set_xticklabels(labels)
-- 
2.43.0


From eac120ff64a50f10837f51dd34b93863ae476ffd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:40:40 +0000
Subject: [PATCH 59/63] fix: plot_2d drew spectra in different units with
 different axes and colour scales

---
 euphonic/plot.py | 15 +++++++++++++++
 1 file changed, 15 insertions(+)

diff --git a/euphonic/plot.py b/euphonic/plot.py
index 3d3891a..609f784 100644
--- a/euphonic/plot.py
+++ b/euphonic/plot.py
@@ -287,6 +287,9 @@ def plot_2d(spectra: Union[Spectrum2D, Sequence[Spectrum2D]],
     if isinstance(spectra, Spectrum2D):
         spectra = [spectra]
 
+    # All subplots share a y-axis and a colour scale
+    spectra = [_to_units_of(spectra[0], spectrum) for spectrum in spectra]
+
     x_unit = spectra[0].x_data.units
 
     def _get_q_range(data: Quantity) -> float:
@@ -327,6 +330,18 @@ def plot_2d(spectra: Union[Spectrum2D, Sequence[Spectrum2D]],
     return fig
 
 
+def _to_units_of(reference: Spectrum2D, spectrum: Spectrum2D) -> Spectrum2D:
+    """Get spectrum in the same units as reference"""
+    units = ('x_data_unit', 'y_data_unit', 'z_data_unit')
+    if all(getattr(spectrum, unit) == getattr(reference, unit)
+           for unit in units):
+        return spectrum
+    spectrum = spectrum.copy()
+    for unit in units:
+        setattr(spectrum, unit, getattr(reference, unit))
+    return spectrum
+
+
 def _set_x_tick_labels(ax: Axes,
                        x_tick_labels: Optional[Sequence[Tuple[int, str]]],
                        x_data: Quantity) -> None:
-- 
2.43.0


From 719db3d367ac7f1f6d72d3522bd0263423affd94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:40:40 +0000
Subject: [PATCH 60/63] fix: plot_2d cut off data outside of the y-range of the
 last subplot

---
 euphonic/plot.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/euphonic/plot.py b/euphonic/plot.py
index 609f784..f8c47a5 100644
--- a/euphonic/plot.py
+++ b/euphonic/plot.py
@@ -315,8 +315,13 @@ def plot_2d(spectra: Union[Spectrum2D, Sequence[Spectrum2D]],
 
     norm = Normalize(vmin=vmin, vmax=vmax)
 
+    y_limits = []
     for spectrum, ax in zip(spectra, axes.flatten()):
         plot_2d_to_axis(spectrum, ax, cmap=cmap, norm=norm)
+        y_limits.append(ax.get_ylim())
+    # The y-axis is shared
+    axes[0, 0].set_ylim(min(bottom for bottom, _ in y_limits),
+                        max(top for _, top in y_limits))
 
     # Add an invisible large axis for common labels
     ax = fig.add_subplot(111, frameon=False)
-- 
2.43.0


From dcd357d2f2374d9864d062f2b2f6d5f06256e337 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:24:27 +0000
Subject: [PATCH 61/63] fix: plot_2d had no colour scale if one of several
 spectra had no values at all

---
 euphonic/plot.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/euphonic/plot.py b/euphonic/plot.py
index f8c47a5..f2ae0f6 100644
--- a/euphonic/plot.py
+++ b/euphonic/plot.py
@@ -309,9 +309,9 @@ def plot_2d(spectra: Union[Spectrum2D, Sequence[Spectrum2D]],
         return np.nanmin(dimensionless_data), np.nanmax(dimensionless_data)
     min_z_list, max_z_list = zip(*map(_get_minmax_intensity, spectra))
     if vmin is None:
-        vmin = min(min_z_list)
+        vmin = np.nanmin(min_z_list)
     if vmax is None:
-        vmax = max(max_z_list)
+        vmax = np.nanmax(max_z_list)
 
     norm = Normalize(vmin=vmin, vmax=vmax)
 
-- 
2.43.0


From c18cf6841c448764dcac96db05405206c9619a50 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:30:27 +0000
Subject: [PATCH 62/63] fix: get_reference_data left out whole numbers, e.g.
 incoherent cross sections of Sm, Th, Xe and Yb in BlueBook

---
 euphonic/util.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/euphonic/util.py b/euphonic/util.py
index bc68eb8..df2ea99 100644
--- a/euphonic/util.py
+++ b/euphonic/util.py
@@ -257,6 +257,10 @@ def get_reference_data(collection: str = 'Sears1992',
             f'Units "{unit_str}" from data file "{filename}" '
             'are not supported by the Euphonic unit register.') from exc
 
+    # Whole numbers are data too, JSON does not distinguish them from floats
+    data = {key: float(value) if type(value) is int else value
+            for key, value in data.items()}
+
     return {key: value * unit
             for key, value in data.items()
             if isinstance(value, (float, complex))}
-- 
2.43.0


From f3693568c67ffb7bd87342600e03b0e9b291aacd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:30:27 +0000
Subject: [PATCH 63/63] fix: the docstring of get_reference_data named the key
 of data files wrongly

---
 euphonic/util.py | 20 ++++++++++----------
 1 file changed, 10 insertions(+), 10 deletions(-)

diff --git a/euphonic/util.py b/euphonic/util.py
index df2ea99..0914241 100644
--- a/euphonic/util.py
+++ b/euphonic/util.py
@@ -182,15 +182,15 @@ def get_reference_data(collection: str = 'Sears1992',
     structure::
 
       {"metadata1": "metadata1 text", "metadata2": ...,
-       "physical_properties": {"property1": {"__units__": "unit_str",
-                                             "H": H_property1_value,
-                                             "He": He_property1_value,
-                                             "Li": {"__complex__": true,
-                                                    "real": Li_property1_real,
-                                                    "imag": Li_property1_imag},
-                                             "Nh": None,
-                                             ...},
-                               "property2": ...}}
+       "physical_property": {"property1": {"__units__": "unit_str",
+                                           "H": H_property1_value,
+                                           "He": He_property1_value,
+                                           "Li": {"__complex__": true,
+                                                  "real": Li_property1_real,
+                                                  "imag": Li_property1_imag},
+                                           "Nh": null,
+                                           ...},
+                             "property2": ...}}
 
     Parameters
     ----------
@@ -200,7 +200,7 @@ def get_reference_data(collection: str = 'Sears1992',
 
     physical_property
         The name of the property for which data should be extracted. This must
-        match an entry of "physical_properties" in the data file.
+        match an entry of "physical_property" in the data file.
 
     Returns
     -------
-- 
2.43.0

