From 9100528943e2bc7a7efdd74dfa110ff38bcca584 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:37:59 +0000
Subject: [PATCH 01/38] fix: make q-direction search variables private to each
 OpenMP thread

The loop counter and position used to find the LO-TO q-direction were
declared outside the parallel region so were shared between threads; two
threads processing gamma-points at the same time could pick each other's
q-direction.
---
 c/_euphonic.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/c/_euphonic.c b/c/_euphonic.c
index 84ce901..a5a153b 100644
--- a/c/_euphonic.c
+++ b/c/_euphonic.c
@@ -86,7 +86,7 @@ static PyObject *calculate_phonons(PyObject *self, PyObject *args) {
     int modegs_len;
     int asr_corr_len;
     int n_split_qpts;
-    int q, i, qpos;
+    int q;
     int max_ims;
     int dmat_elems;
     // Extra vars only required if dipole = True
@@ -254,7 +254,7 @@ static PyObject *calculate_phonons(PyObject *self, PyObject *args) {
             // Calculate non-analytical correction for LO-TO splitting
             if (splitting && is_gamma(qpt)) {
                 // Find q-direction for this q-point
-                qpos = -1;
+                int i, qpos = -1;
                 for (i = 0; i < n_split_qpts; i++) {
                     if (split_idx[i] == q) {
                         qpos = i;
-- 
2.43.0


From 38bf4b5a52a24dffa9703ccfcdb6becbbc0addd3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:37:59 +0000
Subject: [PATCH 02/38] fix: raise an error if diagonalisation fails in the C
 extension

The status returned from zheevd was ignored, so non-converged eigenvalues
and eigenvectors were returned as if they were correct. The Python
implementation raises in the same situation.
---
 c/_euphonic.c | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/c/_euphonic.c b/c/_euphonic.c
index a5a153b..d2e7c35 100644
--- a/c/_euphonic.c
+++ b/c/_euphonic.c
@@ -87,6 +87,7 @@ static PyObject *calculate_phonons(PyObject *self, PyObject *args) {
     int asr_corr_len;
     int n_split_qpts;
     int q;
+    int diag_info = 0;
     int max_ims;
     int dmat_elems;
     // Extra vars only required if dipole = True
@@ -267,7 +268,11 @@ static PyObject *calculate_phonons(PyObject *self, PyObject *args) {
             }
 
             mass_weight_dyn_mat(dmat_weighting, n_atoms, 2, dmat);
-            diagonalise_dyn_mat_zheevd(n_atoms, qpt, dmat, eval, zheevd);
+            if (diagonalise_dyn_mat_zheevd(n_atoms, qpt, dmat, eval, zheevd)) {
+                // Can't raise a Python exception in the parallel region
+                #pragma omp atomic write
+                diag_info = 1;
+            }
             evals_to_freqs(n_atoms, eval);
 
             if (calc_dmat_grad) {
@@ -300,6 +305,12 @@ static PyObject *calculate_phonons(PyObject *self, PyObject *args) {
         Py_DECREF(py_dipole_init_data);
     }
 
+    if (diag_info) {
+        PyErr_Format(PyExc_RuntimeError,
+                     "Diagonalisation of a dynamical matrix failed\n");
+        return NULL;
+    }
+
     Py_RETURN_NONE;
 }
 
-- 
2.43.0


From dc5c2272c13bc07e2db073bb23929d19b3b751d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:37:59 +0000
Subject: [PATCH 03/38] fix: don't use uninitialised objects if an attribute or
 key is missing

The C helpers reading ints and doubles ignored the failure of the lookup
and went on to use the uninitialised result.
---
 c/py_util.c | 17 +++++++++++++----
 1 file changed, 13 insertions(+), 4 deletions(-)

diff --git a/c/py_util.c b/c/py_util.c
index 1e29fdd..d9f4c37 100644
--- a/c/py_util.c
+++ b/c/py_util.c
@@ -21,7 +21,9 @@ int double_from_pydict(PyDictObject *dict, const char *key, double *result) {
 /* Given a PyDictObject and key, read a double from that dict and store it in
    the address pointed to by result */
     PyObject *tmp;
-    val_from_pydict(dict, key, &tmp);
+    if (val_from_pydict(dict, key, &tmp)) {
+        return 1;
+    }
     if (PyFloat_Check(tmp)) {
         *result = (double) PyFloat_AsDouble(tmp);
     } else {
@@ -37,7 +39,10 @@ int attr_from_pyobj(PyObject *obj, const char *attr_name, PyObject **result) {
  * address */
     if (PyObject_HasAttrString(obj, attr_name)) {
         PyObject *tmp = PyObject_GetAttrString(obj, attr_name);
-        *result = tmp; 
+        if (!tmp) {
+            return 1;
+        }
+        *result = tmp;
     } else {
         printf("Object has no attr %s\n", attr_name);
         return 1;
@@ -49,7 +54,9 @@ int int_from_pyobj(PyObject *obj, const char *attr_name, int *result) {
 /* Given a PyObject and the name of one of its attributes, read an integer
  * from that attribute and store it in the address pointed to by result */
     PyObject *tmp;
-    attr_from_pyobj(obj, attr_name, &tmp);
+    if (attr_from_pyobj(obj, attr_name, &tmp)) {
+        return 1;
+    }
 #if PY_MAJOR_VERSION >= 3
     if (PyLong_Check(tmp)) {
         *result = (int) PyLong_AsLong(tmp);
@@ -69,7 +76,9 @@ int double_from_pyobj(PyObject *obj, const char *attr_name,
 /* Given a PyObject and the name of one of its attributes, read a double
  * from that attribute and store it in the address pointed to by result */
     PyObject *tmp;
-    attr_from_pyobj(obj, attr_name, &tmp);
+    if (attr_from_pyobj(obj, attr_name, &tmp)) {
+        return 1;
+    }
     if (PyFloat_Check(tmp)) {
         *result = (double) PyFloat_AsDouble(tmp);
     } else {
-- 
2.43.0


From aa7d9987fcac06a3bd5531b93d96144db493fd00 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:37:59 +0000
Subject: [PATCH 04/38] fix: release attribute references in the C int and
 double helpers

PyObject_GetAttrString returns a new reference, which was never released
after its value had been read.
---
 c/py_util.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/c/py_util.c b/c/py_util.c
index d9f4c37..8c2e05a 100644
--- a/c/py_util.c
+++ b/c/py_util.c
@@ -66,8 +66,10 @@ int int_from_pyobj(PyObject *obj, const char *attr_name, int *result) {
 #endif
     } else {
         printf("Incorrect type for %s\n", attr_name);
+        Py_DECREF(tmp);
         return 1;
     }
+    Py_DECREF(tmp);
     return 0;
 }
 
@@ -83,7 +85,9 @@ int double_from_pyobj(PyObject *obj, const char *attr_name,
         *result = (double) PyFloat_AsDouble(tmp);
     } else {
         printf("Incorrect type for %s\n", attr_name);
+        Py_DECREF(tmp);
         return 1;
     }
+    Py_DECREF(tmp);
     return 0;
 }
-- 
2.43.0


From e1aa544747dfc24e73e2d11f97e3eed2a79462d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:37:59 +0000
Subject: [PATCH 05/38] fix: release the GIL state and references if zheevd
 can't be loaded

---
 c/load_libs.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/c/load_libs.c b/c/load_libs.c
index 9c97356..f510ddd 100644
--- a/c/load_libs.c
+++ b/c/load_libs.c
@@ -16,12 +16,15 @@ ZheevdFunc get_zheevd() {
         PyObject *scipylinalg = PyImport_ImportModule("scipy.linalg.cython_lapack");
         if (!scipylinalg) {
             printf("Error: could not load the scipy.linalg module.");
+            PyGILState_Release(gstate);
             return NULL;
         }
         PyObject *pyx_capi = PyObject_GetAttrString(scipylinalg, "__pyx_capi__");
         if (!pyx_capi || !PyDict_Check(pyx_capi)) {
             printf("Error: could not load the C-api functions from scipy.linalg.");
+            Py_XDECREF(pyx_capi);
             Py_DECREF(scipylinalg);
+            PyGILState_Release(gstate);
             return NULL;
         }
         PyObject *zheevdcapsule = PyDict_GetItemString(pyx_capi, "zheevd");
@@ -29,6 +32,7 @@ ZheevdFunc get_zheevd() {
             printf("Error: could not load the zheevd function from the cython api.");
             Py_DECREF(scipylinalg);
             Py_DECREF(pyx_capi);
+            PyGILState_Release(gstate);
             return NULL;
         }
 
-- 
2.43.0


From 29e56dd39b7ebef390251e57f0d63ac2f2efb8ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:37:59 +0000
Subject: [PATCH 06/38] fix: release references if required attributes can't be
 read in C

---
 c/_euphonic.c | 35 +++++++++++++++++++++++------------
 1 file changed, 23 insertions(+), 12 deletions(-)

diff --git a/c/_euphonic.c b/c/_euphonic.c
index d2e7c35..8d703ee 100644
--- a/c/_euphonic.c
+++ b/c/_euphonic.c
@@ -33,14 +33,14 @@ static PyObject *calculate_phonons(PyObject *self, PyObject *args) {
     int n_threads = 1;
 
     // Define vars to be obtained from ForceConstants attributes
-    PyObject *py_crystal; // Crystal object
-    PyArrayObject *py_n_sc_ims;
-    PyArrayObject *py_sc_im_idx;
-    PyArrayObject *py_cell_ogs;
+    PyObject *py_crystal = NULL; // Crystal object
+    PyArrayObject *py_n_sc_ims = NULL;
+    PyArrayObject *py_sc_im_idx = NULL;
+    PyArrayObject *py_cell_ogs = NULL;
     // Extra vars only required if dipole = True
-    PyArrayObject *py_born;
-    PyArrayObject *py_dielectric;
-    PyDictObject *py_dipole_init_data;
+    PyArrayObject *py_born = NULL;
+    PyArrayObject *py_dielectric = NULL;
+    PyDictObject *py_dipole_init_data = NULL;
     double lambda;
     PyArrayObject *py_H_ab;
     PyArrayObject *py_dipole_cells;
@@ -50,7 +50,7 @@ static PyObject *calculate_phonons(PyObject *self, PyObject *args) {
 
     // Vars to be obtained from Crystal attributes
     int n_atoms;
-    PyArrayObject *py_atom_r;
+    PyArrayObject *py_atom_r = NULL;
 
     // Define pointers to Python array data
     double *cell_vec;
@@ -132,13 +132,13 @@ static PyObject *calculate_phonons(PyObject *self, PyObject *args) {
         attr_from_pyobj(py_idata, "cell_origins", &py_cell_ogs)) {
             PyErr_Format(PyExc_RuntimeError,
                          "Failed to read attributes from object\n");
-            return NULL;
+            goto fail;
     }
     if (dipole) {
         if (attr_from_pyobj(py_idata, "_dipole_init_data", &py_dipole_init_data)) {
                 PyErr_Format(PyExc_RuntimeError,
                              "Failed to read dipole init data from object\n");
-                return NULL;
+                goto fail;
         }
         if (attr_from_pyobj(py_idata, "_born", &py_born) ||
             attr_from_pyobj(py_idata, "_dielectric", &py_dielectric) ||
@@ -150,7 +150,7 @@ static PyObject *calculate_phonons(PyObject *self, PyObject *args) {
             val_from_pydict(py_dipole_init_data, "dipole_q0", &py_dipole_q0)) {
                 PyErr_Format(PyExc_RuntimeError,
                              "Failed to read dipole attributes from object\n");
-                return NULL;
+                goto fail;
         }
     }
     // Get vars from Crystal object
@@ -158,7 +158,7 @@ static PyObject *calculate_phonons(PyObject *self, PyObject *args) {
         attr_from_pyobj(py_crystal, "atom_r", &py_atom_r)) {
             PyErr_Format(PyExc_RuntimeError,
                          "Failed to read attributes from Crystal object\n");
-            return NULL;
+            goto fail;
     }
 
     // Point to Python array data
@@ -312,6 +312,17 @@ static PyObject *calculate_phonons(PyObject *self, PyObject *args) {
     }
 
     Py_RETURN_NONE;
+
+fail:
+    Py_XDECREF(py_crystal);
+    Py_XDECREF(py_n_sc_ims);
+    Py_XDECREF(py_sc_im_idx);
+    Py_XDECREF(py_cell_ogs);
+    Py_XDECREF(py_atom_r);
+    Py_XDECREF(py_born);
+    Py_XDECREF(py_dielectric);
+    Py_XDECREF(py_dipole_init_data);
+    return NULL;
 }
 
 static PyMethodDef _euphonic_methods[] = {
-- 
2.43.0


From f1932caeabf23cf79ff10142c32ee96274b3a2e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:40:15 +0000
Subject: [PATCH 07/38] fix: don't reuse supercell images, dipole or ASR data
 of changed inputs

Intermediate data is kept on the ForceConstants object between
calculations, but was used even if the crystal, force constants, born
charges, dielectric or supercell had been changed since, giving incorrect
phonons.
---
 euphonic/force_constants.py | 3798 ++++++++++++++++++-----------------
 1 file changed, 1914 insertions(+), 1884 deletions(-)

diff --git a/euphonic/force_constants.py b/euphonic/force_constants.py
index 252b595..1b653ec 100644
--- a/euphonic/force_constants.py
+++ b/euphonic/force_constants.py
@@ -1,1884 +1,1914 @@
-import math
-import os
-import sys
-import warnings
-from typing import (Literal, Optional, Tuple, Union,
-                    TypeVar, Sequence, Dict, Any, Type)
-from multiprocessing import cpu_count
-
-import numpy as np
-from pint import Quantity
-from scipy.special import erfc
-from threadpoolctl import threadpool_limits
-
-import euphonic
-from euphonic.validate import (
-    _check_constructor_inputs, _check_unit_conversion,
-    _ensure_contiguous_args, _ensure_contiguous_attrs)
-from euphonic.io import (_obj_to_json_file, _obj_from_json_file,
-                         _obj_to_dict, _process_dict)
-from euphonic.readers import castep, phonopy
-from euphonic.util import (is_gamma, get_all_origins,
-                           mode_gradients_to_widths,
-                           _get_supercell_relative_idx)
-from euphonic import (ureg, Crystal, QpointPhononModes,
-                      QpointFrequencies)
-
-
-class ImportCError(Exception):
-    pass
-
-
-class ForceConstants:
-    """
-    A class to read and store the data required for a phonon
-    interpolation calculation from model (e.g. CASTEP) output,
-    and calculate phonon frequencies/eigenvectors at arbitrary q-points
-    via Fourier interpolation
-
-    Attributes
-    ----------
-    crystal
-        Lattice and atom information
-    force_constants
-        Shape (n_cells_in_sc, 3*n_atoms, 3*n_atoms) float Quantity in
-        energy/length**2 units. The force constants matrix
-    sc_matrix
-        Shape (3, 3) int ndarray. The transformation matrix to convert
-        from the unit cell vectors to the supercell vectors
-    n_cells_in_sc
-        Number of cells in the supercell
-    cell_origins
-        Shape (n_cells_in_sc, 3) int ndarray. The origin coordinates of
-        each unit cell within the supercell, in units of the unit cell
-        vectors
-    born
-        Shape (n_atoms, 3, 3) float Quantity in charge units or None.
-        The Born charges for each atom
-    dielectric
-        Shape (3, 3) float Quantity in charge**2/(length*energy) units
-        or None. The dielectric permittivity tensor
-    """
-    T = TypeVar('T', bound='ForceConstants')
-
-    def __init__(self, crystal: Crystal, force_constants: Quantity,
-                 sc_matrix: np.ndarray, cell_origins: np.ndarray,
-                 born: Optional[Quantity] = None,
-                 dielectric: Optional[Quantity] = None) -> None:
-        """
-        Parameters
-        ----------
-        crystal
-            Lattice and atom information
-        force_constants
-            Shape (n_cells_in_sc, 3*n_atoms, 3*n_atoms) float Quantity
-            in energy/length**2 units. The force constants matrix
-        sc_matrix
-            Shape (3, 3) int ndarray. The transformation matrix to
-            convert from the unit cell vectors to the supercell vectors
-        cell_origins
-            Shape (n_cells_in_sc, 3) int ndarray. The origin
-            coordinates of each unit cell within the supercell, in
-            units of the unit cell vectors
-        born
-            Shape (n_atoms, 3, 3) float Quantity in charge units. The
-            Born charges for each atom
-        dielectric
-            Shape (3, 3) float Quantity in charge**2/(length*energy)
-            units. The dielectric permittivity tensor
-        """
-        # Check independent inputs first
-        _check_constructor_inputs(
-            [crystal, sc_matrix], [Crystal, np.ndarray], [(), (3, 3)],
-            ['crystal', 'sc_matrix'])
-        n_at = crystal.n_atoms
-        n_sc = int(np.rint(np.absolute(np.linalg.det(sc_matrix))))
-        # Now check other derived input shapes
-        _check_constructor_inputs(
-            [force_constants, cell_origins, born, dielectric],
-            [Quantity, np.ndarray, [Quantity, type(None)],
-                [Quantity, type(None)]],
-            [(n_sc, 3*n_at, 3*n_at), (n_sc, 3), (n_at, 3, 3), (3, 3)],
-            ['force_constants', 'cell_origins', 'born', 'dielectric'])
-        self.crystal = crystal
-        self._force_constants = force_constants.to(
-            'hartree/bohr**2').magnitude
-        self.force_constants_unit = str(force_constants.units)
-        self.sc_matrix = sc_matrix
-        self.cell_origins = cell_origins
-        self.n_cells_in_sc = n_sc
-
-        if born is not None:
-            self._born = born.to(ureg.e).magnitude
-            self.born_unit = str(born.units)
-            self._dielectric = dielectric.to(ureg(
-                'e**2/(bohr*hartree)')).magnitude
-            self.dielectric_unit = str(dielectric.units)
-        else:
-            self._born = born
-            self.born_unit = str(ureg.e)
-            self._dielectric = dielectric
-            self.dielectric_unit = str(ureg((
-                'e**2/(bohr*hartree)')))
-
-    @property
-    def force_constants(self) -> Quantity:
-        return self._force_constants*ureg(
-            'hartree/bohr**2').to(
-                self.force_constants_unit)
-
-    @force_constants.setter
-    def force_constants(self, value: Quantity) -> None:
-        self.force_constants_unit = str(value.units)
-        self._force_constants = value.to('hartree/bohr**2').magnitude
-
-    @property
-    def born(self) -> Union[Quantity, None]:
-        if self._born is not None:
-            return self._born*ureg('e').to(self.born_unit)
-        else:
-            return None
-
-    @born.setter
-    def born(self, value: Quantity) -> None:
-        self.born_unit = str(value.units)
-        self._born = value.to('e').magnitude
-
-    @property
-    def dielectric(self) -> Union[Quantity, None]:
-        if self._dielectric is not None:
-            return self._dielectric*ureg((
-                'e**2/(bohr*hartree)')).to(self.dielectric_unit)
-        else:
-            return None
-
-    @dielectric.setter
-    def dielectric(self, value: Quantity) -> None:
-        self.dielectric_unit = str(value.units)
-        self._dielectric = value.to('e**2/(bohr*hartree)').magnitude
-
-    def __setattr__(self, name: str, value: Any) -> None:
-        _check_unit_conversion(self, name, value,
-                               ['force_constants_unit', 'born_unit',
-                                'dielectric_unit'])
-        super(ForceConstants, self).__setattr__(name, value)
-
-    def calculate_qpoint_phonon_modes(
-            self,
-            qpts: np.ndarray,
-            weights: Optional[np.ndarray] = None,
-            asr: Optional[Literal['realspace', 'reciprocal']] = None,
-            dipole: bool = True,
-            dipole_parameter: float = 1.0,
-            splitting: bool = True,
-            insert_gamma: bool = False,
-            reduce_qpts: bool = True,
-            use_c: Optional[bool] = None,
-            n_threads: Optional[int] = None,
-            return_mode_gradients: bool = False
-            ) -> Union[QpointPhononModes,
-                       Tuple[QpointPhononModes, Quantity]]:
-        """
-        Calculate phonon frequencies and eigenvectors at specified
-        q-points from a force constants matrix via Fourier interpolation
-
-        Parameters
-        ----------
-        qpts
-            Shape (n_qpts, 3) float ndarray. The q-points to
-            interpolate onto in reciprocal cell vector units
-        weights
-            Shape (n_qpts,) float ndarray. The weight for each q-point.
-            If not given, equal weights are
-            applied
-        asr
-            Which acoustic sum rule correction to apply. 'realspace' applies
-            the correction to the force constant matrix in real
-            space. 'reciprocal' applies the correction to the dynamical matrix
-            at every q-point
-        dipole
-            Whether to calculate the dipole tail correction to the dynamical
-            matrix at each q-point using the Ewald sum, if the Born
-            charges and dielectric permitivitty tensor are present.
-        dipole_parameter
-            Changes the cutoff in real/reciprocal space for the dipole
-            Ewald sum. A higher value uses more reciprocal terms. If tuned
-            correctly this can result in performance improvements. See
-            euphonic-optimise-dipole-parameter program for help on choosing
-            a good dipole_parameter.
-        splitting
-            Whether to calculate the LO-TO splitting at the gamma
-            points. Only applied if dipole is True and the Born charges
-            and dielectric permitivitty tensor are present.
-        insert_gamma
-            If splitting is True, this will insert gamma points into
-            qpts to store the extra split frequencies. Note this means
-            that the length of qpts in the output QpointPhononModes
-            object will not necessarily be the same as the input qpts.
-            If qpts already contains double gamma points where you want
-            split frequencies, leave this as False.
-        reduce_qpts
-            Whether to use periodicity to reduce all q-points and only
-            calculate for unique q-points within the 1st BZ. This won't
-            change the output but could increase performance.
-        use_c
-            Whether to use C instead of Python to calculate and
-            diagonalise the dynamical matrix. By default this is None
-            and will use the C extension if it is installed, and fall
-            back to Python if not. If use_c=True, this will force use
-            of the C extension and an error will be raised if it
-            is not installed. If use_c=False, this will force use
-            of Python, even if the C extension is installed
-        n_threads
-            The number of OpenMP threads to use when looping over
-            q-points in C. By default this is None, in which case
-            the environment variable EUPHONIC_NUM_THREADS will be used
-            to determine number of threads, if this is not set then
-            the value returned from multiprocessing.cpu_count() will be
-            used
-        return_mode_gradients
-            Whether to also return the vector mode gradients (in
-            Cartesian coordinates). These can be converted to mode
-            widths and used in adaptive broadening for DOS. For details
-            on how these are calculated see the Notes section
-
-        Returns
-        -------
-        qpoint_phonon_modes
-            A QpointPhononModes object containing the interpolated
-            frequencies and eigenvectors at each q-point. Note that if
-            there is LO-TO splitting, and insert_gamma=True, the number
-            of input q-points may not be the same as in the output
-            object
-        mode_gradients
-            Optional shape (n_qpts, n_branches, 3) float Quantity,
-            the vector mode gradients dw/dq in Cartesian coordinates.
-            Is only returned if return_mode_gradients is true
-
-
-        Raises
-        ------
-        ImportCError
-            If use_c=True but the C extension cannot be imported
-
-        Notes
-        -----
-
-        **Phonon Frequencies/Eigenvectors Calculation**
-
-        Phonon frequencies/eigenvectors are calculated at any q-point by
-        Fourier interpolation of a force constants matrix. The force
-        constants matrix is defined as [1]_:
-
-        .. math::
-
-          \\Phi_{\\alpha {\\alpha}^\\prime}^{\\kappa {\\kappa}^\\prime}(0,l) =
-          \\frac{\\partial^{2}E}{{\\partial}u_{\\kappa\\alpha0}{\\partial}u_{{{\\kappa}^\\prime}{{\\alpha}^\\prime}l}}
-
-        where the unit cell containing the displaced atom is labelled
-        :math:`0` and :math:`l` runs over unit cells in the crystal,
-        :math:`\\kappa` runs over atoms in the unit cell, :math:`\\alpha`
-        runs over the Cartesian directions, and :math:`u_{\\kappa{\\alpha}l}`
-        is the displacement of atom :math:`\\kappa` in cell :math:`l` in
-        direction :math:`\\alpha` from its equilibrium position. This can be
-        used to calculate the dynamical matrix
-        :math:`D_{\\alpha {\\alpha}^\\prime}^{\\kappa {\\kappa}^\\prime}` at
-        :math:`\\mathbf{q}`:
-
-        .. math::
-
-          D_{\\alpha {\\alpha^\\prime}}^{\\kappa {\\kappa^\\prime}}(\\mathbf{q}) =
-          \\frac{1}{\\sqrt{M_\\kappa M_{\\kappa^\\prime}}}
-          \\sum_{l}\\Phi_{\\alpha {\\alpha^\\prime}}^{\\kappa {\\kappa^\\prime}}\\exp\\left(-i\\mathbf{q}\\cdot \\mathbf{R}_l\\right)
-
-        where :math:`M_\\kappa` is the mass of atom :math:`\\kappa`,
-        :math:`\\mathbf{R}_l` is the vector from the origin to the
-        :math:`l^\\textrm{th}` unit cell. The eigenvalue equation
-        for the dynamical matrix is then:
-
-        .. math::
-
-          \\sum_{\\kappa^\\prime \\alpha^\\prime}D_{\\alpha {\\alpha}^\\prime}^{\\kappa {\\kappa}^\\prime}(\\mathbf{q}) {e}_{\\mathbf{q}\\nu{\\kappa^\\prime}{\\alpha^\\prime}} =
-          {\\omega}_{\\mathbf{q}\\nu}^2 {e}_{\\mathbf{q}\\nu\\kappa\\alpha}
-
-        where the eigenvalues :math:`{\\omega}_{\\mathbf{q}\\nu}^2` are the
-        square of the phonon frequencies of mode :math:`\\nu` at
-        :math:`\\mathbf{q}`, and the eigenvectors
-        :math:`\\mathbf{e}_{\\mathbf{q}\\nu\\kappa}` are the phonon
-        polarisation vectors at :math:`\\mathbf{q}` of mode :math:`\\nu`
-        for atom :math:`\\kappa`. The produced eigenvectors are normalised
-        such that:
-
-        .. math::
-
-          \\sum_{\\kappa}{|\\mathbf{e}_{\\mathbf{q}\\nu\\kappa}|^2} = 1
-
-        In polar materials, there is an additional long-ranged
-        correction to the force constants matrix (applied if
-        dipole=True) and a non-analytical correction at the gamma point
-        [2]_ (applied if splitting=True).
-
-        .. [1] M. T. Dove, Introduction to Lattice Dynamics, Cambridge University Press, Cambridge, 1993, 83-87
-        .. [2] X. Gonze, J. C. Charlier, D. C. Allan, M. P. Teter, Phys. Rev. B, 1994, 50, 13035-13038
-
-        **Mode Gradients Calculation**
-
-        The mode gradients can be used to calculate mode widths to be used
-        in the adaptive broadening scheme [3]_ when computing a DOS - this
-        broadens each mode contribution individually according to its mode
-        width. The mode widths are proportional to the mode gradients and
-        can be estimated using ``euphonic.util.mode_gradients_to_widths``
-
-        The mode gradients :math:`\\frac{d\\omega_{\\mathbf{q}\\nu}}{d\\mathbf{q}}` at each :math:`\\mathbf{q}`
-        are calculated at the same time as the phonon frequencies and
-        eigenvectors as follows.
-
-        Firstly, the eigenvalue equation above can be written in matrix
-        form as:
-
-        .. math::
-
-          E(\\mathbf{q})\\Omega(\\mathbf{q}) = D(\\mathbf{q})E(\\mathbf{q})
-
-        .. math::
-
-          \\Omega(\\mathbf{q}) = E^{-1}(\\mathbf{q})D(\\mathbf{q})E(\\mathbf{q})
-
-        Where :math:`\\Omega(\\mathbf{q})` is the diagonal matrix of phonon
-        frequencies squared :math:`\\omega_{\\mathbf{q}\\nu}^{2}` and :math:`E(\\mathbf{q})`
-        is the matrix containing eigenvectors for all modes.
-        :math:`\\frac{d\\omega_{\\mathbf{q}\\nu}}{d\\mathbf{q}}`, can then
-        be obtained by differentiating the above equation with respect
-        to :math:`\\mathbf{q}` using the product rule:
-
-        .. math::
-
-          \\frac{d\\Omega}{d\\mathbf{q}} = 2\\omega_{\\mathbf{q}\\nu}\\frac{d\\omega_{\\mathbf{q}\\nu}}{d\\mathbf{q}}\\delta_{\\nu \\nu^{\\prime}}
-
-        .. math::
-
-          \\frac{d\\omega_{\\mathbf{q}\\nu}}{d\\mathbf{q}} = \\frac{1}{2\\omega_{\\mathbf{q}\\nu}}{(
-          \\frac{d{E^{-1}}}{d\\mathbf{q}}DE +
-          E^{-1}\\frac{dD}{d\\mathbf{q}}E +
-          E^{-1}D\\frac{dE}{d\\mathbf{q}})}
-
-        Given that eigenvectors are normalised and orthogonal, an identity can be employed:
-
-        .. math::
-
-          \\frac{d}{d\\lambda}E^{\\prime}E = 0
-
-        So terms involving the first derivative of the eigenvector matrix can be set to zero, resulting in:
-
-        .. math::
-
-          \\frac{d\\omega_{\\mathbf{q}\\nu}}{d\\mathbf{q}} = \\frac{1}{2\\omega_{\\mathbf{q}\\nu}}{(E^{-1}\\frac{dD}{d\\mathbf{q}}E)}
-
-        :math:`\\frac{dD}{d\\mathbf{q}}` can be obtained by differentiating the Fourier equation above:
-
-        .. math::
-
-          \\frac{dD_{\\alpha {\\alpha}^\\prime}^{\\kappa {\\kappa}^\\prime}}{d\\mathbf{q}} =
-          \\frac{-i \\mathbf{R}_l}{\\sqrt{M_\\kappa M_{\\kappa ^\\prime}}}
-          \\sum_{l}\\Phi_{\\alpha\\alpha^\\prime}^{\\kappa\\kappa^\\prime}\\exp\\left(-i\\mathbf{q}\\cdot \\mathbf{R}_l\\right)
-
-        .. [3] J. R. Yates, X. Wang, D. Vanderbilt and I. Souza, Phys. Rev. B, 2007, 75, 195121
-        """
-        qpts, freqs, weights, evecs, grads = self._calculate_phonons_at_qpts(
-            qpts, weights, asr, dipole, dipole_parameter, splitting,
-            insert_gamma, reduce_qpts, use_c, n_threads,
-            return_mode_gradients, return_eigenvectors=True)
-        qpt_ph_modes = QpointPhononModes(
-            self.crystal, qpts, freqs, evecs, weights=weights)
-        if return_mode_gradients:
-            return qpt_ph_modes, grads
-        else:
-            return qpt_ph_modes
-
-    def calculate_qpoint_frequencies(
-            self,
-            qpts: np.ndarray,
-            weights: Optional[np.ndarray] = None,
-            asr: Optional[Literal['realspace', 'reciprocal']] = None,
-            dipole: bool = True,
-            dipole_parameter: float = 1.0,
-            splitting: bool = True,
-            insert_gamma: bool = False,
-            reduce_qpts: bool = True,
-            use_c: Optional[bool] = None,
-            n_threads: Optional[int] = None,
-            return_mode_gradients: bool = False,
-            ) -> Union[QpointFrequencies,
-                       Tuple[QpointFrequencies, Quantity]]:
-        """
-        Calculate phonon frequencies (without eigenvectors) at specified
-        q-points. See ForceConstants.calculate_qpoint_phonon_modes for
-        argument and algorithm details
-        """
-        qpts, freqs, weights, _, grads = self._calculate_phonons_at_qpts(
-            qpts, weights, asr, dipole, dipole_parameter, splitting,
-            insert_gamma, reduce_qpts, use_c, n_threads,
-            return_mode_gradients, return_eigenvectors=False)
-        qpt_freqs = QpointFrequencies(
-            self.crystal, qpts, freqs, weights=weights)
-        if return_mode_gradients:
-            return qpt_freqs, grads
-        else:
-            return qpt_freqs
-
-    def _calculate_phonons_at_qpts(
-            self,
-            qpts: np.ndarray,
-            weights: Optional[np.ndarray],
-            asr: Optional[Literal['realspace', 'reciprocal']],
-            dipole: bool,
-            dipole_parameter: float,
-            splitting: bool,
-            insert_gamma: bool,
-            reduce_qpts: bool,
-            use_c: Optional[bool],
-            n_threads: Optional[int],
-            return_mode_gradients: bool,
-            return_eigenvectors: bool) -> Tuple[
-                np.ndarray, Quantity, Optional[np.ndarray],
-                Optional[np.ndarray], Optional[Quantity]]:
-        """
-        Calculates phonon frequencies, and optionally eigenvectors and
-        phonon frequency gradients. See calculate_qpoint_phonon_modes
-        for argument details
-
-        Returns
-        -------
-        qpts
-            Shape (n_qpts, 3) float ndarray. The calculated q-points,
-            note that this may not be the same as the input q-points
-            if splitting and insert_gamma=True and there are gamma
-            points
-        frequencies
-            Shape (n_qpts, 3*n_atoms) float Quantity in energy units,
-            the phonon frequencies. n_qpts may not be the same as the
-            number of input q-points, if splitting and
-            insert_gamma=True and there are gamma points
-        weights
-            Shape (n_qpts,) float ndarray. The weight of each q-point
-        eigenvectors
-            Shape (n_qpts, 3*n_atoms, n_atoms, 3) complex ndarray
-        gradients
-            Shape (n_qpts, 3*n_atoms, 3) float Quantity in
-            energy*length units. The phonon mode gradients
-        """
-        # Check weights is of appropriate type and shape, to avoid doing all
-        # the interpolation only for it to fail creating QpointPhononModes
-        _check_constructor_inputs(
-            [weights], [[np.ndarray, type(None)]], [(len(qpts),)], ['weights'])
-
-        # Set default splitting params
-        if self.born is None:
-            dipole = False
-        if not dipole:
-            splitting = False
-
-        if splitting and insert_gamma:
-            # Duplicate gamma points where there is splitting
-            gamma_i = np.where(is_gamma(qpts))[0]
-            split_gamma = gamma_i[np.where(
-                np.logical_and(gamma_i > 0, gamma_i < len(qpts) - 1))]
-            qpts = np.insert(qpts, split_gamma, qpts[split_gamma], axis=0)
-            # It doesn't necessarily make sense to use both weights
-            # (usually used for DOS) and splitting (usually used for
-            # bandstructures) but we need to handle this case anyway
-            # Where 1 q-point splits into 2, half the weight for each
-            if weights is not None:
-                # Don't change original array
-                weights = np.copy(weights)
-                weights[split_gamma] = weights[split_gamma]/2
-                weights = np.insert(weights, split_gamma,
-                                    weights[split_gamma])
-
-        if reduce_qpts:
-            norm_qpts = qpts - np.rint(qpts)
-            # Ensure gamma points are exactly zero, otherwise you may
-            # have a case where small fp differences mean np.unique
-            # doesn't reduce them, yet they're all classified as gamma
-            # points. This causes indexing errors later when calculating
-            # q-directions as there are then points in reduced_qpts
-            # whose index isn't in qpts_i
-            gamma_i = np.where(is_gamma(qpts))[0]
-            n_gamma = len(gamma_i)
-            norm_qpts[gamma_i] = 0.
-            reduced_qpts, qpts_i = np.unique(norm_qpts, return_inverse=True,
-                                             axis=0)
-            qpts_i = qpts_i.flatten()
-            
-            n_rqpts = len(reduced_qpts)
-            # Special handling of gamma points - don't reduce gamma
-            # points if LO-TO splitting
-            if splitting and n_gamma > 1:
-                # Replace any gamma points and their indices with new
-                # gamma points appended onto the reduced q-point array,
-                # so each gamma can have its own splitting
-                qpts_i[gamma_i[1:]] = range(n_rqpts, n_rqpts + n_gamma - 1)
-                reduced_qpts = np.append(reduced_qpts,
-                                         np.tile(np.array([0., 0., 0., ]),
-                                                 (n_gamma - 1, 1)),
-                                         axis=0)
-                n_rqpts = len(reduced_qpts)
-        else:
-            reduced_qpts = qpts
-            qpts_i = np.arange(0, len(qpts), dtype=np.int32)
-            n_rqpts = len(qpts)
-
-        # Get q-directions for non-analytical corrections
-        if splitting:
-            split_idx = np.where(is_gamma(reduced_qpts))[0]
-            q_dirs = self._get_q_dirs(qpts, qpts_i, split_idx)
-        else:
-            split_idx = np.array([])
-            q_dirs = np.array([])
-
-        n_sc_shells = 2  # How many supercells out to search for atom images
-        # Construct list of supercell atom images
-        if not hasattr(self, '_sc_image_i'):
-            self._calculate_supercell_images(n_sc_shells)
-
-        # Get a list of all the unique supercell image origins and cell
-        # origins in x, y, z and how to rebuild them to minimise
-        # expensive phase calculations later
-        sc_image_r = get_all_origins(
-            np.repeat(n_sc_shells, 3) + 1, min_xyz=-np.repeat(n_sc_shells, 3))
-        sc_origins = np.einsum('ij,jk->ik', sc_image_r,
-                               self.sc_matrix).astype(np.int32)
-        unique_sc_origins = [[] for i in range(3)]
-        unique_sc_i = np.zeros((len(sc_origins), 3), dtype=np.int32)
-        unique_cell_origins = [[] for i in range(3)]
-        unique_cell_i = np.zeros((len(self.cell_origins), 3), dtype=np.int32)
-        for i in range(3):
-            unique_sc_origins[i], unique_sc_i[:, i] = np.unique(
-                sc_origins[:, i], return_inverse=True)
-            unique_cell_origins[i], unique_cell_i[:, i] = np.unique(
-                self.cell_origins[:, i], return_inverse=True)
-        if return_mode_gradients:
-            cell_origins_cart = np.einsum('ij,jk->ik', self.cell_origins,
-                                          self.crystal._cell_vectors)
-            # Append 0. to sc_origins_cart, so that when being indexed by
-            # sc_image_i to get the origins for each image, an index of -1
-            # and a value of 0. can be used
-            sc_origins_cart = np.zeros((len(sc_origins) + 1, 3))
-            sc_origins_cart[:len(sc_origins)] = np.einsum(
-                'ij,jk->ik', sc_origins, self.crystal._cell_vectors)
-            ax = np.newaxis
-            all_origins_cart = (sc_origins_cart[self._sc_image_i]
-                                + cell_origins_cart[:, ax, ax, ax, :])
-        else:
-            all_origins_cart = np.zeros((0, 3), dtype=np.float64)
-
-        # Precompute dynamical matrix mass weighting
-        atom_mass = self.crystal._atom_mass
-        n_atoms = self.crystal.n_atoms
-        masses = np.tile(np.repeat(atom_mass, 3), (3*n_atoms, 1))
-        dyn_mat_weighting = 1/np.sqrt(masses*np.transpose(masses))
-
-        # Initialise dipole correction calc to FC matrix if required
-        if dipole and (not hasattr(self, '_dipole_init_data') or
-                       dipole_parameter != self._dipole_init_data[
-                           'dipole_parameter']):
-            self._dipole_init_data = self._dipole_correction_init(
-                self.crystal, self._born, self._dielectric, dipole_parameter)
-
-        force_constants = self._force_constants
-        if asr == 'realspace':
-            if not hasattr(self, '_force_constants_asr'):
-                self._force_constants_asr = self._enforce_realspace_asr()
-            force_constants = self._force_constants_asr
-        # Precompute fc matrix weighted by number of supercell atom
-        # images (for cumulant method)
-        n_sc_images_repeat = (
-            self._n_sc_images.repeat(3, axis=2).repeat(3, axis=1))
-        fc_img_weighted = np.divide(
-            force_constants, n_sc_images_repeat, where=n_sc_images_repeat != 0)
-
-        recip_asr_correction = np.array([], dtype=np.complex128)
-        if asr == 'reciprocal':
-            # Calculate dyn mat at gamma for reciprocal ASR
-            q_gamma = np.array([0., 0., 0.])
-            dyn_mat_gamma, _ = self._calculate_dyn_mat(
-                q_gamma, fc_img_weighted, unique_sc_origins,
-                unique_sc_i, unique_cell_origins, unique_cell_i,
-                all_origins_cart)
-            if dipole:
-                dyn_mat_gamma += self._calculate_dipole_correction(
-                    q_gamma, self.crystal, self._born, self._dielectric,
-                    self._dipole_init_data)
-            recip_asr_correction = self._enforce_reciprocal_asr(dyn_mat_gamma)
-
-
-        rfreqs = np.zeros((n_rqpts, 3*n_atoms))
-        if return_eigenvectors:
-            n_reigenvecs = n_rqpts
-        else:
-            # Create dummy zero-length eigenvectors so this can be
-            # detected in C and eigenvectors won't be saved
-            n_reigenvecs = 0
-
-        if return_mode_gradients:
-            rmode_gradients = np.zeros((n_rqpts, 3*n_atoms, 3),
-                                       dtype=np.complex128)
-        else:
-            rmode_gradients = np.zeros((0, 3*n_atoms, 3), dtype=np.complex128)
-
-        euphonic_path = os.path.dirname(euphonic.__file__)
-        cext_err_msg = (f'Euphonic\'s C extension couldn\'t be imported '
-                        f'from {euphonic_path}, it may not have been '
-                        f'installed.')
-
-        # Check if C extension can be used and handle appropriately
-        use_c_status = False
-        if use_c is not False:
-            try:
-                import euphonic._euphonic as euphonic_c
-                use_c_status = True
-            except ImportError:
-                if use_c is None:
-                    warnings.warn((
-                        cext_err_msg
-                        + ' Falling back to pure Python calculation.'),
-                        stacklevel=3)
-                else:
-                    raise ImportCError(cext_err_msg)
-
-        if use_c_status is True:
-            if n_threads is None:
-                n_threads_env = os.environ.get(
-                    'EUPHONIC_NUM_THREADS', '')  # type: str
-                if n_threads_env:
-                    n_threads = int(n_threads_env)
-                else:
-                    n_threads = cpu_count()
-            # Temporary fix to https://github.com/pace-neutrons/Euphonic/issues/191
-            # Append extra elements to avoid overflow in eigenvectors
-            # in openblas
-            if n_reigenvecs > 0:
-                n_reigenvecs += 1
-            reigenvecs = np.zeros((n_reigenvecs, 3*n_atoms, n_atoms, 3),
-                                  dtype=np.complex128)
-            cell_vectors = self.crystal._cell_vectors
-            recip_vectors = self.crystal.reciprocal_cell().to(
-                '1/bohr').magnitude
-            # Get conj transpose - the dynamical matrix calculated in C
-            # is passed to Fortran libs so uses Fortran ordering, make
-            # sure reciprocal correction matches this. This only makes
-            # a very small difference and can only be seen in near-flat
-            # mode gradients, but should be corrected anyway
-            recip_asr_correction =  recip_asr_correction.conj().T
-            # Make sure all arrays are contiguous before calling C
-            (cell_vectors, recip_vectors, reduced_qpts, split_idx, q_dirs,
-             fc_img_weighted, sc_origins, recip_asr_correction,
-             dyn_mat_weighting, rfreqs, reigenvecs, rmode_gradients,
-             all_origins_cart) = _ensure_contiguous_args(
-                 cell_vectors, recip_vectors, reduced_qpts, split_idx,
-                 q_dirs, fc_img_weighted, sc_origins, recip_asr_correction,
-                 dyn_mat_weighting, rfreqs, reigenvecs, rmode_gradients,
-                 all_origins_cart)
-            attrs = ['_n_sc_images', '_sc_image_i', 'cell_origins']
-            dipole_attrs = ['atom_r', '_born', '_dielectric', '_H_ab',
-                            '_cells', '_gvec_phases', '_gvecs_cart',
-                            '_dipole_q0']
-            _ensure_contiguous_attrs(self, attrs, opt_attrs=dipole_attrs)
-            with threadpool_limits(limits=1):
-                euphonic_c.calculate_phonons(
-                    self, cell_vectors, recip_vectors, reduced_qpts,
-                    split_idx, q_dirs, fc_img_weighted, sc_origins,
-                    recip_asr_correction, dyn_mat_weighting, dipole,
-                    splitting, rfreqs, reigenvecs, rmode_gradients,
-                    all_origins_cart, n_threads)
-        else:
-            reigenvecs = np.zeros((n_reigenvecs, 3*n_atoms, n_atoms, 3),
-                                  dtype=np.complex128)
-            for qi, qpt in enumerate(reduced_qpts):
-                q_dir = None
-                if splitting and is_gamma(qpt):
-                    q_dir_idx = np.where(split_idx == qi)[0][0]
-                    q_dir = q_dirs[q_dir_idx]
-                rfreqs[qi], evecs, grads = self._calculate_phonons_at_q(
-                    qpt, fc_img_weighted, unique_sc_origins, unique_sc_i,
-                    unique_cell_origins, unique_cell_i, all_origins_cart,
-                    dyn_mat_weighting, recip_asr_correction, dipole, q_dir)
-                if return_eigenvectors:
-                    reigenvecs[qi] = evecs
-                if return_mode_gradients:
-                    rmode_gradients[qi] = grads
-
-        freqs = rfreqs[qpts_i]*ureg('hartree').to('meV')
-        if return_eigenvectors:
-            eigenvectors = reigenvecs[qpts_i]
-        else:
-            eigenvectors = None
-
-        mode_gradients = None
-        if return_mode_gradients:
-            max_real = np.amax(np.absolute(rmode_gradients.real))
-            idx = np.where(
-                rmode_gradients.imag/max_real > 1e-10)
-            n_idx = len(idx[0])
-            if n_idx > 0:
-                n_print = n_idx if n_idx < 5 else 5
-                warnings.warn(
-                    f'Unexpected values for mode gradients at {n_idx}/{rmode_gradients.size} '
-                    f'indices {[x for x in zip(*idx)][:n_print]}..., '
-                    f'expected near-zero imaginary elements, got values of '
-                    f'{rmode_gradients.imag[idx][:n_print]}..., compared to a '
-                    f'max real value of {max_real}. Data may have been lost '
-                    f'when casting to real mode gradients',
-                    stacklevel=3)
-            mode_gradients = rmode_gradients.real[qpts_i]*ureg(
-                'hartree*bohr').to(
-                    f'meV*{str(self.crystal.cell_vectors.units)}')
-        return qpts, freqs, weights, eigenvectors, mode_gradients
-
-    def _calculate_phonons_at_q(
-            self,
-            qpt: np.ndarray,
-            fc_img_weighted: np.ndarray,
-            unique_sc_origins: Sequence[Sequence[int]],
-            unique_sc_i: np.ndarray,
-            unique_cell_origins: Sequence[Sequence[int]],
-            unique_cell_i: np.ndarray,
-            all_origins_cart: np.ndarray,
-            dyn_mat_weighting: np.ndarray,
-            recip_asr_correction: np.ndarray,
-            dipole: bool,
-            q_dir: Optional[np.ndarray] = None
-            ) -> Tuple[np.ndarray, np.ndarray, Union[np.ndarray, None]]:
-        """
-        Given a q-point and some precalculated q-independent values,
-        calculate and diagonalise the dynamical matrix and return the
-        frequencies, eigenvectors and optionally mode gradients
-
-        Parameters
-        ----------
-        qpt
-            Shape (3,) float ndarray. The q-point to calculate
-        fc_img_weighted
-            Shape (n_cells_in_sc, 3*n_atoms, 3*n_atoms) float ndarray.
-            The force constants matrix weighted by the number of
-            supercell atom images for each ij displacement
-        unique_sc_origins
-            A list containing 3 lists of the unique supercell image
-            offsets in each direction. The supercell offset is
-            calculated by multiplying the supercell matrix by the
-            supercell image indices (obtained by _get_all_origins()). A
-            list of lists rather than a Numpy array is used as the 3
-            lists are independent and their size is not known
-            beforehand
-        unique_sc_i
-            Shape ((2*n_sc_shells + 1)**3, 3) int ndarray, where
-            n_sc_shells is how many supercells out to go to search for
-            atom images. The indices needed to reconstruct sc_origins
-            from the unique values in unique_sc_origins
-        unique_cell_origins
-            A list containing 3 lists of the unique cell origins in
-            each direction. A list of lists rather than a Numpy array
-            is used as the 3 lists are independent and their size is
-            not known beforehand
-        unique_cell_i
-            Shape (n_cells_in_sc, 3) int ndarray. The indices needed to
-            reconstruct cell_origins from the unique values in
-            unique_cell_origins
-        all_origins_cart
-            Shape (n_cells_in_sc, n_atoms, n_atoms, n_images, 3) or
-            (0, 3) float ndarray. The Cartesian coordinate of each atom
-            in each supercell image. Is only used if calculating
-            dynamical matrix gradients
-        dyn_mat_weighting
-            Shape (3*n_atoms, 3*n_atoms) float ndarray. The dynamical
-            matrix mass weighting
-        recip_asr_correction
-            Shape (3*n_atoms, 3*n_atoms) or (0,) complex ndarray. Is
-            only used if the reciprocal ASR was requested
-        dipole
-            Whether to apply the dipole correction
-        q_dir
-            Shape (3,) float ndarray, the q-direction to use in LO-TO
-            splitting, if applicable
-
-        Returns
-        -------
-        frequencies
-            Shape (3*n_atoms) float ndarray. The phonon frequencies
-        eigenvectors
-            Shape (3*n_atoms, n_atoms, 3) complex ndarray. The
-            eigenvectors
-        mode_gradients
-            Shape (3*n_atoms, 3) complex ndarray. The gradient for
-            each mode
-        """
-        n_atoms = self.crystal.n_atoms
-
-        dyn_mat, dmat_grad = self._calculate_dyn_mat(
-            qpt, fc_img_weighted, unique_sc_origins, unique_sc_i,
-            unique_cell_origins, unique_cell_i, all_origins_cart)
-
-        if dipole:
-            dipole_corr = self._calculate_dipole_correction(
-                qpt, self.crystal, self._born, self._dielectric,
-                self._dipole_init_data)
-            dyn_mat += dipole_corr
-
-        if len(recip_asr_correction) > 0:
-            dyn_mat += recip_asr_correction
-
-        # Calculate LO-TO splitting by calculating non-analytic
-        # correction to dynamical matrix
-        if q_dir is not None:
-            dyn_mat += self._calculate_gamma_correction(q_dir)
-
-        # Mass weight dynamical matrix
-        dyn_mat *= dyn_mat_weighting
-
-        evals, evecs = np.linalg.eigh(dyn_mat, UPLO='U')
-        evecs = np.reshape(np.transpose(evecs),
-                           (3*n_atoms, n_atoms, 3))
-        # Set imaginary frequencies to negative
-        imag_freqs = np.where(evals < 0)
-        evals = np.sqrt(np.abs(evals))
-        evals[imag_freqs] *= -1
-
-        if dmat_grad is not None:
-            n_modes = len(evecs)
-            dmat_grad *= dyn_mat_weighting[..., np.newaxis]
-            evecs_sq_view = np.reshape(evecs, (n_modes, n_modes))
-            mode_grads_xyz = np.einsum(
-                'ij,ik,jkl->il', np.conj(evecs_sq_view),
-                                 evecs_sq_view,
-                                 dmat_grad)/(2*evals[:, np.newaxis])
-            return evals, evecs, mode_grads_xyz
-        else:
-            return evals, evecs, None
-
-    def _calculate_dyn_mat(
-            self,
-            qpt: np.ndarray,
-            fc_img_weighted: np.ndarray,
-            unique_sc_origins: Sequence[Sequence[int]],
-            unique_sc_i: np.ndarray,
-            unique_cell_origins: Sequence[Sequence[int]],
-            unique_cell_i: np.ndarray,
-            all_origins_cart: np.ndarray) -> Tuple[np.ndarray,
-                                                   Optional[np.ndarray]]:
-        """
-        Calculate the non mass weighted dynamical matrix at a specified
-        q-point from the image weighted force constants matrix and the
-        indices specifying the periodic images. See eq. 1.5:
-        http://www.tcm.phy.cam.ac.uk/castep/Phonons_Guide/Castep_Phonons.html
-
-        Parameters
-        ----------
-        qpt
-            Shape (3,) float ndarray. The q-point to calculate
-        fc_img_weighted
-            Shape (n_cells_in_sc, 3*n_atoms, 3*n_atoms) float ndarray.
-            The force constants matrix weighted by the number of
-            supercell atom images for each ij displacement
-        unique_sc_origins
-            A list containing 3 lists of the unique supercell image
-            offsets in each direction. The supercell offset is
-            calculated by multiplying the supercell matrix by the
-            supercell image indices (obtained by _get_all_origins()). A
-            list of lists rather than a Numpy array is used as the 3
-            lists are independent and their size is not known
-            beforehand
-        unique_sc_i
-            Shape ((2*n_sc_shells + 1)**3, 3) int ndarray, where
-            n_sc_shells is how many supercells out to go to search for
-            atom images. The indices needed to reconstruct sc_origins
-            from the unique values in unique_sc_origins
-        unique_cell_origins
-            A list containing 3 lists of the unique cell origins in
-            each direction. A list of lists rather than a Numpy array
-            is used as the 3 lists are independent and their size is
-            not known beforehand
-        unique_cell_i
-            Shape (n_cells_in_sc, 3) int ndarray. The indices needed to
-            reconstruct cell_origins from the unique values in
-            unique_cell_origins
-        all_origins_cart
-            Shape (n_cells_in_sc, n_atoms, n_atoms, n_images, 3) or
-            (0, 3) float ndarray. The Cartesian coordinate of each atom
-            in each supercell image. Is only used if calculating
-            dynamical matrix gradients
-
-        Returns
-        -------
-        dyn_mat
-            Shape (3*n_atoms, 3*n_atoms) complex ndarray. The non mass
-            weighted dynamical matrix at q
-        dyn_mat_grad
-            Shape (3*n_atoms, 3*n_atoms, 3) complex ndarray. The dynamical
-            matrix gradient in each Cartesian direction
-        """
-        sc_image_i = self._sc_image_i
-
-        # Cumulant method: for each ij ion-ion displacement sum phases
-        # for all possible supercell images, then multiply by the cell
-        # phases to account for j ions in different cells. Then multiply
-        # by the image weighted fc matrix for each 3 x 3 ij displacement
-
-        # Make sc_phases 1 longer than necessary, so when summing phases
-        # for supercell images if there is no image, an index of -1 and
-        # hence phase of zero can be used
-        sc_phases = np.zeros(len(unique_sc_i) + 1, dtype=np.complex128)
-        sc_phases[:-1], cell_phases = self._calculate_phases(
-            qpt, unique_sc_origins, unique_sc_i, unique_cell_origins,
-            unique_cell_i)
-        sc_phase_sum = np.sum(sc_phases[sc_image_i],
-                              axis=3)
-
-        ax = np.newaxis
-        ij_phases = cell_phases[:, ax, ax]*sc_phase_sum
-        full_dyn_mat = fc_img_weighted*(
-            ij_phases.repeat(3, axis=2).repeat(3, axis=1))
-        dyn_mat = np.sum(full_dyn_mat, axis=0)
-        if len(all_origins_cart) > 0:
-            all_phases = np.einsum('ijkl,i->ijkl',
-                                   sc_phases[sc_image_i], cell_phases)
-            r_vec_sum = 1j*np.einsum('ijkl,ijklm->ijkm',
-                                     all_phases, all_origins_cart)
-            dmat_gradient = fc_img_weighted[..., ax]*(r_vec_sum.repeat(
-                3, axis=2).repeat(3, axis=1))
-            dmat_gradient = np.sum(dmat_gradient, axis=0)
-            return dyn_mat, dmat_gradient
-        else:
-            return dyn_mat, None
-
-    @staticmethod
-    def _dipole_correction_init(crystal: Crystal,
-                                born: np.ndarray,
-                                dielectric: np.ndarray,
-                                dipole_parameter: float = 1.0
-                                ) -> Dict[str, Union[float, np.ndarray]]:
-        """
-        Calculate the q-independent parts of the long range correction
-        to the dynamical matrix for efficiency. The method used is based
-        on the Ewald sum, see eqs 72-74 from Gonze and Lee PRB 55, 10355
-        (1997)
-
-        Parameters
-        ----------
-        crystal
-            Lattice and atom information
-        born
-            Shape (n_atoms, 3, 3) float Quantity in charge units. The
-            Born charges for each atom.
-        dielectric
-            Shape (3, 3) float Quantity in charge**2/(length*energy)
-            units. The dielectric permittivity tensor.
-        dipole_parameter
-            Changes the cutoff in real/reciprocal space for the dipole
-            Ewald sum. A higher value uses more reciprocal terms.
-
-        Returns
-        -------
-        dipole_init_data
-            A dictionary with the following keys/values:
-            - 'dipole_parameter': float
-                The input dipole parameter
-            - 'lambda': float
-                Scaling factor for the real space sums, derived from
-                dipole_parameter
-            - 'H_ab': (n_cells, n_elems, 3, 3) float ndarray
-                Where n_cells is the number of unit cells in the real
-                space sum, and n_elems is the number of elements in the
-                upper triangular of a (3*n_atoms, 3*n_atoms) matrix.
-            - 'cells': (n_cells, 3) float ndarray
-                The origin coordinates of cells used in the real space
-                sum
-            - 'gvecs_cart': (n_vecs, 3) float ndarray
-                The G vectors used in the reciprocal space sum in
-                Cartesian
-            - 'gvec_phases': (n_vecs, n_atoms) complex ndarray
-                e^i(G.r) for each G vector and atom in the unit cell
-            - 'dipole_q0': (3*n_atoms, 3*n_atoms) float ndarray
-                The dipole correction to the dynamical matrix at
-                q=0
-        """
-        cell_vectors = crystal._cell_vectors
-        recip = crystal.reciprocal_cell().to('1/bohr').magnitude
-        n_atoms = crystal.n_atoms
-        atom_r = crystal.atom_r
-        inv_dielectric = np.linalg.inv(dielectric)
-        sqrt_pi = math.sqrt(math.pi)
-
-        # Make guess for balance between real/recip terms
-        abc_mag = np.linalg.norm(cell_vectors, axis=1)
-        mean_abc_mag = np.prod(abc_mag)**(1.0/3)
-        # Using upper_lambda varname as lambda is a reserved keyword
-        upper_lambda = (sqrt_pi/mean_abc_mag*n_atoms**(1.0/6)
-                        *np.linalg.det(dielectric)**(1.0/6))
-        upper_lambda *= dipole_parameter
-        lambda_2 = upper_lambda**2
-
-        # Set limits and tolerances
-        max_shells = 50
-        frac_tol = 1e-15
-
-        # Calculate q=0 real space term
-        real_q0 = np.zeros((n_atoms, n_atoms, 3, 3))
-        # No. of independent i, j ion entries (to use i, j symmetry to
-        # minimise size of stored H_ab)
-        n_elems = np.sum(range(1, n_atoms + 1))
-        H_ab = np.zeros((0, n_elems, 3, 3))
-        cells = np.zeros((0, 3))
-        atom_r_cart = np.einsum('ij,jk->ik', atom_r, cell_vectors)
-        atom_r_e = np.einsum('ij,jk->ik', atom_r_cart, inv_dielectric)
-        for n in range(max_shells):
-            cells_tmp = ForceConstants._get_shell_origins(n)
-            cells_cart = np.einsum('ij,jk->ik', cells_tmp, cell_vectors)
-            cells_e = np.einsum(
-                'ij,jk->ik', cells_cart, inv_dielectric)
-            H_ab_tmp = np.zeros((len(cells_tmp), n_elems, 3, 3))
-            for i in range(n_atoms):
-                idx = np.sum(range(n_atoms - i, n_atoms), dtype=np.int32)
-                for j in range(i, n_atoms):
-                    if n == 0 and i == j:
-                        continue
-                    rij_cart = atom_r_cart[i] - atom_r_cart[j]
-                    rij_e = atom_r_e[i] - atom_r_e[j]
-                    diffs = rij_cart - cells_cart
-                    deltas = rij_e - cells_e
-                    norms_2 = np.einsum('ij,ij->i', deltas, diffs)*lambda_2
-                    norms = np.sqrt(norms_2)
-
-                    # Calculate H_ab
-                    exp_term = 2*np.exp(-norms_2)/(sqrt_pi*norms_2)
-                    erfc_term = erfc(norms)/(norms*norms_2)
-                    f1 = lambda_2*(3*erfc_term/norms_2 + exp_term*(3/norms_2 + 2))
-                    f2 = erfc_term + exp_term
-                    deltas_ab = np.einsum('ij,ik->ijk', deltas, deltas)
-                    H_ab_tmp[:, idx + j] = (
-                        np.einsum('i,ijk->ijk', f1, deltas_ab)
-                        - np.einsum('i,jk->ijk', f2, inv_dielectric))
-            # End series when current terms are less than the fractional
-            # tolerance multiplied by the term for the cell at R=0
-            if n == 0:
-                r0_max = np.amax(np.abs(H_ab_tmp))
-            if np.amax(np.abs(H_ab_tmp)) > frac_tol*r0_max:
-                H_ab = np.concatenate((H_ab, H_ab_tmp))
-                cells = np.concatenate((cells, cells_tmp))
-            else:
-                break
-        # Use compact H_ab to fill in upper triangular of realspace term
-        real_q0[np.triu_indices(n_atoms)] = np.sum(H_ab, axis=0)
-        real_q0 *= upper_lambda**3/math.sqrt(np.linalg.det(dielectric))
-
-        # Calculate the q=0 reciprocal term
-        recip_q0 = np.zeros((n_atoms, n_atoms, 3, 3), dtype=np.complex128)
-        # Add G = 0 vectors to list, for later calculations when q !=0,
-        # but don't calculate for q=0
-        gvecs_cart = np.array([[0., 0., 0.]])
-        gvec_phases = np.tile([1. + 0.j], (1, n_atoms))
-        for n in range(1, max_shells):
-            gvecs = ForceConstants._get_shell_origins(n)
-            gvecs_cart_tmp = np.einsum('ij,jk->ik', gvecs, recip)
-            gvec_dot_r = np.einsum('ij,kj->ik', gvecs, atom_r)
-            gvec_phases_tmp = np.exp(2j*math.pi*gvec_dot_r)
-            gvecs_ab = np.einsum('ij,ik->ijk', gvecs_cart_tmp, gvecs_cart_tmp)
-            k_len_2 = np.einsum(
-                'ijk,jk->i', gvecs_ab, dielectric)/(4*lambda_2)
-            recip_exp = np.exp(-k_len_2)/k_len_2
-            recip_q0_tmp = np.zeros((n_atoms, n_atoms, 3, 3),
-                                    dtype=np.complex128)
-            for i in range(n_atoms):
-                for j in range(i, n_atoms):
-                    phase_exp = gvec_phases_tmp[:, i]/gvec_phases_tmp[:, j]
-                    recip_q0_tmp[i, j] = np.einsum(
-                        'ijk,i,i->jk', gvecs_ab, phase_exp, recip_exp)
-            # End series when current terms are less than the fractional
-            # tolerance multiplied by the max term for the first shell
-            if n == 1:
-                first_shell_max = np.amax(np.abs(recip_q0_tmp))
-            if np.amax(np.abs(recip_q0_tmp)) > frac_tol*first_shell_max:
-                gvecs_cart = np.concatenate((gvecs_cart, gvecs_cart_tmp))
-                gvec_phases = np.concatenate((gvec_phases, gvec_phases_tmp))
-                recip_q0 += recip_q0_tmp
-            else:
-                break
-        vol = crystal.cell_volume().to('bohr^3').magnitude
-        recip_q0 *= math.pi/(vol*lambda_2)
-
-        # Fill in remaining entries by symmetry
-        for i in range(1, n_atoms):
-            for j in range(i):
-                real_q0[i, j] = np.conj(real_q0[j, i])
-                recip_q0[i, j] = np.conj(recip_q0[j, i])
-
-        # Calculate the q=0 correction, to be subtracted from the
-        # corrected diagonal at each q
-        dipole_q0 = np.zeros((n_atoms, 3, 3), dtype=np.complex128)
-        for i in range(n_atoms):
-            for j in range(n_atoms):
-                for a in range(3):
-                    for b in range(3):
-                        dipole_q0[i, a, b] += np.sum(
-                            np.einsum('i,j', born[i, a, :], born[j, b, :])
-                            *(recip_q0[i, j] - real_q0[i, j]))
-            # Symmetrise 3x3
-            dipole_q0[i] = 0.5*(dipole_q0[i] + np.transpose(dipole_q0[i]))
-
-        dipole_init_data = {}
-        dipole_init_data['dipole_parameter'] = dipole_parameter
-        dipole_init_data['lambda'] = upper_lambda
-        dipole_init_data['H_ab'] = H_ab
-        dipole_init_data['cells'] = cells
-        dipole_init_data['gvecs_cart'] = gvecs_cart
-        dipole_init_data['gvec_phases'] = gvec_phases
-        dipole_init_data['dipole_q0'] = dipole_q0
-        return dipole_init_data
-
-    @staticmethod
-    def _calculate_dipole_correction(
-            q: np.ndarray, crystal: Crystal, born: np.ndarray,
-            dielectric: np.ndarray,
-            dipole_init_data: Dict[str, Union[float, np.ndarray]]
-            ) -> np.ndarray:
-        """
-        Calculate the long range correction to the dynamical matrix
-        using the Ewald sum, see eqs 72-74 from Gonze and Lee PRB 55,
-        10355 (1997)
-
-        Parameters
-        ----------
-        q
-            Shape (3,) float ndarray. The q-point to calculate the
-            correction for.
-        crystal
-            Lattice and atom information
-        born
-            Shape (n_atoms, 3, 3) float Quantity in charge units.
-            The Born charges for each atom.
-        dielectric
-            Shape (3, 3) float Quantity in charge**2/(length*energy)
-            units. The dielectric permittivity tensor.
-        dipole_init_data
-            This should be the same dictionary as output by
-            _dipole_correction_init. See the docstring for that
-            function for details of required keys and values.
-
-        Returns
-        -------
-        corr
-            Shape (3*n_atoms, 3*n_atoms) complex ndarray. The
-            correction to the dynamical matrix.
-        """
-        recip = crystal.reciprocal_cell().to('1/bohr').magnitude
-        n_atoms = crystal.n_atoms
-        atom_r = crystal.atom_r
-        upper_lambda = dipole_init_data['lambda']
-        lambda_2 = upper_lambda**2
-        H_ab = dipole_init_data['H_ab']
-        cells = dipole_init_data['cells']
-        gvec_phases = dipole_init_data['gvec_phases']
-        gvecs_cart = dipole_init_data['gvecs_cart']
-        dipole_q0 = dipole_init_data['dipole_q0']
-        q_norm = q - np.rint(q)  # Normalised q-pt
-
-        # Don't include G=0 vector if q=0
-        if is_gamma(q_norm):
-            gvec_phases = gvec_phases[1:]
-            gvecs_cart = gvecs_cart[1:]
-
-        # Calculate real space term
-        real_dipole = np.zeros((n_atoms, n_atoms, 3, 3), dtype=np.complex128)
-        # Calculate real space phase factor
-        q_dot_ra = np.einsum('i,ji->j', q_norm, cells)
-        real_phases = np.exp(2j*math.pi*q_dot_ra)
-        real_dipole_tmp = np.einsum('i,ijkl->jkl', real_phases, H_ab)
-        idx_u = np.triu_indices(n_atoms)
-        real_dipole[idx_u] = real_dipole_tmp
-        real_dipole *= upper_lambda**3/math.sqrt(np.linalg.det(dielectric))
-
-        # Calculate reciprocal term
-        recip_dipole = np.zeros((n_atoms, n_atoms, 3, 3), dtype=np.complex128)
-        # Calculate q-point phases
-        q_dot_r = np.einsum('i,ji->j', q_norm, atom_r)
-        q_phases = np.exp(2j*math.pi*q_dot_r)
-        q_cart = np.dot(q_norm, recip)
-        # Calculate k-vector symmetric matrix
-        kvecs = gvecs_cart + q_cart
-        kvecs_ab = np.einsum('ij,ik->ijk', kvecs, kvecs)
-        k_len_2 = np.einsum('ijk,jk->i', kvecs_ab, dielectric)/(4*lambda_2)
-        recip_exp = np.einsum('ijk,i->ijk', kvecs_ab, np.exp(-k_len_2)/k_len_2)
-        for i in range(n_atoms):
-                phase_exp = ((gvec_phases[:, i, None]*q_phases[i])
-                             /(gvec_phases[:, i:]*q_phases[i:]))
-                recip_dipole[i, i:] = np.einsum(
-                    'ikl,ij->jkl', recip_exp, phase_exp)
-        cell_volume = crystal.cell_volume().to('bohr^3').magnitude
-        recip_dipole *= math.pi/(cell_volume*lambda_2)
-
-        # Fill in remaining entries by symmetry
-        # Mask so we don't count diagonal twice
-        mask = np.tri(n_atoms, k=-1)[:, :, np.newaxis, np.newaxis]
-        real_dipole = real_dipole + mask*np.conj(
-            np.transpose(real_dipole, axes=[1, 0, 2, 3]))
-        recip_dipole = recip_dipole + mask*np.conj(
-            np.transpose(recip_dipole, axes=[1, 0, 2, 3]))
-
-        # Multiply by Born charges and subtract q=0 from diagonal
-        dipole = np.zeros((n_atoms, n_atoms, 3, 3), dtype=np.complex128)
-        dipole_tmp = recip_dipole - real_dipole
-        for i in range(n_atoms):
-            dipole[i] = np.einsum('ij,klm,kjm->kil',
-                                  born[i], born, dipole_tmp[i])
-            dipole[i, i] -= dipole_q0[i]
-
-        return np.reshape(np.transpose(dipole, axes=[0, 2, 1, 3]),
-                          (3*n_atoms, 3*n_atoms))
-
-    def _get_q_dirs(self, qpts: np.ndarray, qpts_i: np.ndarray,
-                   gamma_idx: np.ndarray) -> np.ndarray:
-        """
-        Get q-directions at gamma points
-
-        Parameters
-        ----------
-        qpts
-            Shape (n_qpts, 3) float ndarray. The q-points.
-        qpts_i
-            Shape (n_qpts,) int ndarray. Describes how to index
-            the 'reduced' q-points back into the full q-points
-            array
-        gamma_idx
-            Shape (n_gamma_points,) int ndarray. The indices
-            of gamma-points in the full q-points array
-
-        Returns
-        -------
-        q_dirs
-            Shape (n_gamma_points, 3 float ndarray. The q-direction
-            for splitting at each gamma point)
-        """
-        q_dirs = np.zeros((len(gamma_idx), 3))
-        if len(qpts) > 1:
-            for i, idx in enumerate(gamma_idx):
-                idx_in_qpts = np.where(qpts_i == idx)[0]
-                # If first q-point
-                if idx_in_qpts == 0:
-                    q_dirs[i] = qpts[1] - qpts[0]
-                # If last q-point
-                elif idx_in_qpts == (len(qpts) - 1):
-                    q_dirs[i] = qpts[-1] - qpts[-2]
-                else:
-                    # If splitting=True there should be an adjacent gamma
-                    # point. Calculate splitting in whichever direction
-                    # isn't gamma
-                    q_dirs[i] = qpts[idx_in_qpts + 1] - qpts[idx_in_qpts]
-                    if is_gamma(q_dirs[i]):
-                        q_dirs[i] = qpts[idx_in_qpts] - qpts[idx_in_qpts - 1]
-        return q_dirs
-
-    def _calculate_gamma_correction(self, q_dir: np.ndarray) -> np.ndarray:
-        """
-        Calculate non-analytic correction to the dynamical matrix at q=0
-        for a specified direction of approach. See Eq. 60 of X. Gonze
-        and C. Lee, PRB (1997) 55, 10355-10368.
-
-        Parameters
-        ----------
-        q_dir
-            Shape (3,) float ndarray. The direction along which q
-            approaches 0, in reciprocal fractional coordinates
-
-        Returns
-        -------
-        na_corr
-            Shape (3*n_atoms, 3*n_atoms) complex ndarray. The
-            correction to the dynamical matrix
-        """
-        n_atoms = self.crystal.n_atoms
-        born = self._born
-        dielectric = self._dielectric
-        na_corr = np.zeros((3*n_atoms, 3*n_atoms), dtype=np.complex128)
-
-        if is_gamma(q_dir):
-            return na_corr
-
-        recip_cell = self.crystal.reciprocal_cell().to('1/bohr').magnitude
-        q_dir_cart = np.einsum('ij,i->j', recip_cell, q_dir)
-
-        cell_volume = self.crystal.cell_volume().to('bohr^3').magnitude
-        denominator = np.einsum('ij,i,j', dielectric, q_dir_cart, q_dir_cart)
-        factor = 4*math.pi/(cell_volume*denominator)
-
-        q_born_sum = np.einsum('ijk,k->ij', born, q_dir_cart)
-        for i in range(n_atoms):
-            for j in range(n_atoms):
-                na_corr[3*i:3*(i+1), 3*j:3*(j+1)] = np.einsum(
-                    'i,j->ij', q_born_sum[i], q_born_sum[j])
-        na_corr *= factor
-
-        return na_corr
-
-    @staticmethod
-    def _get_shell_origins(n: int) -> np.ndarray:
-        """
-        Given the shell number, compute all the cell origins that lie in
-        that shell
-
-        Parameters
-        ----------
-        n
-            The shell number
-
-        Returns
-        -------
-        origins
-            Shape ((2*n + 1)**3 - (2*n - 1)**3, 3) int ndarray. The
-            cell origins. Note: if n = 0, origins = [[0, 0, 0]]
-        """
-
-        if n == 0:
-            return np.array([[0, 0, 0]], dtype=np.int32)
-
-        # Coordinates of cells in xy plane where z=0, xz plane where
-        # y=0, yz plane where x=0. Note: to avoid duplicating cells at
-        # the edges, the xz plane has (2*n + 1) - 2 rows in z, rather
-        # than (2*n + 1). The yz plane also has (2*n + 1) - 2 rows in z
-        # and (2*n + 1) - 2 columns in y
-        xy = get_all_origins((n+1, n+1, 1), min_xyz=(-n, -n, 0))
-        xz = get_all_origins((n+1, 1, n), min_xyz=(-n, 0, -n+1))
-        yz = get_all_origins((1, n, n), min_xyz=(0, -n+1, -n+1))
-
-        # Offset each plane by n and -n to get the 6 planes that make up
-        # the shell
-        origins = np.zeros(((2*n+1)**3-(2*n-1)**3, 3), dtype=np.int32)
-        for i, ni in enumerate([-n, n]):
-            origins[i*len(xy):(i+1)*len(xy)] = xy
-            origins[i*len(xy):(i+1)*len(xy), 2] = ni
-            io = 2*len(xy)
-            origins[io+i*len(xz):io+(i+1)*len(xz)] = xz
-            origins[io+i*len(xz):io+(i+1)*len(xz), 1] = ni
-            io = 2*(len(xy) + len(xz))
-            origins[io+i*len(yz):io+(i+1)*len(yz)] = yz
-            origins[io+i*len(yz):io+(i+1)*len(yz), 0] = ni
-
-        return origins
-
-    def _enforce_realspace_asr(self) -> np.ndarray:
-        """
-        Apply a transformation to the force constants matrix so that it
-        satisfies the acousic sum rule. Diagonalise, shift the acoustic
-        modes to almost zero then construct the correction to the force
-        constants matrix using the eigenvectors. For more information
-        see section 2.3.4:
-        http://www.tcm.phy.cam.ac.uk/castep/Phonons_Guide/Castep_Phonons.html
-
-        Returns
-        -------
-        force_constants
-            Shape (n_cells_in_sc, 3*n_atoms, 3*n_atoms) float ndarray. The
-            corrected force constants matrix
-        """
-        n_cells_in_sc = self.n_cells_in_sc
-        n_atoms = self.crystal.n_atoms
-        n_atoms_in_sc = n_cells_in_sc*n_atoms
-        force_constants = self._force_constants
-
-        sc_rel_idx = _get_supercell_relative_idx(self.cell_origins,
-                                                 self.sc_matrix)
-
-        # Compute square matrix from compact force constants
-        sq_fc = np.zeros((3*n_atoms_in_sc, 3*n_atoms_in_sc))
-        for nc in range(n_cells_in_sc):
-            sq_fc[3*nc*n_atoms:3*(nc+1)*n_atoms, :] = np.transpose(
-                np.reshape(force_constants[sc_rel_idx[nc]],
-                           (3*n_cells_in_sc*n_atoms, 3*n_atoms)))
-
-        try:
-            ac_i, evals, evecs = self._find_acoustic_modes(sq_fc)
-        except Exception:
-            warnings.warn((
-                '\nError correcting for acoustic sum rule, could not '
-                'find 3 acoustic modes.\nReturning uncorrected FC '
-                'matrix'), stacklevel=3)
-            return self._force_constants
-
-        # Correct fc matrix - set acoustic modes to almost zero
-        fc_tol = 1e-8*np.min(np.abs(evals))
-        for ac in ac_i:
-            sq_fc -= (fc_tol + evals[ac])*np.einsum(
-                'i,j->ij', evecs[:, ac], evecs[:, ac])
-
-        fc = np.reshape(sq_fc[:, :3*n_atoms],
-                        (n_cells_in_sc, 3*n_atoms, 3*n_atoms))
-
-        return fc
-
-    def _enforce_reciprocal_asr(self, dyn_mat_gamma: np.ndarray
-            ) -> np.ndarray:
-        """
-        Calculate the correction to the dynamical matrix that would have
-        to be applied to satisfy the acousic sum rule. Diagonalise the
-        gamma-point dynamical matrix, shift the acoustic modes to almost
-        zero then reconstruct the dynamical matrix using the
-        eigenvectors. For more information see section 2.3.4:
-        http://www.tcm.phy.cam.ac.uk/castep/Phonons_Guide/Castep_Phonons.html
-
-        Parameters
-        ----------
-        dyn_mat_gamma
-            Shape (3*n_atoms, 3*n_atoms) complex ndarray. The non
-            mass-weighted dynamical matrix at gamma
-
-        Returns
-        -------
-        dyn_mat
-            Shape (3*n_atoms, 3*n_atoms) complex ndarray or empty array
-            The corrected, non mass-weighted dynamical matrix at q.
-            Returns empty array if finding the 3 acoustic modes fails
-        """
-        tol = 5e-15
-
-        try:
-            ac_i, g_evals, g_evecs = self._find_acoustic_modes(
-                dyn_mat_gamma)
-        except Exception:
-            warnings.warn(('\nError correcting for acoustic sum rule, '
-                           'could not find 3 acoustic modes.\nNot '
-                           'correcting dynamical matrix'), stacklevel=3)
-            return np.array([], dtype=np.complex128)
-
-        n_atoms = self.crystal.n_atoms
-        recip_asr_correction = np.zeros((3*n_atoms, 3*n_atoms),
-                                        dtype=np.complex128)
-        for i, ac in enumerate(ac_i):
-            recip_asr_correction -= (tol*i + g_evals[ac])*np.einsum(
-                'i,j->ij', g_evecs[:, ac], g_evecs[:, ac])
-
-        return recip_asr_correction
-
-    def _find_acoustic_modes(self, dyn_mat: np.ndarray
-            ) -> Tuple[np.ndarray, np.ndarray, np.ndarray]:
-        """
-        Find the acoustic modes from a dynamical matrix, they should
-        have the sum of c of m amplitude squared = mass (note: have not
-        actually included mass weighting here so assume mass = 1.0)
-
-        Parameters
-        ----------
-        dyn_mat
-            Shape (3*n_atoms, 3*n_atoms) complex ndarray. A dynamical
-            matrix
-
-        Returns
-        -------
-        ac_i
-            Shape (3,) int ndarray. The indices of the acoustic modes
-        evals
-            Shape (3*n_atoms) float ndarray. Dynamical matrix
-            eigenvalues
-        evecs
-            Shape (3*n_atoms, n_atoms, 3) complex ndarray. Dynamical
-            matrix eigenvectors
-        """
-        n_branches = dyn_mat.shape[0]
-        n_atoms = int(n_branches/3)
-
-        evals, evecs = np.linalg.eigh(dyn_mat, UPLO='U')
-        evec_reshape = np.reshape(
-            np.transpose(evecs), (n_branches, n_atoms, 3))
-        # Sum displacements for all ions in each branch
-        c_of_m_disp = np.sum(evec_reshape, axis=1)
-        c_of_m_disp_sq = np.sum(np.abs(c_of_m_disp)**2, axis=1)
-        sensitivity = 0.5
-        sc_mass = 1.0*n_atoms
-        # Check number of acoustic modes
-        if np.sum(c_of_m_disp_sq > sensitivity*sc_mass) < 3:
-            raise Exception('Could not find 3 acoustic modes')
-        # Find idx of acoustic modes (3 largest c of m displacements)
-        ac_i = np.argsort(c_of_m_disp_sq)[-3:]
-
-        return ac_i, evals, evecs
-
-    def _calculate_phases(
-            self,
-            qpt: np.ndarray,
-            unique_sc_origins: Sequence[Sequence[int]],
-            unique_sc_i: np.ndarray,
-            unique_cell_origins: Sequence[Sequence[int]],
-            unique_cell_i: np.ndarray) -> Tuple[np.ndarray, np.ndarray]:
-        """
-        Calculate the phase factors for the supercell images and cells
-        for a single q-point. The unique supercell and cell origins
-        indices are required to minimise expensive exp and power
-        operations
-
-        Parameters
-        ----------
-        qpt
-            Shape (3,) float ndarray. The q-point to calculate
-        unique_sc_origins
-            A list containing 3 lists of the unique supercell image
-            offsets in each direction. The supercell offset is
-            calculated by multiplying the supercell matrix by the
-            supercell image indices (obtained by _get_all_origins()). A
-            list of lists rather than a Numpy array is used as the 3
-            lists are independent and their size is not known
-            beforehand
-        unique_sc_i
-            Shape ((2*n_sc_shells + 1)**3, 3) int ndarray, where
-            n_sc_shells is how many supercells out to go to search for
-            atom images. The indices needed to reconstruct sc_origins
-            from the unique values in unique_sc_origins
-        unique_cell_origins
-            A list containing 3 lists of the unique cell origins in
-            each direction. A list of lists rather than a Numpy array
-            is used as the 3 lists are independent and their size is
-            not known beforehand
-        unique_cell_i
-            Shape (n_cells_in_sc, 3) int ndarray. The indices needed to
-            reconstruct cell_origins from the unique values in
-            unique_cell_origins
-
-        Returns
-        -------
-        sc_phases
-            Shape (unique_sc_i,) float ndarray. Phase factors exp(iq.r)
-            for each supercell image coordinate in sc_origins
-        cell_phases
-            Shape (unique_cell_i,) float ndarray. Phase factors
-            exp(iq.r) for each cell coordinate in the supercell
-        """
-
-        # Only calculate exp(iq) once, then raise to power to get the
-        # phase at different supercell/cell coordinates to minimise
-        # expensive exp calculations
-        # exp(iq.r) = exp(iqh.ra)*exp(iqk.rb)*exp(iql.rc)
-        #           = (exp(iqh)^ra)*(exp(iqk)^rb)*(exp(iql)^rc)
-        phase = np.exp(2j*math.pi*qpt)
-        sc_phases = np.ones(len(unique_sc_i), dtype=np.complex128)
-        cell_phases = np.ones(len(unique_cell_i), dtype=np.complex128)
-        for i in range(3):
-            unique_sc_phases = np.power(phase[i], unique_sc_origins[i])
-            sc_phases *= unique_sc_phases[unique_sc_i[:, i]]
-
-            unique_cell_phases = np.power(phase[i], unique_cell_origins[i])
-            cell_phases *= unique_cell_phases[unique_cell_i[:, i]]
-
-        return sc_phases, cell_phases
-
-    def _calculate_supercell_images(self, n_sc_shells: int) -> None:
-        """
-        For each displacement of ion i in the unit cell and ion j in
-        the supercell, calculate the number of supercell periodic
-        images there are and which supercells they reside in, and sets
-        the _sc_image_i, and _n_sc_images ForceConstants attributes
-
-        Parameters
-        ----------
-        n_sc_shells
-            The number of supercells out to go to search for atom
-            images
-        """
-
-        n_atoms = self.crystal.n_atoms
-        cell_vectors = self.crystal._cell_vectors
-        atom_r = self.crystal.atom_r
-        cell_origins = self.cell_origins
-        n_cells_in_sc = self.n_cells_in_sc
-        sc_matrix = self.sc_matrix
-        ax = np.newaxis
-
-        # List of points defining Wigner-Seitz cell
-        ws_frac = np.array([[0, 0, 0], [0, 0, 1], [0, 1, 0], [0, 1, 1],
-                            [0, 1, -1], [1, 0, 0], [1, 0, 1], [1, 0, -1],
-                            [1, 1, 0], [1, 1, 1], [1, 1, -1], [1, -1, 0],
-                            [1, -1, 1], [1, -1, -1]])
-        cutoff_scale = 1.0
-
-        # Calculate points of WS cell for this supercell
-        sc_vecs = np.einsum('ji,ik->jk', sc_matrix, cell_vectors)
-        ws_list = np.einsum('ij,jk->ik', ws_frac, sc_vecs)
-        inv_ws_sq = 1.0/np.sum(np.square(ws_list[1:]), axis=1)
-        ws_list_norm = ws_list[1:]*inv_ws_sq[:, ax]
-
-        # Get Cartesian coords of supercell images and ions in supercell
-        sc_image_r = get_all_origins(
-            np.repeat(n_sc_shells, 3) + 1, min_xyz=-np.repeat(n_sc_shells, 3))
-        sc_image_cart = np.einsum('ij,jk->ik', sc_image_r, sc_vecs)
-        sc_atom_cart = np.einsum('ijk,kl->ijl',
-                                 cell_origins[:, ax, :] + atom_r[ax, :, :],
-                                 cell_vectors)
-
-        sc_image_i = np.full(
-            (n_cells_in_sc, n_atoms, n_atoms, (2*n_sc_shells + 1)**3),
-            -1, dtype=np.int32)
-        n_sc_images = np.zeros((n_cells_in_sc, n_atoms, n_atoms),
-                               dtype=np.int32)
-
-        # Ordering of loops here is for efficiency:
-        # ions in unit cell -> periodic supercell images -> WS points
-        # This is so the ion-ion vectors in each loop will be similar,
-        # so they are more likely to pass/fail the WS check together
-        # so the last loop can be broken early
-        for i in range(n_atoms):
-            rij = sc_atom_cart[0, i] - sc_atom_cart
-            for im, sc_r in enumerate(sc_image_cart):
-                # Get vector between j in sc image and i in unit cell
-                dists = rij - sc_r
-                # Only want to include images where ion < halfway to ALL
-                # ws points, so compare vector to all ws points
-                for n, wsp in enumerate(ws_list_norm):
-                    dist_wsp = np.absolute(np.sum(dists*wsp, axis=-1))
-                    if n == 0:
-                        nc_idx, nj_idx = np.where(
-                            dist_wsp <= (0.5*cutoff_scale + 0.001)
-                        )
-                        # Reindex dists to remove elements where the ion
-                        # is > halfway to WS point for efficiency
-                        dists = dists[nc_idx, nj_idx]
-                    else:
-                        # After first reindex, dists is now 1D so need
-                        # to reindex like this instead
-                        idx = np.where(
-                            dist_wsp <= (0.5*cutoff_scale + 0.001)
-                        )[0]
-                        nc_idx = nc_idx[idx]
-                        nj_idx = nj_idx[idx]
-                        dists = dists[idx]
-                    if len(nc_idx) == 0:
-                        break
-                    # If ion-ion vector has been < halfway to all WS
-                    # points, this is a valid image! Save it
-                    if n == len(ws_list_norm) - 1:
-                        n_im_idx = n_sc_images[nc_idx, i, nj_idx]
-                        sc_image_i[nc_idx, i, nj_idx, n_im_idx] = im
-                        n_sc_images[nc_idx, i, nj_idx] += 1
-
-        self._n_sc_images = n_sc_images
-        # Truncate sc_image_i to the maximum ACTUAL images rather than
-        # the maximum possible images to avoid storing and summing over
-        # nonexistent images
-        self._sc_image_i = sc_image_i[:, :, :, :np.max(n_sc_images)]
-
-    def to_dict(self) -> Dict[str, Any]:
-        """
-        Convert to a dictionary. See ForceConstants.from_dict for
-        details on keys/values
-
-        Returns
-        -------
-        dict
-        """
-        dout = _obj_to_dict(self, ['crystal', 'force_constants',
-                                   'n_cells_in_sc', 'sc_matrix',
-                                   'cell_origins', 'born',
-                                   'dielectric'])
-        return dout
-
-    def to_json_file(self, filename: str) -> None:
-        """
-        Write to a JSON file. JSON fields are equivalent to
-        ForceConstants.from_dict keys
-
-        Parameters
-        ----------
-        filename
-            Name of the JSON file to write to
-        """
-        _obj_to_json_file(self, filename)
-
-    @classmethod
-    def from_dict(cls: Type[T], d: Dict[str, Any]) -> T:
-        """
-        Convert a dictionary to a ForceConstants object
-
-        Parameters
-        ----------
-        d
-            A dictionary with the following keys/values:
-
-            - 'crystal': dict, see Crystal.from_dict
-            - 'force_constants': (n_cells_in_sc, 3*crystal.n_atoms, 3*crystal.n_atoms) float ndarray
-            - 'force_constants_unit': str
-            - 'sc_matrix': (3,3) int ndarray
-            - 'cell_origins': (n_cells_in_sc, 3) int ndarray
-
-            There are also the following optional keys:
-
-            - 'born': (3*crystal.n_atoms, 3, 3) float ndarray
-            - 'born_unit': str
-            - 'dielectric': (3, 3) float ndarray
-            - 'dielectric_unit': str
-
-        Returns
-        -------
-        forceconstants
-        """
-        crystal = Crystal.from_dict(d['crystal'])
-        d = _process_dict(
-            d, quantities=['force_constants', 'born', 'dielectric'],
-            optional=['born', 'dielectric'])
-        return cls(crystal, d['force_constants'], d['sc_matrix'],
-                   d['cell_origins'], d['born'], d['dielectric'])
-
-    @classmethod
-    def from_total_fc_with_dipole(
-            cls: Type[T], crystal: Crystal, force_constants: Quantity,
-            sc_matrix: np.ndarray, cell_origins: np.ndarray, born: Quantity,
-            dielectric: Quantity) -> T:
-        """
-        Subtracts a dipole term from the input force constants matrix
-        to convert the 'total' force constants matrix containing both
-        dipole-dipole interactions and short-ranged interactions to one
-        containing only short-ranged interactions, as defined in eq. 78
-        from [4]_ . This correction may need to be applied as Euphonic
-        requires the short-ranged matrix, whereas some codes output the
-        total matrix (e.g Phonopy, but note that the from_phonopy
-        method will apply this correction automatically). If the force
-        constants matrix is already short ranged or the material has
-        zero Born effective charges or dielectric permittivity tensor
-        this correction should not be applied.
-
-        .. [4] X. Gonze and C. Lee., Phys. Rev. B, 1997, 55, 10355-10368
-
-        Parameters
-        ----------
-        force_constants
-            Shape (n_cells_in_sc, 3*n_atoms, 3*n_atoms) float Quantity
-            in energy/length**2 units. The 'total' force constants
-            matrix containing both dipole-dipole interactions and
-            short-ranged interactions.
-        crystal
-            Lattice and atom information
-        sc_matrix
-            Shape (3, 3) int ndarray. The transformation matrix to
-            convert from the unit cell vectors to the supercell vectors
-        cell_origins
-            Shape (n_cells_in_sc, 3) int ndarray. The origin
-            coordinates of each unit cell within the supercell, in
-            units of the unit cell vectors
-        born
-            Shape (n_atoms, 3, 3) float Quantity in charge units. The
-            Born charges for each atom
-        dielectric
-            Shape (3, 3) float Quantity in charge**2/(length*energy)
-            units. The dielectric permittivity tensor
-
-        Returns
-        -------
-        forceconstants
-        """
-        n_atoms = crystal.n_atoms
-        n_cells = len(cell_origins)
-        # The dynamical matrix of the supercell at Q=0 is equivalent
-        # to the unit cell FC. Correct FC by calculating the dipole
-        # correction to the supercell dynamical matrix and subtracting
-        # it from the FC.
-        # First create Crystal and Born charges for supercell
-        sc_atom_r = (np.repeat(cell_origins, n_atoms, axis=0)
-                     + np.tile(crystal.atom_r, (n_cells, 1)))
-        sc_to_u_matrix = np.linalg.inv(sc_matrix).transpose()
-        sc_atom_r_scell = np.einsum('ij,jk->ik', sc_atom_r, sc_to_u_matrix)
-        sc_vecs = np.einsum('ji,ik->jk', sc_matrix, crystal._cell_vectors)
-        sc_mass = np.tile(crystal._atom_mass, n_cells)
-        sc_crystal = Crystal(sc_vecs*ureg('bohr'), sc_atom_r_scell,
-                             np.tile(crystal.atom_type, n_cells),
-                             sc_mass*ureg('m_e'))
-        sc_born = np.tile(born.to(ureg('e')).magnitude,
-                          (n_cells, 1, 1))
-        # Now initialise, calculate and subtract the dipole correction
-        dipole_data = cls._dipole_correction_init(
-            sc_crystal, sc_born, dielectric.magnitude)
-        corr = cls._calculate_dipole_correction(
-            np.array([0., 0., 0.]), sc_crystal, sc_born,
-            dielectric.magnitude, dipole_data)
-        corr = np.transpose(
-            np.reshape(corr[:, :3*n_atoms], (n_cells, 3*n_atoms, 3*n_atoms)),
-            axes=[0, 2, 1])
-        fc = force_constants.to('hartree/bohr**2').magnitude
-        fc_corrected = np.real(fc - corr)*ureg('hartree/bohr**2').to(
-            force_constants.units)
-        return cls(crystal, fc_corrected, sc_matrix, cell_origins,
-                   born=born, dielectric=dielectric)
-
-    @classmethod
-    def from_json_file(cls: Type[T], filename: str) -> T:
-        """
-        Read from a JSON file. See ForceConstants.from_dict for required
-        fields
-
-        Parameters
-        ----------
-        filename
-            The file to read from
-
-        Returns
-        -------
-        forceconstants
-        """
-        return _obj_from_json_file(cls, filename)
-
-    @classmethod
-    def from_castep(cls: Type[T], filename: str) -> T:
-        """
-        Reads from a .castep_bin or .check file
-
-        Parameters
-        ----------
-        filename
-            The path and name of the file to read
-
-        Returns
-        -------
-        forceconstants
-        """
-        data = castep.read_interpolation_data(filename)
-        return cls.from_dict(data)
-
-    @classmethod
-    def from_phonopy(cls: Type[T],
-                     path: str = '.',
-                     summary_name: str = 'phonopy.yaml',
-                     born_name: Optional[str] = None,
-                     fc_name: str = 'FORCE_CONSTANTS',
-                     fc_format: Optional[str] = None) -> T:
-        """
-        Reads data from the phonopy summary file (default phonopy.yaml)
-        and optionally born and force constants files. Only attempts to
-        read from born or force constants files if these can't be found
-        in the summary file.
-
-        Parameters
-        ----------
-        path
-            Path to directory containing the file(s)
-        summary_name
-            Filename of phonopy summary file, default phonopy.yaml. By
-            default any information (e.g. force constants) read from
-            this file takes priority
-        born_name
-            Name of the Phonopy file containing born charges and
-            dielectric tensor (by convention in Phonopy this would be
-            called BORN). Is only read if Born charges can't be found in
-            the summary_name file
-        fc_name
-            Name of file containing force constants. Is only read if
-            force constants can't be found in summary_name
-        fc_format
-            One of {'phonopy', 'hdf5'}. Format of file containing force
-            constants data, if it can't be determined from the
-            extension. FORCE_CONSTANTS is type 'phonopy'
-
-        Returns
-        -------
-        forceconstants
-        """
-        data = phonopy.read_interpolation_data(
-            path=path, summary_name=summary_name, born_name=born_name,
-            fc_name=fc_name, fc_format=fc_format)
-        fc = cls.from_dict(data)
-        if fc.born is not None:
-            fc = cls.from_total_fc_with_dipole(
-                fc.crystal, fc.force_constants, fc.sc_matrix, fc.cell_origins,
-                born=fc.born, dielectric=fc.dielectric)
-        return fc
+import math
+import os
+import sys
+import warnings
+from typing import (Literal, Optional, Tuple, Union,
+                    TypeVar, Sequence, Dict, Any, Type)
+from multiprocessing import cpu_count
+
+import numpy as np
+from pint import Quantity
+from scipy.special import erfc
+from threadpoolctl import threadpool_limits
+
+import euphonic
+from euphonic.validate import (
+    _check_constructor_inputs, _check_unit_conversion,
+    _ensure_contiguous_args, _ensure_contiguous_attrs)
+from euphonic.io import (_obj_to_json_file, _obj_from_json_file,
+                         _obj_to_dict, _process_dict)
+from euphonic.readers import castep, phonopy
+from euphonic.util import (is_gamma, get_all_origins,
+                           mode_gradients_to_widths,
+                           _get_supercell_relative_idx)
+from euphonic import (ureg, Crystal, QpointPhononModes,
+                      QpointFrequencies)
+
+
+class ImportCError(Exception):
+    pass
+
+
+class ForceConstants:
+    """
+    A class to read and store the data required for a phonon
+    interpolation calculation from model (e.g. CASTEP) output,
+    and calculate phonon frequencies/eigenvectors at arbitrary q-points
+    via Fourier interpolation
+
+    Attributes
+    ----------
+    crystal
+        Lattice and atom information
+    force_constants
+        Shape (n_cells_in_sc, 3*n_atoms, 3*n_atoms) float Quantity in
+        energy/length**2 units. The force constants matrix
+    sc_matrix
+        Shape (3, 3) int ndarray. The transformation matrix to convert
+        from the unit cell vectors to the supercell vectors
+    n_cells_in_sc
+        Number of cells in the supercell
+    cell_origins
+        Shape (n_cells_in_sc, 3) int ndarray. The origin coordinates of
+        each unit cell within the supercell, in units of the unit cell
+        vectors
+    born
+        Shape (n_atoms, 3, 3) float Quantity in charge units or None.
+        The Born charges for each atom
+    dielectric
+        Shape (3, 3) float Quantity in charge**2/(length*energy) units
+        or None. The dielectric permittivity tensor
+    """
+    T = TypeVar('T', bound='ForceConstants')
+
+    def __init__(self, crystal: Crystal, force_constants: Quantity,
+                 sc_matrix: np.ndarray, cell_origins: np.ndarray,
+                 born: Optional[Quantity] = None,
+                 dielectric: Optional[Quantity] = None) -> None:
+        """
+        Parameters
+        ----------
+        crystal
+            Lattice and atom information
+        force_constants
+            Shape (n_cells_in_sc, 3*n_atoms, 3*n_atoms) float Quantity
+            in energy/length**2 units. The force constants matrix
+        sc_matrix
+            Shape (3, 3) int ndarray. The transformation matrix to
+            convert from the unit cell vectors to the supercell vectors
+        cell_origins
+            Shape (n_cells_in_sc, 3) int ndarray. The origin
+            coordinates of each unit cell within the supercell, in
+            units of the unit cell vectors
+        born
+            Shape (n_atoms, 3, 3) float Quantity in charge units. The
+            Born charges for each atom
+        dielectric
+            Shape (3, 3) float Quantity in charge**2/(length*energy)
+            units. The dielectric permittivity tensor
+        """
+        # Check independent inputs first
+        _check_constructor_inputs(
+            [crystal, sc_matrix], [Crystal, np.ndarray], [(), (3, 3)],
+            ['crystal', 'sc_matrix'])
+        n_at = crystal.n_atoms
+        n_sc = int(np.rint(np.absolute(np.linalg.det(sc_matrix))))
+        # Now check other derived input shapes
+        _check_constructor_inputs(
+            [force_constants, cell_origins, born, dielectric],
+            [Quantity, np.ndarray, [Quantity, type(None)],
+                [Quantity, type(None)]],
+            [(n_sc, 3*n_at, 3*n_at), (n_sc, 3), (n_at, 3, 3), (3, 3)],
+            ['force_constants', 'cell_origins', 'born', 'dielectric'])
+        self.crystal = crystal
+        self._force_constants = force_constants.to(
+            'hartree/bohr**2').magnitude
+        self.force_constants_unit = str(force_constants.units)
+        self.sc_matrix = sc_matrix
+        self.cell_origins = cell_origins
+        self.n_cells_in_sc = n_sc
+
+        if born is not None:
+            self._born = born.to(ureg.e).magnitude
+            self.born_unit = str(born.units)
+            self._dielectric = dielectric.to(ureg(
+                'e**2/(bohr*hartree)')).magnitude
+            self.dielectric_unit = str(dielectric.units)
+        else:
+            self._born = born
+            self.born_unit = str(ureg.e)
+            self._dielectric = dielectric
+            self.dielectric_unit = str(ureg((
+                'e**2/(bohr*hartree)')))
+
+    @property
+    def force_constants(self) -> Quantity:
+        return self._force_constants*ureg(
+            'hartree/bohr**2').to(
+                self.force_constants_unit)
+
+    @force_constants.setter
+    def force_constants(self, value: Quantity) -> None:
+        self.force_constants_unit = str(value.units)
+        self._force_constants = value.to('hartree/bohr**2').magnitude
+
+    @property
+    def born(self) -> Union[Quantity, None]:
+        if self._born is not None:
+            return self._born*ureg('e').to(self.born_unit)
+        else:
+            return None
+
+    @born.setter
+    def born(self, value: Quantity) -> None:
+        self.born_unit = str(value.units)
+        self._born = value.to('e').magnitude
+
+    @property
+    def dielectric(self) -> Union[Quantity, None]:
+        if self._dielectric is not None:
+            return self._dielectric*ureg((
+                'e**2/(bohr*hartree)')).to(self.dielectric_unit)
+        else:
+            return None
+
+    @dielectric.setter
+    def dielectric(self, value: Quantity) -> None:
+        self.dielectric_unit = str(value.units)
+        self._dielectric = value.to('e**2/(bohr*hartree)').magnitude
+
+    def __setattr__(self, name: str, value: Any) -> None:
+        _check_unit_conversion(self, name, value,
+                               ['force_constants_unit', 'born_unit',
+                                'dielectric_unit'])
+        super(ForceConstants, self).__setattr__(name, value)
+
+    def calculate_qpoint_phonon_modes(
+            self,
+            qpts: np.ndarray,
+            weights: Optional[np.ndarray] = None,
+            asr: Optional[Literal['realspace', 'reciprocal']] = None,
+            dipole: bool = True,
+            dipole_parameter: float = 1.0,
+            splitting: bool = True,
+            insert_gamma: bool = False,
+            reduce_qpts: bool = True,
+            use_c: Optional[bool] = None,
+            n_threads: Optional[int] = None,
+            return_mode_gradients: bool = False
+            ) -> Union[QpointPhononModes,
+                       Tuple[QpointPhononModes, Quantity]]:
+        """
+        Calculate phonon frequencies and eigenvectors at specified
+        q-points from a force constants matrix via Fourier interpolation
+
+        Parameters
+        ----------
+        qpts
+            Shape (n_qpts, 3) float ndarray. The q-points to
+            interpolate onto in reciprocal cell vector units
+        weights
+            Shape (n_qpts,) float ndarray. The weight for each q-point.
+            If not given, equal weights are
+            applied
+        asr
+            Which acoustic sum rule correction to apply. 'realspace' applies
+            the correction to the force constant matrix in real
+            space. 'reciprocal' applies the correction to the dynamical matrix
+            at every q-point
+        dipole
+            Whether to calculate the dipole tail correction to the dynamical
+            matrix at each q-point using the Ewald sum, if the Born
+            charges and dielectric permitivitty tensor are present.
+        dipole_parameter
+            Changes the cutoff in real/reciprocal space for the dipole
+            Ewald sum. A higher value uses more reciprocal terms. If tuned
+            correctly this can result in performance improvements. See
+            euphonic-optimise-dipole-parameter program for help on choosing
+            a good dipole_parameter.
+        splitting
+            Whether to calculate the LO-TO splitting at the gamma
+            points. Only applied if dipole is True and the Born charges
+            and dielectric permitivitty tensor are present.
+        insert_gamma
+            If splitting is True, this will insert gamma points into
+            qpts to store the extra split frequencies. Note this means
+            that the length of qpts in the output QpointPhononModes
+            object will not necessarily be the same as the input qpts.
+            If qpts already contains double gamma points where you want
+            split frequencies, leave this as False.
+        reduce_qpts
+            Whether to use periodicity to reduce all q-points and only
+            calculate for unique q-points within the 1st BZ. This won't
+            change the output but could increase performance.
+        use_c
+            Whether to use C instead of Python to calculate and
+            diagonalise the dynamical matrix. By default this is None
+            and will use the C extension if it is installed, and fall
+            back to Python if not. If use_c=True, this will force use
+            of the C extension and an error will be raised if it
+            is not installed. If use_c=False, this will force use
+            of Python, even if the C extension is installed
+        n_threads
+            The number of OpenMP threads to use when looping over
+            q-points in C. By default this is None, in which case
+            the environment variable EUPHONIC_NUM_THREADS will be used
+            to determine number of threads, if this is not set then
+            the value returned from multiprocessing.cpu_count() will be
+            used
+        return_mode_gradients
+            Whether to also return the vector mode gradients (in
+            Cartesian coordinates). These can be converted to mode
+            widths and used in adaptive broadening for DOS. For details
+            on how these are calculated see the Notes section
+
+        Returns
+        -------
+        qpoint_phonon_modes
+            A QpointPhononModes object containing the interpolated
+            frequencies and eigenvectors at each q-point. Note that if
+            there is LO-TO splitting, and insert_gamma=True, the number
+            of input q-points may not be the same as in the output
+            object
+        mode_gradients
+            Optional shape (n_qpts, n_branches, 3) float Quantity,
+            the vector mode gradients dw/dq in Cartesian coordinates.
+            Is only returned if return_mode_gradients is true
+
+
+        Raises
+        ------
+        ImportCError
+            If use_c=True but the C extension cannot be imported
+
+        Notes
+        -----
+
+        **Phonon Frequencies/Eigenvectors Calculation**
+
+        Phonon frequencies/eigenvectors are calculated at any q-point by
+        Fourier interpolation of a force constants matrix. The force
+        constants matrix is defined as [1]_:
+
+        .. math::
+
+          \\Phi_{\\alpha {\\alpha}^\\prime}^{\\kappa {\\kappa}^\\prime}(0,l) =
+          \\frac{\\partial^{2}E}{{\\partial}u_{\\kappa\\alpha0}{\\partial}u_{{{\\kappa}^\\prime}{{\\alpha}^\\prime}l}}
+
+        where the unit cell containing the displaced atom is labelled
+        :math:`0` and :math:`l` runs over unit cells in the crystal,
+        :math:`\\kappa` runs over atoms in the unit cell, :math:`\\alpha`
+        runs over the Cartesian directions, and :math:`u_{\\kappa{\\alpha}l}`
+        is the displacement of atom :math:`\\kappa` in cell :math:`l` in
+        direction :math:`\\alpha` from its equilibrium position. This can be
+        used to calculate the dynamical matrix
+        :math:`D_{\\alpha {\\alpha}^\\prime}^{\\kappa {\\kappa}^\\prime}` at
+        :math:`\\mathbf{q}`:
+
+        .. math::
+
+          D_{\\alpha {\\alpha^\\prime}}^{\\kappa {\\kappa^\\prime}}(\\mathbf{q}) =
+          \\frac{1}{\\sqrt{M_\\kappa M_{\\kappa^\\prime}}}
+          \\sum_{l}\\Phi_{\\alpha {\\alpha^\\prime}}^{\\kappa {\\kappa^\\prime}}\\exp\\left(-i\\mathbf{q}\\cdot \\mathbf{R}_l\\right)
+
+        where :math:`M_\\kappa` is the mass of atom :math:`\\kappa`,
+        :math:`\\mathbf{R}_l` is the vector from the origin to the
+        :math:`l^\\textrm{th}` unit cell. The eigenvalue equation
+        for the dynamical matrix is then:
+
+        .. math::
+
+          \\sum_{\\kappa^\\prime \\alpha^\\prime}D_{\\alpha {\\alpha}^\\prime}^{\\kappa {\\kappa}^\\prime}(\\mathbf{q}) {e}_{\\mathbf{q}\\nu{\\kappa^\\prime}{\\alpha^\\prime}} =
+          {\\omega}_{\\mathbf{q}\\nu}^2 {e}_{\\mathbf{q}\\nu\\kappa\\alpha}
+
+        where the eigenvalues :math:`{\\omega}_{\\mathbf{q}\\nu}^2` are the
+        square of the phonon frequencies of mode :math:`\\nu` at
+        :math:`\\mathbf{q}`, and the eigenvectors
+        :math:`\\mathbf{e}_{\\mathbf{q}\\nu\\kappa}` are the phonon
+        polarisation vectors at :math:`\\mathbf{q}` of mode :math:`\\nu`
+        for atom :math:`\\kappa`. The produced eigenvectors are normalised
+        such that:
+
+        .. math::
+
+          \\sum_{\\kappa}{|\\mathbf{e}_{\\mathbf{q}\\nu\\kappa}|^2} = 1
+
+        In polar materials, there is an additional long-ranged
+        correction to the force constants matrix (applied if
+        dipole=True) and a non-analytical correction at the gamma point
+        [2]_ (applied if splitting=True).
+
+        .. [1] M. T. Dove, Introduction to Lattice Dynamics, Cambridge University Press, Cambridge, 1993, 83-87
+        .. [2] X. Gonze, J. C. Charlier, D. C. Allan, M. P. Teter, Phys. Rev. B, 1994, 50, 13035-13038
+
+        **Mode Gradients Calculation**
+
+        The mode gradients can be used to calculate mode widths to be used
+        in the adaptive broadening scheme [3]_ when computing a DOS - this
+        broadens each mode contribution individually according to its mode
+        width. The mode widths are proportional to the mode gradients and
+        can be estimated using ``euphonic.util.mode_gradients_to_widths``
+
+        The mode gradients :math:`\\frac{d\\omega_{\\mathbf{q}\\nu}}{d\\mathbf{q}}` at each :math:`\\mathbf{q}`
+        are calculated at the same time as the phonon frequencies and
+        eigenvectors as follows.
+
+        Firstly, the eigenvalue equation above can be written in matrix
+        form as:
+
+        .. math::
+
+          E(\\mathbf{q})\\Omega(\\mathbf{q}) = D(\\mathbf{q})E(\\mathbf{q})
+
+        .. math::
+
+          \\Omega(\\mathbf{q}) = E^{-1}(\\mathbf{q})D(\\mathbf{q})E(\\mathbf{q})
+
+        Where :math:`\\Omega(\\mathbf{q})` is the diagonal matrix of phonon
+        frequencies squared :math:`\\omega_{\\mathbf{q}\\nu}^{2}` and :math:`E(\\mathbf{q})`
+        is the matrix containing eigenvectors for all modes.
+        :math:`\\frac{d\\omega_{\\mathbf{q}\\nu}}{d\\mathbf{q}}`, can then
+        be obtained by differentiating the above equation with respect
+        to :math:`\\mathbf{q}` using the product rule:
+
+        .. math::
+
+          \\frac{d\\Omega}{d\\mathbf{q}} = 2\\omega_{\\mathbf{q}\\nu}\\frac{d\\omega_{\\mathbf{q}\\nu}}{d\\mathbf{q}}\\delta_{\\nu \\nu^{\\prime}}
+
+        .. math::
+
+          \\frac{d\\omega_{\\mathbf{q}\\nu}}{d\\mathbf{q}} = \\frac{1}{2\\omega_{\\mathbf{q}\\nu}}{(
+          \\frac{d{E^{-1}}}{d\\mathbf{q}}DE +
+          E^{-1}\\frac{dD}{d\\mathbf{q}}E +
+          E^{-1}D\\frac{dE}{d\\mathbf{q}})}
+
+        Given that eigenvectors are normalised and orthogonal, an identity can be employed:
+
+        .. math::
+
+          \\frac{d}{d\\lambda}E^{\\prime}E = 0
+
+        So terms involving the first derivative of the eigenvector matrix can be set to zero, resulting in:
+
+        .. math::
+
+          \\frac{d\\omega_{\\mathbf{q}\\nu}}{d\\mathbf{q}} = \\frac{1}{2\\omega_{\\mathbf{q}\\nu}}{(E^{-1}\\frac{dD}{d\\mathbf{q}}E)}
+
+        :math:`\\frac{dD}{d\\mathbf{q}}` can be obtained by differentiating the Fourier equation above:
+
+        .. math::
+
+          \\frac{dD_{\\alpha {\\alpha}^\\prime}^{\\kappa {\\kappa}^\\prime}}{d\\mathbf{q}} =
+          \\frac{-i \\mathbf{R}_l}{\\sqrt{M_\\kappa M_{\\kappa ^\\prime}}}
+          \\sum_{l}\\Phi_{\\alpha\\alpha^\\prime}^{\\kappa\\kappa^\\prime}\\exp\\left(-i\\mathbf{q}\\cdot \\mathbf{R}_l\\right)
+
+        .. [3] J. R. Yates, X. Wang, D. Vanderbilt and I. Souza, Phys. Rev. B, 2007, 75, 195121
+        """
+        qpts, freqs, weights, evecs, grads = self._calculate_phonons_at_qpts(
+            qpts, weights, asr, dipole, dipole_parameter, splitting,
+            insert_gamma, reduce_qpts, use_c, n_threads,
+            return_mode_gradients, return_eigenvectors=True)
+        qpt_ph_modes = QpointPhononModes(
+            self.crystal, qpts, freqs, evecs, weights=weights)
+        if return_mode_gradients:
+            return qpt_ph_modes, grads
+        else:
+            return qpt_ph_modes
+
+    def calculate_qpoint_frequencies(
+            self,
+            qpts: np.ndarray,
+            weights: Optional[np.ndarray] = None,
+            asr: Optional[Literal['realspace', 'reciprocal']] = None,
+            dipole: bool = True,
+            dipole_parameter: float = 1.0,
+            splitting: bool = True,
+            insert_gamma: bool = False,
+            reduce_qpts: bool = True,
+            use_c: Optional[bool] = None,
+            n_threads: Optional[int] = None,
+            return_mode_gradients: bool = False,
+            ) -> Union[QpointFrequencies,
+                       Tuple[QpointFrequencies, Quantity]]:
+        """
+        Calculate phonon frequencies (without eigenvectors) at specified
+        q-points. See ForceConstants.calculate_qpoint_phonon_modes for
+        argument and algorithm details
+        """
+        qpts, freqs, weights, _, grads = self._calculate_phonons_at_qpts(
+            qpts, weights, asr, dipole, dipole_parameter, splitting,
+            insert_gamma, reduce_qpts, use_c, n_threads,
+            return_mode_gradients, return_eigenvectors=False)
+        qpt_freqs = QpointFrequencies(
+            self.crystal, qpts, freqs, weights=weights)
+        if return_mode_gradients:
+            return qpt_freqs, grads
+        else:
+            return qpt_freqs
+
+    def _calculate_phonons_at_qpts(
+            self,
+            qpts: np.ndarray,
+            weights: Optional[np.ndarray],
+            asr: Optional[Literal['realspace', 'reciprocal']],
+            dipole: bool,
+            dipole_parameter: float,
+            splitting: bool,
+            insert_gamma: bool,
+            reduce_qpts: bool,
+            use_c: Optional[bool],
+            n_threads: Optional[int],
+            return_mode_gradients: bool,
+            return_eigenvectors: bool) -> Tuple[
+                np.ndarray, Quantity, Optional[np.ndarray],
+                Optional[np.ndarray], Optional[Quantity]]:
+        """
+        Calculates phonon frequencies, and optionally eigenvectors and
+        phonon frequency gradients. See calculate_qpoint_phonon_modes
+        for argument details
+
+        Returns
+        -------
+        qpts
+            Shape (n_qpts, 3) float ndarray. The calculated q-points,
+            note that this may not be the same as the input q-points
+            if splitting and insert_gamma=True and there are gamma
+            points
+        frequencies
+            Shape (n_qpts, 3*n_atoms) float Quantity in energy units,
+            the phonon frequencies. n_qpts may not be the same as the
+            number of input q-points, if splitting and
+            insert_gamma=True and there are gamma points
+        weights
+            Shape (n_qpts,) float ndarray. The weight of each q-point
+        eigenvectors
+            Shape (n_qpts, 3*n_atoms, n_atoms, 3) complex ndarray
+        gradients
+            Shape (n_qpts, 3*n_atoms, 3) float Quantity in
+            energy*length units. The phonon mode gradients
+        """
+        # Check weights is of appropriate type and shape, to avoid doing all
+        # the interpolation only for it to fail creating QpointPhononModes
+        _check_constructor_inputs(
+            [weights], [[np.ndarray, type(None)]], [(len(qpts),)], ['weights'])
+
+        # Set default splitting params
+        if self.born is None:
+            dipole = False
+        if not dipole:
+            splitting = False
+
+        if splitting and insert_gamma:
+            # Duplicate gamma points where there is splitting
+            gamma_i = np.where(is_gamma(qpts))[0]
+            split_gamma = gamma_i[np.where(
+                np.logical_and(gamma_i > 0, gamma_i < len(qpts) - 1))]
+            qpts = np.insert(qpts, split_gamma, qpts[split_gamma], axis=0)
+            # It doesn't necessarily make sense to use both weights
+            # (usually used for DOS) and splitting (usually used for
+            # bandstructures) but we need to handle this case anyway
+            # Where 1 q-point splits into 2, half the weight for each
+            if weights is not None:
+                # Don't change original array
+                weights = np.copy(weights)
+                weights[split_gamma] = weights[split_gamma]/2
+                weights = np.insert(weights, split_gamma,
+                                    weights[split_gamma])
+
+        if reduce_qpts:
+            norm_qpts = qpts - np.rint(qpts)
+            # Ensure gamma points are exactly zero, otherwise you may
+            # have a case where small fp differences mean np.unique
+            # doesn't reduce them, yet they're all classified as gamma
+            # points. This causes indexing errors later when calculating
+            # q-directions as there are then points in reduced_qpts
+            # whose index isn't in qpts_i
+            gamma_i = np.where(is_gamma(qpts))[0]
+            n_gamma = len(gamma_i)
+            norm_qpts[gamma_i] = 0.
+            reduced_qpts, qpts_i = np.unique(norm_qpts, return_inverse=True,
+                                             axis=0)
+            qpts_i = qpts_i.flatten()
+            
+            n_rqpts = len(reduced_qpts)
+            # Special handling of gamma points - don't reduce gamma
+            # points if LO-TO splitting
+            if splitting and n_gamma > 1:
+                # Replace any gamma points and their indices with new
+                # gamma points appended onto the reduced q-point array,
+                # so each gamma can have its own splitting
+                qpts_i[gamma_i[1:]] = range(n_rqpts, n_rqpts + n_gamma - 1)
+                reduced_qpts = np.append(reduced_qpts,
+                                         np.tile(np.array([0., 0., 0., ]),
+                                                 (n_gamma - 1, 1)),
+                                         axis=0)
+                n_rqpts = len(reduced_qpts)
+        else:
+            reduced_qpts = qpts
+            qpts_i = np.arange(0, len(qpts), dtype=np.int32)
+            n_rqpts = len(qpts)
+
+        # Get q-directions for non-analytical corrections
+        if splitting:
+            split_idx = np.where(is_gamma(reduced_qpts))[0]
+            q_dirs = self._get_q_dirs(qpts, qpts_i, split_idx)
+        else:
+            split_idx = np.array([])
+            q_dirs = np.array([])
+
+        n_sc_shells = 2  # How many supercells out to search for atom images
+        # Construct list of supercell atom images
+        if self._is_outdated('_sc_image_i', self.crystal._cell_vectors,
+                             self.crystal.atom_r, self.sc_matrix,
+                             self.cell_origins, self.n_cells_in_sc):
+            self._calculate_supercell_images(n_sc_shells)
+
+        # Get a list of all the unique supercell image origins and cell
+        # origins in x, y, z and how to rebuild them to minimise
+        # expensive phase calculations later
+        sc_image_r = get_all_origins(
+            np.repeat(n_sc_shells, 3) + 1, min_xyz=-np.repeat(n_sc_shells, 3))
+        sc_origins = np.einsum('ij,jk->ik', sc_image_r,
+                               self.sc_matrix).astype(np.int32)
+        unique_sc_origins = [[] for i in range(3)]
+        unique_sc_i = np.zeros((len(sc_origins), 3), dtype=np.int32)
+        unique_cell_origins = [[] for i in range(3)]
+        unique_cell_i = np.zeros((len(self.cell_origins), 3), dtype=np.int32)
+        for i in range(3):
+            unique_sc_origins[i], unique_sc_i[:, i] = np.unique(
+                sc_origins[:, i], return_inverse=True)
+            unique_cell_origins[i], unique_cell_i[:, i] = np.unique(
+                self.cell_origins[:, i], return_inverse=True)
+        if return_mode_gradients:
+            cell_origins_cart = np.einsum('ij,jk->ik', self.cell_origins,
+                                          self.crystal._cell_vectors)
+            # Append 0. to sc_origins_cart, so that when being indexed by
+            # sc_image_i to get the origins for each image, an index of -1
+            # and a value of 0. can be used
+            sc_origins_cart = np.zeros((len(sc_origins) + 1, 3))
+            sc_origins_cart[:len(sc_origins)] = np.einsum(
+                'ij,jk->ik', sc_origins, self.crystal._cell_vectors)
+            ax = np.newaxis
+            all_origins_cart = (sc_origins_cart[self._sc_image_i]
+                                + cell_origins_cart[:, ax, ax, ax, :])
+        else:
+            all_origins_cart = np.zeros((0, 3), dtype=np.float64)
+
+        # Precompute dynamical matrix mass weighting
+        atom_mass = self.crystal._atom_mass
+        n_atoms = self.crystal.n_atoms
+        masses = np.tile(np.repeat(atom_mass, 3), (3*n_atoms, 1))
+        dyn_mat_weighting = 1/np.sqrt(masses*np.transpose(masses))
+
+        # Initialise dipole correction calc to FC matrix if required
+        if dipole and self._is_outdated(
+                '_dipole_init_data', self.crystal._cell_vectors,
+                self.crystal.atom_r, self._born, self._dielectric,
+                dipole_parameter):
+            self._dipole_init_data = self._dipole_correction_init(
+                self.crystal, self._born, self._dielectric, dipole_parameter)
+
+        force_constants = self._force_constants
+        if asr == 'realspace':
+            if self._is_outdated('_force_constants_asr',
+                                 self._force_constants, self.sc_matrix,
+                                 self.cell_origins, self.n_cells_in_sc,
+                                 self.crystal.n_atoms):
+                self._force_constants_asr = self._enforce_realspace_asr()
+            force_constants = self._force_constants_asr
+        # Precompute fc matrix weighted by number of supercell atom
+        # images (for cumulant method)
+        n_sc_images_repeat = (
+            self._n_sc_images.repeat(3, axis=2).repeat(3, axis=1))
+        fc_img_weighted = np.divide(
+            force_constants, n_sc_images_repeat, where=n_sc_images_repeat != 0)
+
+        recip_asr_correction = np.array([], dtype=np.complex128)
+        if asr == 'reciprocal':
+            # Calculate dyn mat at gamma for reciprocal ASR
+            q_gamma = np.array([0., 0., 0.])
+            dyn_mat_gamma, _ = self._calculate_dyn_mat(
+                q_gamma, fc_img_weighted, unique_sc_origins,
+                unique_sc_i, unique_cell_origins, unique_cell_i,
+                all_origins_cart)
+            if dipole:
+                dyn_mat_gamma += self._calculate_dipole_correction(
+                    q_gamma, self.crystal, self._born, self._dielectric,
+                    self._dipole_init_data)
+            recip_asr_correction = self._enforce_reciprocal_asr(dyn_mat_gamma)
+
+
+        rfreqs = np.zeros((n_rqpts, 3*n_atoms))
+        if return_eigenvectors:
+            n_reigenvecs = n_rqpts
+        else:
+            # Create dummy zero-length eigenvectors so this can be
+            # detected in C and eigenvectors won't be saved
+            n_reigenvecs = 0
+
+        if return_mode_gradients:
+            rmode_gradients = np.zeros((n_rqpts, 3*n_atoms, 3),
+                                       dtype=np.complex128)
+        else:
+            rmode_gradients = np.zeros((0, 3*n_atoms, 3), dtype=np.complex128)
+
+        euphonic_path = os.path.dirname(euphonic.__file__)
+        cext_err_msg = (f'Euphonic\'s C extension couldn\'t be imported '
+                        f'from {euphonic_path}, it may not have been '
+                        f'installed.')
+
+        # Check if C extension can be used and handle appropriately
+        use_c_status = False
+        if use_c is not False:
+            try:
+                import euphonic._euphonic as euphonic_c
+                use_c_status = True
+            except ImportError:
+                if use_c is None:
+                    warnings.warn((
+                        cext_err_msg
+                        + ' Falling back to pure Python calculation.'),
+                        stacklevel=3)
+                else:
+                    raise ImportCError(cext_err_msg)
+
+        if use_c_status is True:
+            if n_threads is None:
+                n_threads_env = os.environ.get(
+                    'EUPHONIC_NUM_THREADS', '')  # type: str
+                if n_threads_env:
+                    n_threads = int(n_threads_env)
+                else:
+                    n_threads = cpu_count()
+            # Temporary fix to https://github.com/pace-neutrons/Euphonic/issues/191
+            # Append extra elements to avoid overflow in eigenvectors
+            # in openblas
+            if n_reigenvecs > 0:
+                n_reigenvecs += 1
+            reigenvecs = np.zeros((n_reigenvecs, 3*n_atoms, n_atoms, 3),
+                                  dtype=np.complex128)
+            cell_vectors = self.crystal._cell_vectors
+            recip_vectors = self.crystal.reciprocal_cell().to(
+                '1/bohr').magnitude
+            # Get conj transpose - the dynamical matrix calculated in C
+            # is passed to Fortran libs so uses Fortran ordering, make
+            # sure reciprocal correction matches this. This only makes
+            # a very small difference and can only be seen in near-flat
+            # mode gradients, but should be corrected anyway
+            recip_asr_correction =  recip_asr_correction.conj().T
+            # Make sure all arrays are contiguous before calling C
+            (cell_vectors, recip_vectors, reduced_qpts, split_idx, q_dirs,
+             fc_img_weighted, sc_origins, recip_asr_correction,
+             dyn_mat_weighting, rfreqs, reigenvecs, rmode_gradients,
+             all_origins_cart) = _ensure_contiguous_args(
+                 cell_vectors, recip_vectors, reduced_qpts, split_idx,
+                 q_dirs, fc_img_weighted, sc_origins, recip_asr_correction,
+                 dyn_mat_weighting, rfreqs, reigenvecs, rmode_gradients,
+                 all_origins_cart)
+            attrs = ['_n_sc_images', '_sc_image_i', 'cell_origins']
+            dipole_attrs = ['atom_r', '_born', '_dielectric', '_H_ab',
+                            '_cells', '_gvec_phases', '_gvecs_cart',
+                            '_dipole_q0']
+            _ensure_contiguous_attrs(self, attrs, opt_attrs=dipole_attrs)
+            with threadpool_limits(limits=1):
+                euphonic_c.calculate_phonons(
+                    self, cell_vectors, recip_vectors, reduced_qpts,
+                    split_idx, q_dirs, fc_img_weighted, sc_origins,
+                    recip_asr_correction, dyn_mat_weighting, dipole,
+                    splitting, rfreqs, reigenvecs, rmode_gradients,
+                    all_origins_cart, n_threads)
+        else:
+            reigenvecs = np.zeros((n_reigenvecs, 3*n_atoms, n_atoms, 3),
+                                  dtype=np.complex128)
+            for qi, qpt in enumerate(reduced_qpts):
+                q_dir = None
+                if splitting and is_gamma(qpt):
+                    q_dir_idx = np.where(split_idx == qi)[0][0]
+                    q_dir = q_dirs[q_dir_idx]
+                rfreqs[qi], evecs, grads = self._calculate_phonons_at_q(
+                    qpt, fc_img_weighted, unique_sc_origins, unique_sc_i,
+                    unique_cell_origins, unique_cell_i, all_origins_cart,
+                    dyn_mat_weighting, recip_asr_correction, dipole, q_dir)
+                if return_eigenvectors:
+                    reigenvecs[qi] = evecs
+                if return_mode_gradients:
+                    rmode_gradients[qi] = grads
+
+        freqs = rfreqs[qpts_i]*ureg('hartree').to('meV')
+        if return_eigenvectors:
+            eigenvectors = reigenvecs[qpts_i]
+        else:
+            eigenvectors = None
+
+        mode_gradients = None
+        if return_mode_gradients:
+            max_real = np.amax(np.absolute(rmode_gradients.real))
+            idx = np.where(
+                rmode_gradients.imag/max_real > 1e-10)
+            n_idx = len(idx[0])
+            if n_idx > 0:
+                n_print = n_idx if n_idx < 5 else 5
+                warnings.warn(
+                    f'Unexpected values for mode gradients at {n_idx}/{rmode_gradients.size} '
+                    f'indices {[x for x in zip(*idx)][:n_print]}..., '
+                    f'expected near-zero imaginary elements, got values of '
+                    f'{rmode_gradients.imag[idx][:n_print]}..., compared to a '
+                    f'max real value of {max_real}. Data may have been lost '
+                    f'when casting to real mode gradients',
+                    stacklevel=3)
+            mode_gradients = rmode_gradients.real[qpts_i]*ureg(
+                'hartree*bohr').to(
+                    f'meV*{str(self.crystal.cell_vectors.units)}')
+        return qpts, freqs, weights, eigenvectors, mode_gradients
+
+    def _calculate_phonons_at_q(
+            self,
+            qpt: np.ndarray,
+            fc_img_weighted: np.ndarray,
+            unique_sc_origins: Sequence[Sequence[int]],
+            unique_sc_i: np.ndarray,
+            unique_cell_origins: Sequence[Sequence[int]],
+            unique_cell_i: np.ndarray,
+            all_origins_cart: np.ndarray,
+            dyn_mat_weighting: np.ndarray,
+            recip_asr_correction: np.ndarray,
+            dipole: bool,
+            q_dir: Optional[np.ndarray] = None
+            ) -> Tuple[np.ndarray, np.ndarray, Union[np.ndarray, None]]:
+        """
+        Given a q-point and some precalculated q-independent values,
+        calculate and diagonalise the dynamical matrix and return the
+        frequencies, eigenvectors and optionally mode gradients
+
+        Parameters
+        ----------
+        qpt
+            Shape (3,) float ndarray. The q-point to calculate
+        fc_img_weighted
+            Shape (n_cells_in_sc, 3*n_atoms, 3*n_atoms) float ndarray.
+            The force constants matrix weighted by the number of
+            supercell atom images for each ij displacement
+        unique_sc_origins
+            A list containing 3 lists of the unique supercell image
+            offsets in each direction. The supercell offset is
+            calculated by multiplying the supercell matrix by the
+            supercell image indices (obtained by _get_all_origins()). A
+            list of lists rather than a Numpy array is used as the 3
+            lists are independent and their size is not known
+            beforehand
+        unique_sc_i
+            Shape ((2*n_sc_shells + 1)**3, 3) int ndarray, where
+            n_sc_shells is how many supercells out to go to search for
+            atom images. The indices needed to reconstruct sc_origins
+            from the unique values in unique_sc_origins
+        unique_cell_origins
+            A list containing 3 lists of the unique cell origins in
+            each direction. A list of lists rather than a Numpy array
+            is used as the 3 lists are independent and their size is
+            not known beforehand
+        unique_cell_i
+            Shape (n_cells_in_sc, 3) int ndarray. The indices needed to
+            reconstruct cell_origins from the unique values in
+            unique_cell_origins
+        all_origins_cart
+            Shape (n_cells_in_sc, n_atoms, n_atoms, n_images, 3) or
+            (0, 3) float ndarray. The Cartesian coordinate of each atom
+            in each supercell image. Is only used if calculating
+            dynamical matrix gradients
+        dyn_mat_weighting
+            Shape (3*n_atoms, 3*n_atoms) float ndarray. The dynamical
+            matrix mass weighting
+        recip_asr_correction
+            Shape (3*n_atoms, 3*n_atoms) or (0,) complex ndarray. Is
+            only used if the reciprocal ASR was requested
+        dipole
+            Whether to apply the dipole correction
+        q_dir
+            Shape (3,) float ndarray, the q-direction to use in LO-TO
+            splitting, if applicable
+
+        Returns
+        -------
+        frequencies
+            Shape (3*n_atoms) float ndarray. The phonon frequencies
+        eigenvectors
+            Shape (3*n_atoms, n_atoms, 3) complex ndarray. The
+            eigenvectors
+        mode_gradients
+            Shape (3*n_atoms, 3) complex ndarray. The gradient for
+            each mode
+        """
+        n_atoms = self.crystal.n_atoms
+
+        dyn_mat, dmat_grad = self._calculate_dyn_mat(
+            qpt, fc_img_weighted, unique_sc_origins, unique_sc_i,
+            unique_cell_origins, unique_cell_i, all_origins_cart)
+
+        if dipole:
+            dipole_corr = self._calculate_dipole_correction(
+                qpt, self.crystal, self._born, self._dielectric,
+                self._dipole_init_data)
+            dyn_mat += dipole_corr
+
+        if len(recip_asr_correction) > 0:
+            dyn_mat += recip_asr_correction
+
+        # Calculate LO-TO splitting by calculating non-analytic
+        # correction to dynamical matrix
+        if q_dir is not None:
+            dyn_mat += self._calculate_gamma_correction(q_dir)
+
+        # Mass weight dynamical matrix
+        dyn_mat *= dyn_mat_weighting
+
+        evals, evecs = np.linalg.eigh(dyn_mat, UPLO='U')
+        evecs = np.reshape(np.transpose(evecs),
+                           (3*n_atoms, n_atoms, 3))
+        # Set imaginary frequencies to negative
+        imag_freqs = np.where(evals < 0)
+        evals = np.sqrt(np.abs(evals))
+        evals[imag_freqs] *= -1
+
+        if dmat_grad is not None:
+            n_modes = len(evecs)
+            dmat_grad *= dyn_mat_weighting[..., np.newaxis]
+            evecs_sq_view = np.reshape(evecs, (n_modes, n_modes))
+            mode_grads_xyz = np.einsum(
+                'ij,ik,jkl->il', np.conj(evecs_sq_view),
+                                 evecs_sq_view,
+                                 dmat_grad)/(2*evals[:, np.newaxis])
+            return evals, evecs, mode_grads_xyz
+        else:
+            return evals, evecs, None
+
+    def _calculate_dyn_mat(
+            self,
+            qpt: np.ndarray,
+            fc_img_weighted: np.ndarray,
+            unique_sc_origins: Sequence[Sequence[int]],
+            unique_sc_i: np.ndarray,
+            unique_cell_origins: Sequence[Sequence[int]],
+            unique_cell_i: np.ndarray,
+            all_origins_cart: np.ndarray) -> Tuple[np.ndarray,
+                                                   Optional[np.ndarray]]:
+        """
+        Calculate the non mass weighted dynamical matrix at a specified
+        q-point from the image weighted force constants matrix and the
+        indices specifying the periodic images. See eq. 1.5:
+        http://www.tcm.phy.cam.ac.uk/castep/Phonons_Guide/Castep_Phonons.html
+
+        Parameters
+        ----------
+        qpt
+            Shape (3,) float ndarray. The q-point to calculate
+        fc_img_weighted
+            Shape (n_cells_in_sc, 3*n_atoms, 3*n_atoms) float ndarray.
+            The force constants matrix weighted by the number of
+            supercell atom images for each ij displacement
+        unique_sc_origins
+            A list containing 3 lists of the unique supercell image
+            offsets in each direction. The supercell offset is
+            calculated by multiplying the supercell matrix by the
+            supercell image indices (obtained by _get_all_origins()). A
+            list of lists rather than a Numpy array is used as the 3
+            lists are independent and their size is not known
+            beforehand
+        unique_sc_i
+            Shape ((2*n_sc_shells + 1)**3, 3) int ndarray, where
+            n_sc_shells is how many supercells out to go to search for
+            atom images. The indices needed to reconstruct sc_origins
+            from the unique values in unique_sc_origins
+        unique_cell_origins
+            A list containing 3 lists of the unique cell origins in
+            each direction. A list of lists rather than a Numpy array
+            is used as the 3 lists are independent and their size is
+            not known beforehand
+        unique_cell_i
+            Shape (n_cells_in_sc, 3) int ndarray. The indices needed to
+            reconstruct cell_origins from the unique values in
+            unique_cell_origins
+        all_origins_cart
+            Shape (n_cells_in_sc, n_atoms, n_atoms, n_images, 3) or
+            (0, 3) float ndarray. The Cartesian coordinate of each atom
+            in each supercell image. Is only used if calculating
+            dynamical matrix gradients
+
+        Returns
+        -------
+        dyn_mat
+            Shape (3*n_atoms, 3*n_atoms) complex ndarray. The non mass
+            weighted dynamical matrix at q
+        dyn_mat_grad
+            Shape (3*n_atoms, 3*n_atoms, 3) complex ndarray. The dynamical
+            matrix gradient in each Cartesian direction
+        """
+        sc_image_i = self._sc_image_i
+
+        # Cumulant method: for each ij ion-ion displacement sum phases
+        # for all possible supercell images, then multiply by the cell
+        # phases to account for j ions in different cells. Then multiply
+        # by the image weighted fc matrix for each 3 x 3 ij displacement
+
+        # Make sc_phases 1 longer than necessary, so when summing phases
+        # for supercell images if there is no image, an index of -1 and
+        # hence phase of zero can be used
+        sc_phases = np.zeros(len(unique_sc_i) + 1, dtype=np.complex128)
+        sc_phases[:-1], cell_phases = self._calculate_phases(
+            qpt, unique_sc_origins, unique_sc_i, unique_cell_origins,
+            unique_cell_i)
+        sc_phase_sum = np.sum(sc_phases[sc_image_i],
+                              axis=3)
+
+        ax = np.newaxis
+        ij_phases = cell_phases[:, ax, ax]*sc_phase_sum
+        full_dyn_mat = fc_img_weighted*(
+            ij_phases.repeat(3, axis=2).repeat(3, axis=1))
+        dyn_mat = np.sum(full_dyn_mat, axis=0)
+        if len(all_origins_cart) > 0:
+            all_phases = np.einsum('ijkl,i->ijkl',
+                                   sc_phases[sc_image_i], cell_phases)
+            r_vec_sum = 1j*np.einsum('ijkl,ijklm->ijkm',
+                                     all_phases, all_origins_cart)
+            dmat_gradient = fc_img_weighted[..., ax]*(r_vec_sum.repeat(
+                3, axis=2).repeat(3, axis=1))
+            dmat_gradient = np.sum(dmat_gradient, axis=0)
+            return dyn_mat, dmat_gradient
+        else:
+            return dyn_mat, None
+
+    @staticmethod
+    def _dipole_correction_init(crystal: Crystal,
+                                born: np.ndarray,
+                                dielectric: np.ndarray,
+                                dipole_parameter: float = 1.0
+                                ) -> Dict[str, Union[float, np.ndarray]]:
+        """
+        Calculate the q-independent parts of the long range correction
+        to the dynamical matrix for efficiency. The method used is based
+        on the Ewald sum, see eqs 72-74 from Gonze and Lee PRB 55, 10355
+        (1997)
+
+        Parameters
+        ----------
+        crystal
+            Lattice and atom information
+        born
+            Shape (n_atoms, 3, 3) float Quantity in charge units. The
+            Born charges for each atom.
+        dielectric
+            Shape (3, 3) float Quantity in charge**2/(length*energy)
+            units. The dielectric permittivity tensor.
+        dipole_parameter
+            Changes the cutoff in real/reciprocal space for the dipole
+            Ewald sum. A higher value uses more reciprocal terms.
+
+        Returns
+        -------
+        dipole_init_data
+            A dictionary with the following keys/values:
+            - 'dipole_parameter': float
+                The input dipole parameter
+            - 'lambda': float
+                Scaling factor for the real space sums, derived from
+                dipole_parameter
+            - 'H_ab': (n_cells, n_elems, 3, 3) float ndarray
+                Where n_cells is the number of unit cells in the real
+                space sum, and n_elems is the number of elements in the
+                upper triangular of a (3*n_atoms, 3*n_atoms) matrix.
+            - 'cells': (n_cells, 3) float ndarray
+                The origin coordinates of cells used in the real space
+                sum
+            - 'gvecs_cart': (n_vecs, 3) float ndarray
+                The G vectors used in the reciprocal space sum in
+                Cartesian
+            - 'gvec_phases': (n_vecs, n_atoms) complex ndarray
+                e^i(G.r) for each G vector and atom in the unit cell
+            - 'dipole_q0': (3*n_atoms, 3*n_atoms) float ndarray
+                The dipole correction to the dynamical matrix at
+                q=0
+        """
+        cell_vectors = crystal._cell_vectors
+        recip = crystal.reciprocal_cell().to('1/bohr').magnitude
+        n_atoms = crystal.n_atoms
+        atom_r = crystal.atom_r
+        inv_dielectric = np.linalg.inv(dielectric)
+        sqrt_pi = math.sqrt(math.pi)
+
+        # Make guess for balance between real/recip terms
+        abc_mag = np.linalg.norm(cell_vectors, axis=1)
+        mean_abc_mag = np.prod(abc_mag)**(1.0/3)
+        # Using upper_lambda varname as lambda is a reserved keyword
+        upper_lambda = (sqrt_pi/mean_abc_mag*n_atoms**(1.0/6)
+                        *np.linalg.det(dielectric)**(1.0/6))
+        upper_lambda *= dipole_parameter
+        lambda_2 = upper_lambda**2
+
+        # Set limits and tolerances
+        max_shells = 50
+        frac_tol = 1e-15
+
+        # Calculate q=0 real space term
+        real_q0 = np.zeros((n_atoms, n_atoms, 3, 3))
+        # No. of independent i, j ion entries (to use i, j symmetry to
+        # minimise size of stored H_ab)
+        n_elems = np.sum(range(1, n_atoms + 1))
+        H_ab = np.zeros((0, n_elems, 3, 3))
+        cells = np.zeros((0, 3))
+        atom_r_cart = np.einsum('ij,jk->ik', atom_r, cell_vectors)
+        atom_r_e = np.einsum('ij,jk->ik', atom_r_cart, inv_dielectric)
+        for n in range(max_shells):
+            cells_tmp = ForceConstants._get_shell_origins(n)
+            cells_cart = np.einsum('ij,jk->ik', cells_tmp, cell_vectors)
+            cells_e = np.einsum(
+                'ij,jk->ik', cells_cart, inv_dielectric)
+            H_ab_tmp = np.zeros((len(cells_tmp), n_elems, 3, 3))
+            for i in range(n_atoms):
+                idx = np.sum(range(n_atoms - i, n_atoms), dtype=np.int32)
+                for j in range(i, n_atoms):
+                    if n == 0 and i == j:
+                        continue
+                    rij_cart = atom_r_cart[i] - atom_r_cart[j]
+                    rij_e = atom_r_e[i] - atom_r_e[j]
+                    diffs = rij_cart - cells_cart
+                    deltas = rij_e - cells_e
+                    norms_2 = np.einsum('ij,ij->i', deltas, diffs)*lambda_2
+                    norms = np.sqrt(norms_2)
+
+                    # Calculate H_ab
+                    exp_term = 2*np.exp(-norms_2)/(sqrt_pi*norms_2)
+                    erfc_term = erfc(norms)/(norms*norms_2)
+                    f1 = lambda_2*(3*erfc_term/norms_2 + exp_term*(3/norms_2 + 2))
+                    f2 = erfc_term + exp_term
+                    deltas_ab = np.einsum('ij,ik->ijk', deltas, deltas)
+                    H_ab_tmp[:, idx + j] = (
+                        np.einsum('i,ijk->ijk', f1, deltas_ab)
+                        - np.einsum('i,jk->ijk', f2, inv_dielectric))
+            # End series when current terms are less than the fractional
+            # tolerance multiplied by the term for the cell at R=0
+            if n == 0:
+                r0_max = np.amax(np.abs(H_ab_tmp))
+            if np.amax(np.abs(H_ab_tmp)) > frac_tol*r0_max:
+                H_ab = np.concatenate((H_ab, H_ab_tmp))
+                cells = np.concatenate((cells, cells_tmp))
+            else:
+                break
+        # Use compact H_ab to fill in upper triangular of realspace term
+        real_q0[np.triu_indices(n_atoms)] = np.sum(H_ab, axis=0)
+        real_q0 *= upper_lambda**3/math.sqrt(np.linalg.det(dielectric))
+
+        # Calculate the q=0 reciprocal term
+        recip_q0 = np.zeros((n_atoms, n_atoms, 3, 3), dtype=np.complex128)
+        # Add G = 0 vectors to list, for later calculations when q !=0,
+        # but don't calculate for q=0
+        gvecs_cart = np.array([[0., 0., 0.]])
+        gvec_phases = np.tile([1. + 0.j], (1, n_atoms))
+        for n in range(1, max_shells):
+            gvecs = ForceConstants._get_shell_origins(n)
+            gvecs_cart_tmp = np.einsum('ij,jk->ik', gvecs, recip)
+            gvec_dot_r = np.einsum('ij,kj->ik', gvecs, atom_r)
+            gvec_phases_tmp = np.exp(2j*math.pi*gvec_dot_r)
+            gvecs_ab = np.einsum('ij,ik->ijk', gvecs_cart_tmp, gvecs_cart_tmp)
+            k_len_2 = np.einsum(
+                'ijk,jk->i', gvecs_ab, dielectric)/(4*lambda_2)
+            recip_exp = np.exp(-k_len_2)/k_len_2
+            recip_q0_tmp = np.zeros((n_atoms, n_atoms, 3, 3),
+                                    dtype=np.complex128)
+            for i in range(n_atoms):
+                for j in range(i, n_atoms):
+                    phase_exp = gvec_phases_tmp[:, i]/gvec_phases_tmp[:, j]
+                    recip_q0_tmp[i, j] = np.einsum(
+                        'ijk,i,i->jk', gvecs_ab, phase_exp, recip_exp)
+            # End series when current terms are less than the fractional
+            # tolerance multiplied by the max term for the first shell
+            if n == 1:
+                first_shell_max = np.amax(np.abs(recip_q0_tmp))
+            if np.amax(np.abs(recip_q0_tmp)) > frac_tol*first_shell_max:
+                gvecs_cart = np.concatenate((gvecs_cart, gvecs_cart_tmp))
+                gvec_phases = np.concatenate((gvec_phases, gvec_phases_tmp))
+                recip_q0 += recip_q0_tmp
+            else:
+                break
+        vol = crystal.cell_volume().to('bohr^3').magnitude
+        recip_q0 *= math.pi/(vol*lambda_2)
+
+        # Fill in remaining entries by symmetry
+        for i in range(1, n_atoms):
+            for j in range(i):
+                real_q0[i, j] = np.conj(real_q0[j, i])
+                recip_q0[i, j] = np.conj(recip_q0[j, i])
+
+        # Calculate the q=0 correction, to be subtracted from the
+        # corrected diagonal at each q
+        dipole_q0 = np.zeros((n_atoms, 3, 3), dtype=np.complex128)
+        for i in range(n_atoms):
+            for j in range(n_atoms):
+                for a in range(3):
+                    for b in range(3):
+                        dipole_q0[i, a, b] += np.sum(
+                            np.einsum('i,j', born[i, a, :], born[j, b, :])
+                            *(recip_q0[i, j] - real_q0[i, j]))
+            # Symmetrise 3x3
+            dipole_q0[i] = 0.5*(dipole_q0[i] + np.transpose(dipole_q0[i]))
+
+        dipole_init_data = {}
+        dipole_init_data['dipole_parameter'] = dipole_parameter
+        dipole_init_data['lambda'] = upper_lambda
+        dipole_init_data['H_ab'] = H_ab
+        dipole_init_data['cells'] = cells
+        dipole_init_data['gvecs_cart'] = gvecs_cart
+        dipole_init_data['gvec_phases'] = gvec_phases
+        dipole_init_data['dipole_q0'] = dipole_q0
+        return dipole_init_data
+
+    @staticmethod
+    def _calculate_dipole_correction(
+            q: np.ndarray, crystal: Crystal, born: np.ndarray,
+            dielectric: np.ndarray,
+            dipole_init_data: Dict[str, Union[float, np.ndarray]]
+            ) -> np.ndarray:
+        """
+        Calculate the long range correction to the dynamical matrix
+        using the Ewald sum, see eqs 72-74 from Gonze and Lee PRB 55,
+        10355 (1997)
+
+        Parameters
+        ----------
+        q
+            Shape (3,) float ndarray. The q-point to calculate the
+            correction for.
+        crystal
+            Lattice and atom information
+        born
+            Shape (n_atoms, 3, 3) float Quantity in charge units.
+            The Born charges for each atom.
+        dielectric
+            Shape (3, 3) float Quantity in charge**2/(length*energy)
+            units. The dielectric permittivity tensor.
+        dipole_init_data
+            This should be the same dictionary as output by
+            _dipole_correction_init. See the docstring for that
+            function for details of required keys and values.
+
+        Returns
+        -------
+        corr
+            Shape (3*n_atoms, 3*n_atoms) complex ndarray. The
+            correction to the dynamical matrix.
+        """
+        recip = crystal.reciprocal_cell().to('1/bohr').magnitude
+        n_atoms = crystal.n_atoms
+        atom_r = crystal.atom_r
+        upper_lambda = dipole_init_data['lambda']
+        lambda_2 = upper_lambda**2
+        H_ab = dipole_init_data['H_ab']
+        cells = dipole_init_data['cells']
+        gvec_phases = dipole_init_data['gvec_phases']
+        gvecs_cart = dipole_init_data['gvecs_cart']
+        dipole_q0 = dipole_init_data['dipole_q0']
+        q_norm = q - np.rint(q)  # Normalised q-pt
+
+        # Don't include G=0 vector if q=0
+        if is_gamma(q_norm):
+            gvec_phases = gvec_phases[1:]
+            gvecs_cart = gvecs_cart[1:]
+
+        # Calculate real space term
+        real_dipole = np.zeros((n_atoms, n_atoms, 3, 3), dtype=np.complex128)
+        # Calculate real space phase factor
+        q_dot_ra = np.einsum('i,ji->j', q_norm, cells)
+        real_phases = np.exp(2j*math.pi*q_dot_ra)
+        real_dipole_tmp = np.einsum('i,ijkl->jkl', real_phases, H_ab)
+        idx_u = np.triu_indices(n_atoms)
+        real_dipole[idx_u] = real_dipole_tmp
+        real_dipole *= upper_lambda**3/math.sqrt(np.linalg.det(dielectric))
+
+        # Calculate reciprocal term
+        recip_dipole = np.zeros((n_atoms, n_atoms, 3, 3), dtype=np.complex128)
+        # Calculate q-point phases
+        q_dot_r = np.einsum('i,ji->j', q_norm, atom_r)
+        q_phases = np.exp(2j*math.pi*q_dot_r)
+        q_cart = np.dot(q_norm, recip)
+        # Calculate k-vector symmetric matrix
+        kvecs = gvecs_cart + q_cart
+        kvecs_ab = np.einsum('ij,ik->ijk', kvecs, kvecs)
+        k_len_2 = np.einsum('ijk,jk->i', kvecs_ab, dielectric)/(4*lambda_2)
+        recip_exp = np.einsum('ijk,i->ijk', kvecs_ab, np.exp(-k_len_2)/k_len_2)
+        for i in range(n_atoms):
+                phase_exp = ((gvec_phases[:, i, None]*q_phases[i])
+                             /(gvec_phases[:, i:]*q_phases[i:]))
+                recip_dipole[i, i:] = np.einsum(
+                    'ikl,ij->jkl', recip_exp, phase_exp)
+        cell_volume = crystal.cell_volume().to('bohr^3').magnitude
+        recip_dipole *= math.pi/(cell_volume*lambda_2)
+
+        # Fill in remaining entries by symmetry
+        # Mask so we don't count diagonal twice
+        mask = np.tri(n_atoms, k=-1)[:, :, np.newaxis, np.newaxis]
+        real_dipole = real_dipole + mask*np.conj(
+            np.transpose(real_dipole, axes=[1, 0, 2, 3]))
+        recip_dipole = recip_dipole + mask*np.conj(
+            np.transpose(recip_dipole, axes=[1, 0, 2, 3]))
+
+        # Multiply by Born charges and subtract q=0 from diagonal
+        dipole = np.zeros((n_atoms, n_atoms, 3, 3), dtype=np.complex128)
+        dipole_tmp = recip_dipole - real_dipole
+        for i in range(n_atoms):
+            dipole[i] = np.einsum('ij,klm,kjm->kil',
+                                  born[i], born, dipole_tmp[i])
+            dipole[i, i] -= dipole_q0[i]
+
+        return np.reshape(np.transpose(dipole, axes=[0, 2, 1, 3]),
+                          (3*n_atoms, 3*n_atoms))
+
+    def _get_q_dirs(self, qpts: np.ndarray, qpts_i: np.ndarray,
+                   gamma_idx: np.ndarray) -> np.ndarray:
+        """
+        Get q-directions at gamma points
+
+        Parameters
+        ----------
+        qpts
+            Shape (n_qpts, 3) float ndarray. The q-points.
+        qpts_i
+            Shape (n_qpts,) int ndarray. Describes how to index
+            the 'reduced' q-points back into the full q-points
+            array
+        gamma_idx
+            Shape (n_gamma_points,) int ndarray. The indices
+            of gamma-points in the full q-points array
+
+        Returns
+        -------
+        q_dirs
+            Shape (n_gamma_points, 3 float ndarray. The q-direction
+            for splitting at each gamma point)
+        """
+        q_dirs = np.zeros((len(gamma_idx), 3))
+        if len(qpts) > 1:
+            for i, idx in enumerate(gamma_idx):
+                idx_in_qpts = np.where(qpts_i == idx)[0]
+                # If first q-point
+                if idx_in_qpts == 0:
+                    q_dirs[i] = qpts[1] - qpts[0]
+                # If last q-point
+                elif idx_in_qpts == (len(qpts) - 1):
+                    q_dirs[i] = qpts[-1] - qpts[-2]
+                else:
+                    # If splitting=True there should be an adjacent gamma
+                    # point. Calculate splitting in whichever direction
+                    # isn't gamma
+                    q_dirs[i] = qpts[idx_in_qpts + 1] - qpts[idx_in_qpts]
+                    if is_gamma(q_dirs[i]):
+                        q_dirs[i] = qpts[idx_in_qpts] - qpts[idx_in_qpts - 1]
+        return q_dirs
+
+    def _calculate_gamma_correction(self, q_dir: np.ndarray) -> np.ndarray:
+        """
+        Calculate non-analytic correction to the dynamical matrix at q=0
+        for a specified direction of approach. See Eq. 60 of X. Gonze
+        and C. Lee, PRB (1997) 55, 10355-10368.
+
+        Parameters
+        ----------
+        q_dir
+            Shape (3,) float ndarray. The direction along which q
+            approaches 0, in reciprocal fractional coordinates
+
+        Returns
+        -------
+        na_corr
+            Shape (3*n_atoms, 3*n_atoms) complex ndarray. The
+            correction to the dynamical matrix
+        """
+        n_atoms = self.crystal.n_atoms
+        born = self._born
+        dielectric = self._dielectric
+        na_corr = np.zeros((3*n_atoms, 3*n_atoms), dtype=np.complex128)
+
+        if is_gamma(q_dir):
+            return na_corr
+
+        recip_cell = self.crystal.reciprocal_cell().to('1/bohr').magnitude
+        q_dir_cart = np.einsum('ij,i->j', recip_cell, q_dir)
+
+        cell_volume = self.crystal.cell_volume().to('bohr^3').magnitude
+        denominator = np.einsum('ij,i,j', dielectric, q_dir_cart, q_dir_cart)
+        factor = 4*math.pi/(cell_volume*denominator)
+
+        q_born_sum = np.einsum('ijk,k->ij', born, q_dir_cart)
+        for i in range(n_atoms):
+            for j in range(n_atoms):
+                na_corr[3*i:3*(i+1), 3*j:3*(j+1)] = np.einsum(
+                    'i,j->ij', q_born_sum[i], q_born_sum[j])
+        na_corr *= factor
+
+        return na_corr
+
+    @staticmethod
+    def _get_shell_origins(n: int) -> np.ndarray:
+        """
+        Given the shell number, compute all the cell origins that lie in
+        that shell
+
+        Parameters
+        ----------
+        n
+            The shell number
+
+        Returns
+        -------
+        origins
+            Shape ((2*n + 1)**3 - (2*n - 1)**3, 3) int ndarray. The
+            cell origins. Note: if n = 0, origins = [[0, 0, 0]]
+        """
+
+        if n == 0:
+            return np.array([[0, 0, 0]], dtype=np.int32)
+
+        # Coordinates of cells in xy plane where z=0, xz plane where
+        # y=0, yz plane where x=0. Note: to avoid duplicating cells at
+        # the edges, the xz plane has (2*n + 1) - 2 rows in z, rather
+        # than (2*n + 1). The yz plane also has (2*n + 1) - 2 rows in z
+        # and (2*n + 1) - 2 columns in y
+        xy = get_all_origins((n+1, n+1, 1), min_xyz=(-n, -n, 0))
+        xz = get_all_origins((n+1, 1, n), min_xyz=(-n, 0, -n+1))
+        yz = get_all_origins((1, n, n), min_xyz=(0, -n+1, -n+1))
+
+        # Offset each plane by n and -n to get the 6 planes that make up
+        # the shell
+        origins = np.zeros(((2*n+1)**3-(2*n-1)**3, 3), dtype=np.int32)
+        for i, ni in enumerate([-n, n]):
+            origins[i*len(xy):(i+1)*len(xy)] = xy
+            origins[i*len(xy):(i+1)*len(xy), 2] = ni
+            io = 2*len(xy)
+            origins[io+i*len(xz):io+(i+1)*len(xz)] = xz
+            origins[io+i*len(xz):io+(i+1)*len(xz), 1] = ni
+            io = 2*(len(xy) + len(xz))
+            origins[io+i*len(yz):io+(i+1)*len(yz)] = yz
+            origins[io+i*len(yz):io+(i+1)*len(yz), 0] = ni
+
+        return origins
+
+    def _enforce_realspace_asr(self) -> np.ndarray:
+        """
+        Apply a transformation to the force constants matrix so that it
+        satisfies the acousic sum rule. Diagonalise, shift the acoustic
+        modes to almost zero then construct the correction to the force
+        constants matrix using the eigenvectors. For more information
+        see section 2.3.4:
+        http://www.tcm.phy.cam.ac.uk/castep/Phonons_Guide/Castep_Phonons.html
+
+        Returns
+        -------
+        force_constants
+            Shape (n_cells_in_sc, 3*n_atoms, 3*n_atoms) float ndarray. The
+            corrected force constants matrix
+        """
+        n_cells_in_sc = self.n_cells_in_sc
+        n_atoms = self.crystal.n_atoms
+        n_atoms_in_sc = n_cells_in_sc*n_atoms
+        force_constants = self._force_constants
+
+        sc_rel_idx = _get_supercell_relative_idx(self.cell_origins,
+                                                 self.sc_matrix)
+
+        # Compute square matrix from compact force constants
+        sq_fc = np.zeros((3*n_atoms_in_sc, 3*n_atoms_in_sc))
+        for nc in range(n_cells_in_sc):
+            sq_fc[3*nc*n_atoms:3*(nc+1)*n_atoms, :] = np.transpose(
+                np.reshape(force_constants[sc_rel_idx[nc]],
+                           (3*n_cells_in_sc*n_atoms, 3*n_atoms)))
+
+        try:
+            ac_i, evals, evecs = self._find_acoustic_modes(sq_fc)
+        except Exception:
+            warnings.warn((
+                '\nError correcting for acoustic sum rule, could not '
+                'find 3 acoustic modes.\nReturning uncorrected FC '
+                'matrix'), stacklevel=3)
+            return self._force_constants
+
+        # Correct fc matrix - set acoustic modes to almost zero
+        fc_tol = 1e-8*np.min(np.abs(evals))
+        for ac in ac_i:
+            sq_fc -= (fc_tol + evals[ac])*np.einsum(
+                'i,j->ij', evecs[:, ac], evecs[:, ac])
+
+        fc = np.reshape(sq_fc[:, :3*n_atoms],
+                        (n_cells_in_sc, 3*n_atoms, 3*n_atoms))
+
+        return fc
+
+    def _enforce_reciprocal_asr(self, dyn_mat_gamma: np.ndarray
+            ) -> np.ndarray:
+        """
+        Calculate the correction to the dynamical matrix that would have
+        to be applied to satisfy the acousic sum rule. Diagonalise the
+        gamma-point dynamical matrix, shift the acoustic modes to almost
+        zero then reconstruct the dynamical matrix using the
+        eigenvectors. For more information see section 2.3.4:
+        http://www.tcm.phy.cam.ac.uk/castep/Phonons_Guide/Castep_Phonons.html
+
+        Parameters
+        ----------
+        dyn_mat_gamma
+            Shape (3*n_atoms, 3*n_atoms) complex ndarray. The non
+            mass-weighted dynamical matrix at gamma
+
+        Returns
+        -------
+        dyn_mat
+            Shape (3*n_atoms, 3*n_atoms) complex ndarray or empty array
+            The corrected, non mass-weighted dynamical matrix at q.
+            Returns empty array if finding the 3 acoustic modes fails
+        """
+        tol = 5e-15
+
+        try:
+            ac_i, g_evals, g_evecs = self._find_acoustic_modes(
+                dyn_mat_gamma)
+        except Exception:
+            warnings.warn(('\nError correcting for acoustic sum rule, '
+                           'could not find 3 acoustic modes.\nNot '
+                           'correcting dynamical matrix'), stacklevel=3)
+            return np.array([], dtype=np.complex128)
+
+        n_atoms = self.crystal.n_atoms
+        recip_asr_correction = np.zeros((3*n_atoms, 3*n_atoms),
+                                        dtype=np.complex128)
+        for i, ac in enumerate(ac_i):
+            recip_asr_correction -= (tol*i + g_evals[ac])*np.einsum(
+                'i,j->ij', g_evecs[:, ac], g_evecs[:, ac])
+
+        return recip_asr_correction
+
+    def _find_acoustic_modes(self, dyn_mat: np.ndarray
+            ) -> Tuple[np.ndarray, np.ndarray, np.ndarray]:
+        """
+        Find the acoustic modes from a dynamical matrix, they should
+        have the sum of c of m amplitude squared = mass (note: have not
+        actually included mass weighting here so assume mass = 1.0)
+
+        Parameters
+        ----------
+        dyn_mat
+            Shape (3*n_atoms, 3*n_atoms) complex ndarray. A dynamical
+            matrix
+
+        Returns
+        -------
+        ac_i
+            Shape (3,) int ndarray. The indices of the acoustic modes
+        evals
+            Shape (3*n_atoms) float ndarray. Dynamical matrix
+            eigenvalues
+        evecs
+            Shape (3*n_atoms, n_atoms, 3) complex ndarray. Dynamical
+            matrix eigenvectors
+        """
+        n_branches = dyn_mat.shape[0]
+        n_atoms = int(n_branches/3)
+
+        evals, evecs = np.linalg.eigh(dyn_mat, UPLO='U')
+        evec_reshape = np.reshape(
+            np.transpose(evecs), (n_branches, n_atoms, 3))
+        # Sum displacements for all ions in each branch
+        c_of_m_disp = np.sum(evec_reshape, axis=1)
+        c_of_m_disp_sq = np.sum(np.abs(c_of_m_disp)**2, axis=1)
+        sensitivity = 0.5
+        sc_mass = 1.0*n_atoms
+        # Check number of acoustic modes
+        if np.sum(c_of_m_disp_sq > sensitivity*sc_mass) < 3:
+            raise Exception('Could not find 3 acoustic modes')
+        # Find idx of acoustic modes (3 largest c of m displacements)
+        ac_i = np.argsort(c_of_m_disp_sq)[-3:]
+
+        return ac_i, evals, evecs
+
+    def _calculate_phases(
+            self,
+            qpt: np.ndarray,
+            unique_sc_origins: Sequence[Sequence[int]],
+            unique_sc_i: np.ndarray,
+            unique_cell_origins: Sequence[Sequence[int]],
+            unique_cell_i: np.ndarray) -> Tuple[np.ndarray, np.ndarray]:
+        """
+        Calculate the phase factors for the supercell images and cells
+        for a single q-point. The unique supercell and cell origins
+        indices are required to minimise expensive exp and power
+        operations
+
+        Parameters
+        ----------
+        qpt
+            Shape (3,) float ndarray. The q-point to calculate
+        unique_sc_origins
+            A list containing 3 lists of the unique supercell image
+            offsets in each direction. The supercell offset is
+            calculated by multiplying the supercell matrix by the
+            supercell image indices (obtained by _get_all_origins()). A
+            list of lists rather than a Numpy array is used as the 3
+            lists are independent and their size is not known
+            beforehand
+        unique_sc_i
+            Shape ((2*n_sc_shells + 1)**3, 3) int ndarray, where
+            n_sc_shells is how many supercells out to go to search for
+            atom images. The indices needed to reconstruct sc_origins
+            from the unique values in unique_sc_origins
+        unique_cell_origins
+            A list containing 3 lists of the unique cell origins in
+            each direction. A list of lists rather than a Numpy array
+            is used as the 3 lists are independent and their size is
+            not known beforehand
+        unique_cell_i
+            Shape (n_cells_in_sc, 3) int ndarray. The indices needed to
+            reconstruct cell_origins from the unique values in
+            unique_cell_origins
+
+        Returns
+        -------
+        sc_phases
+            Shape (unique_sc_i,) float ndarray. Phase factors exp(iq.r)
+            for each supercell image coordinate in sc_origins
+        cell_phases
+            Shape (unique_cell_i,) float ndarray. Phase factors
+            exp(iq.r) for each cell coordinate in the supercell
+        """
+
+        # Only calculate exp(iq) once, then raise to power to get the
+        # phase at different supercell/cell coordinates to minimise
+        # expensive exp calculations
+        # exp(iq.r) = exp(iqh.ra)*exp(iqk.rb)*exp(iql.rc)
+        #           = (exp(iqh)^ra)*(exp(iqk)^rb)*(exp(iql)^rc)
+        phase = np.exp(2j*math.pi*qpt)
+        sc_phases = np.ones(len(unique_sc_i), dtype=np.complex128)
+        cell_phases = np.ones(len(unique_cell_i), dtype=np.complex128)
+        for i in range(3):
+            unique_sc_phases = np.power(phase[i], unique_sc_origins[i])
+            sc_phases *= unique_sc_phases[unique_sc_i[:, i]]
+
+            unique_cell_phases = np.power(phase[i], unique_cell_origins[i])
+            cell_phases *= unique_cell_phases[unique_cell_i[:, i]]
+
+        return sc_phases, cell_phases
+
+    def _is_outdated(self, attr_name: str,
+                     *inputs: Union[np.ndarray, float]) -> bool:
+        """
+        Whether an attribute that is stored between calculations has to
+        be calculated (again), because it hasn't been calculated yet or
+        the values it was calculated from have since been changed. In
+        that case any existing value is removed.
+
+        Parameters
+        ----------
+        attr_name
+            The name of the attribute the result is stored in
+        *inputs
+            The current values of everything the result depends on
+        """
+        all_inputs = self.__dict__.setdefault('_stored_inputs', {})
+        if (hasattr(self, attr_name) and attr_name in all_inputs
+                and all(map(np.array_equal, all_inputs[attr_name], inputs))):
+            return False
+        if hasattr(self, attr_name):
+            delattr(self, attr_name)
+        all_inputs[attr_name] = [np.copy(value) for value in inputs]
+        return True
+
+    def _calculate_supercell_images(self, n_sc_shells: int) -> None:
+        """
+        For each displacement of ion i in the unit cell and ion j in
+        the supercell, calculate the number of supercell periodic
+        images there are and which supercells they reside in, and sets
+        the _sc_image_i, and _n_sc_images ForceConstants attributes
+
+        Parameters
+        ----------
+        n_sc_shells
+            The number of supercells out to go to search for atom
+            images
+        """
+
+        n_atoms = self.crystal.n_atoms
+        cell_vectors = self.crystal._cell_vectors
+        atom_r = self.crystal.atom_r
+        cell_origins = self.cell_origins
+        n_cells_in_sc = self.n_cells_in_sc
+        sc_matrix = self.sc_matrix
+        ax = np.newaxis
+
+        # List of points defining Wigner-Seitz cell
+        ws_frac = np.array([[0, 0, 0], [0, 0, 1], [0, 1, 0], [0, 1, 1],
+                            [0, 1, -1], [1, 0, 0], [1, 0, 1], [1, 0, -1],
+                            [1, 1, 0], [1, 1, 1], [1, 1, -1], [1, -1, 0],
+                            [1, -1, 1], [1, -1, -1]])
+        cutoff_scale = 1.0
+
+        # Calculate points of WS cell for this supercell
+        sc_vecs = np.einsum('ji,ik->jk', sc_matrix, cell_vectors)
+        ws_list = np.einsum('ij,jk->ik', ws_frac, sc_vecs)
+        inv_ws_sq = 1.0/np.sum(np.square(ws_list[1:]), axis=1)
+        ws_list_norm = ws_list[1:]*inv_ws_sq[:, ax]
+
+        # Get Cartesian coords of supercell images and ions in supercell
+        sc_image_r = get_all_origins(
+            np.repeat(n_sc_shells, 3) + 1, min_xyz=-np.repeat(n_sc_shells, 3))
+        sc_image_cart = np.einsum('ij,jk->ik', sc_image_r, sc_vecs)
+        sc_atom_cart = np.einsum('ijk,kl->ijl',
+                                 cell_origins[:, ax, :] + atom_r[ax, :, :],
+                                 cell_vectors)
+
+        sc_image_i = np.full(
+            (n_cells_in_sc, n_atoms, n_atoms, (2*n_sc_shells + 1)**3),
+            -1, dtype=np.int32)
+        n_sc_images = np.zeros((n_cells_in_sc, n_atoms, n_atoms),
+                               dtype=np.int32)
+
+        # Ordering of loops here is for efficiency:
+        # ions in unit cell -> periodic supercell images -> WS points
+        # This is so the ion-ion vectors in each loop will be similar,
+        # so they are more likely to pass/fail the WS check together
+        # so the last loop can be broken early
+        for i in range(n_atoms):
+            rij = sc_atom_cart[0, i] - sc_atom_cart
+            for im, sc_r in enumerate(sc_image_cart):
+                # Get vector between j in sc image and i in unit cell
+                dists = rij - sc_r
+                # Only want to include images where ion < halfway to ALL
+                # ws points, so compare vector to all ws points
+                for n, wsp in enumerate(ws_list_norm):
+                    dist_wsp = np.absolute(np.sum(dists*wsp, axis=-1))
+                    if n == 0:
+                        nc_idx, nj_idx = np.where(
+                            dist_wsp <= (0.5*cutoff_scale + 0.001)
+                        )
+                        # Reindex dists to remove elements where the ion
+                        # is > halfway to WS point for efficiency
+                        dists = dists[nc_idx, nj_idx]
+                    else:
+                        # After first reindex, dists is now 1D so need
+                        # to reindex like this instead
+                        idx = np.where(
+                            dist_wsp <= (0.5*cutoff_scale + 0.001)
+                        )[0]
+                        nc_idx = nc_idx[idx]
+                        nj_idx = nj_idx[idx]
+                        dists = dists[idx]
+                    if len(nc_idx) == 0:
+                        break
+                    # If ion-ion vector has been < halfway to all WS
+                    # points, this is a valid image! Save it
+                    if n == len(ws_list_norm) - 1:
+                        n_im_idx = n_sc_images[nc_idx, i, nj_idx]
+                        sc_image_i[nc_idx, i, nj_idx, n_im_idx] = im
+                        n_sc_images[nc_idx, i, nj_idx] += 1
+
+        self._n_sc_images = n_sc_images
+        # Truncate sc_image_i to the maximum ACTUAL images rather than
+        # the maximum possible images to avoid storing and summing over
+        # nonexistent images
+        self._sc_image_i = sc_image_i[:, :, :, :np.max(n_sc_images)]
+
+    def to_dict(self) -> Dict[str, Any]:
+        """
+        Convert to a dictionary. See ForceConstants.from_dict for
+        details on keys/values
+
+        Returns
+        -------
+        dict
+        """
+        dout = _obj_to_dict(self, ['crystal', 'force_constants',
+                                   'n_cells_in_sc', 'sc_matrix',
+                                   'cell_origins', 'born',
+                                   'dielectric'])
+        return dout
+
+    def to_json_file(self, filename: str) -> None:
+        """
+        Write to a JSON file. JSON fields are equivalent to
+        ForceConstants.from_dict keys
+
+        Parameters
+        ----------
+        filename
+            Name of the JSON file to write to
+        """
+        _obj_to_json_file(self, filename)
+
+    @classmethod
+    def from_dict(cls: Type[T], d: Dict[str, Any]) -> T:
+        """
+        Convert a dictionary to a ForceConstants object
+
+        Parameters
+        ----------
+        d
+            A dictionary with the following keys/values:
+
+            - 'crystal': dict, see Crystal.from_dict
+            - 'force_constants': (n_cells_in_sc, 3*crystal.n_atoms, 3*crystal.n_atoms) float ndarray
+            - 'force_constants_unit': str
+            - 'sc_matrix': (3,3) int ndarray
+            - 'cell_origins': (n_cells_in_sc, 3) int ndarray
+
+            There are also the following optional keys:
+
+            - 'born': (3*crystal.n_atoms, 3, 3) float ndarray
+            - 'born_unit': str
+            - 'dielectric': (3, 3) float ndarray
+            - 'dielectric_unit': str
+
+        Returns
+        -------
+        forceconstants
+        """
+        crystal = Crystal.from_dict(d['crystal'])
+        d = _process_dict(
+            d, quantities=['force_constants', 'born', 'dielectric'],
+            optional=['born', 'dielectric'])
+        return cls(crystal, d['force_constants'], d['sc_matrix'],
+                   d['cell_origins'], d['born'], d['dielectric'])
+
+    @classmethod
+    def from_total_fc_with_dipole(
+            cls: Type[T], crystal: Crystal, force_constants: Quantity,
+            sc_matrix: np.ndarray, cell_origins: np.ndarray, born: Quantity,
+            dielectric: Quantity) -> T:
+        """
+        Subtracts a dipole term from the input force constants matrix
+        to convert the 'total' force constants matrix containing both
+        dipole-dipole interactions and short-ranged interactions to one
+        containing only short-ranged interactions, as defined in eq. 78
+        from [4]_ . This correction may need to be applied as Euphonic
+        requires the short-ranged matrix, whereas some codes output the
+        total matrix (e.g Phonopy, but note that the from_phonopy
+        method will apply this correction automatically). If the force
+        constants matrix is already short ranged or the material has
+        zero Born effective charges or dielectric permittivity tensor
+        this correction should not be applied.
+
+        .. [4] X. Gonze and C. Lee., Phys. Rev. B, 1997, 55, 10355-10368
+
+        Parameters
+        ----------
+        force_constants
+            Shape (n_cells_in_sc, 3*n_atoms, 3*n_atoms) float Quantity
+            in energy/length**2 units. The 'total' force constants
+            matrix containing both dipole-dipole interactions and
+            short-ranged interactions.
+        crystal
+            Lattice and atom information
+        sc_matrix
+            Shape (3, 3) int ndarray. The transformation matrix to
+            convert from the unit cell vectors to the supercell vectors
+        cell_origins
+            Shape (n_cells_in_sc, 3) int ndarray. The origin
+            coordinates of each unit cell within the supercell, in
+            units of the unit cell vectors
+        born
+            Shape (n_atoms, 3, 3) float Quantity in charge units. The
+            Born charges for each atom
+        dielectric
+            Shape (3, 3) float Quantity in charge**2/(length*energy)
+            units. The dielectric permittivity tensor
+
+        Returns
+        -------
+        forceconstants
+        """
+        n_atoms = crystal.n_atoms
+        n_cells = len(cell_origins)
+        # The dynamical matrix of the supercell at Q=0 is equivalent
+        # to the unit cell FC. Correct FC by calculating the dipole
+        # correction to the supercell dynamical matrix and subtracting
+        # it from the FC.
+        # First create Crystal and Born charges for supercell
+        sc_atom_r = (np.repeat(cell_origins, n_atoms, axis=0)
+                     + np.tile(crystal.atom_r, (n_cells, 1)))
+        sc_to_u_matrix = np.linalg.inv(sc_matrix).transpose()
+        sc_atom_r_scell = np.einsum('ij,jk->ik', sc_atom_r, sc_to_u_matrix)
+        sc_vecs = np.einsum('ji,ik->jk', sc_matrix, crystal._cell_vectors)
+        sc_mass = np.tile(crystal._atom_mass, n_cells)
+        sc_crystal = Crystal(sc_vecs*ureg('bohr'), sc_atom_r_scell,
+                             np.tile(crystal.atom_type, n_cells),
+                             sc_mass*ureg('m_e'))
+        sc_born = np.tile(born.to(ureg('e')).magnitude,
+                          (n_cells, 1, 1))
+        # Now initialise, calculate and subtract the dipole correction
+        dipole_data = cls._dipole_correction_init(
+            sc_crystal, sc_born, dielectric.magnitude)
+        corr = cls._calculate_dipole_correction(
+            np.array([0., 0., 0.]), sc_crystal, sc_born,
+            dielectric.magnitude, dipole_data)
+        corr = np.transpose(
+            np.reshape(corr[:, :3*n_atoms], (n_cells, 3*n_atoms, 3*n_atoms)),
+            axes=[0, 2, 1])
+        fc = force_constants.to('hartree/bohr**2').magnitude
+        fc_corrected = np.real(fc - corr)*ureg('hartree/bohr**2').to(
+            force_constants.units)
+        return cls(crystal, fc_corrected, sc_matrix, cell_origins,
+                   born=born, dielectric=dielectric)
+
+    @classmethod
+    def from_json_file(cls: Type[T], filename: str) -> T:
+        """
+        Read from a JSON file. See ForceConstants.from_dict for required
+        fields
+
+        Parameters
+        ----------
+        filename
+            The file to read from
+
+        Returns
+        -------
+        forceconstants
+        """
+        return _obj_from_json_file(cls, filename)
+
+    @classmethod
+    def from_castep(cls: Type[T], filename: str) -> T:
+        """
+        Reads from a .castep_bin or .check file
+
+        Parameters
+        ----------
+        filename
+            The path and name of the file to read
+
+        Returns
+        -------
+        forceconstants
+        """
+        data = castep.read_interpolation_data(filename)
+        return cls.from_dict(data)
+
+    @classmethod
+    def from_phonopy(cls: Type[T],
+                     path: str = '.',
+                     summary_name: str = 'phonopy.yaml',
+                     born_name: Optional[str] = None,
+                     fc_name: str = 'FORCE_CONSTANTS',
+                     fc_format: Optional[str] = None) -> T:
+        """
+        Reads data from the phonopy summary file (default phonopy.yaml)
+        and optionally born and force constants files. Only attempts to
+        read from born or force constants files if these can't be found
+        in the summary file.
+
+        Parameters
+        ----------
+        path
+            Path to directory containing the file(s)
+        summary_name
+            Filename of phonopy summary file, default phonopy.yaml. By
+            default any information (e.g. force constants) read from
+            this file takes priority
+        born_name
+            Name of the Phonopy file containing born charges and
+            dielectric tensor (by convention in Phonopy this would be
+            called BORN). Is only read if Born charges can't be found in
+            the summary_name file
+        fc_name
+            Name of file containing force constants. Is only read if
+            force constants can't be found in summary_name
+        fc_format
+            One of {'phonopy', 'hdf5'}. Format of file containing force
+            constants data, if it can't be determined from the
+            extension. FORCE_CONSTANTS is type 'phonopy'
+
+        Returns
+        -------
+        forceconstants
+        """
+        data = phonopy.read_interpolation_data(
+            path=path, summary_name=summary_name, born_name=born_name,
+            fc_name=fc_name, fc_format=fc_format)
+        fc = cls.from_dict(data)
+        if fc.born is not None:
+            fc = cls.from_total_fc_with_dipole(
+                fc.crystal, fc.force_constants, fc.sc_matrix, fc.cell_origins,
+                born=fc.born, dielectric=fc.dielectric)
+        return fc
-- 
2.43.0


From 341506756f5da9b392735047a90d2dc259c6b9e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:41:20 +0000
Subject: [PATCH 08/38] fix: give the C extension arrays of the type and layout
 it reads

The atom positions and dipole data read by the C extension were never
made contiguous, and integer cell vectors, q-points, positions or born
charges (or float cell origins) were passed on as they were, to be read
as raw doubles (or ints).
---
 euphonic/force_constants.py | 20 ++++++++++++++------
 euphonic/validate.py        | 12 +++++++++---
 2 files changed, 23 insertions(+), 9 deletions(-)

diff --git a/euphonic/force_constants.py b/euphonic/force_constants.py
index 1b653ec..7b885f8 100644
--- a/euphonic/force_constants.py
+++ b/euphonic/force_constants.py
@@ -524,7 +524,7 @@ class ForceConstants:
                                          axis=0)
                 n_rqpts = len(reduced_qpts)
         else:
-            reduced_qpts = qpts
+            reduced_qpts = np.asarray(qpts, dtype=np.float64)
             qpts_i = np.arange(0, len(qpts), dtype=np.int32)
             n_rqpts = len(qpts)
 
@@ -667,7 +667,7 @@ class ForceConstants:
                 n_reigenvecs += 1
             reigenvecs = np.zeros((n_reigenvecs, 3*n_atoms, n_atoms, 3),
                                   dtype=np.complex128)
-            cell_vectors = self.crystal._cell_vectors
+            cell_vectors = self.crystal._cell_vectors.astype(np.float64)
             recip_vectors = self.crystal.reciprocal_cell().to(
                 '1/bohr').magnitude
             # Get conj transpose - the dynamical matrix calculated in C
@@ -686,10 +686,18 @@ class ForceConstants:
                  dyn_mat_weighting, rfreqs, reigenvecs, rmode_gradients,
                  all_origins_cart)
             attrs = ['_n_sc_images', '_sc_image_i', 'cell_origins']
-            dipole_attrs = ['atom_r', '_born', '_dielectric', '_H_ab',
-                            '_cells', '_gvec_phases', '_gvecs_cart',
-                            '_dipole_q0']
-            _ensure_contiguous_attrs(self, attrs, opt_attrs=dipole_attrs)
+            _ensure_contiguous_attrs(self, attrs, dtype=np.int32)
+            _ensure_contiguous_attrs(self.crystal, ['atom_r'],
+                                     dtype=np.float64)
+            if dipole:
+                _ensure_contiguous_attrs(self, ['_born', '_dielectric'],
+                                         dtype=np.float64)
+                dipole_keys = ['H_ab', 'cells', 'gvec_phases', 'gvecs_cart',
+                               'dipole_q0']
+                self._dipole_init_data.update(zip(
+                    dipole_keys,
+                    _ensure_contiguous_args(*[self._dipole_init_data[key]
+                                              for key in dipole_keys])))
             with threadpool_limits(limits=1):
                 euphonic_c.calculate_phonons(
                     self, cell_vectors, recip_vectors, reduced_qpts,
diff --git a/euphonic/validate.py b/euphonic/validate.py
index 21d38cc..6971264 100644
--- a/euphonic/validate.py
+++ b/euphonic/validate.py
@@ -103,7 +103,8 @@ def _replace_dim(expected_shape: Tuple[int, ...],
 
 
 def _ensure_contiguous_attrs(obj: object, required_attrs: List[str],
-                             opt_attrs: List[str] = []) -> None:
+                             opt_attrs: List[str] = [],
+                             dtype: Optional[Type] = None) -> None:
     """
     Make sure all listed attributes of obj are C Contiguous and of the
     correct type (int32, float64, complex128). This should only be used
@@ -121,16 +122,21 @@ def _ensure_contiguous_attrs(obj: object, required_attrs: List[str],
         The attributes of obj to be checked, but if they don't exist
         will not throw an error. e.g. Depending on the material
         ForceConstants objects may or may not have 'born' defined
+    dtype
+        The type all of the attributes should have. If not provided this
+        depends on the current type of each attribute
     """
     for attr_name in required_attrs:
         attr = getattr(obj, attr_name)
-        attr = attr.astype(_get_dtype(attr), order='C', copy=False)
+        attr = attr.astype(dtype or _get_dtype(attr), order='C',
+                           copy=False)
         setattr(obj, attr_name, attr)
 
     for attr_name in opt_attrs:
         try:
             attr = getattr(obj, attr_name)
-            attr = attr.astype(_get_dtype(attr), order='C', copy=False)
+            attr = attr.astype(dtype or _get_dtype(attr), order='C',
+                               copy=False)
             setattr(obj, attr_name, attr)
         except AttributeError:
             pass
-- 
2.43.0


From ed191965607b775a0e550106d26d57dc75bf01dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:42:16 +0000
Subject: [PATCH 09/38] fix: scale z_data instead of y_data when multiplying
 Spectrum2DCollection

The multiplication inherited from Spectrum scaled the y-axis bins and left
the spectra unchanged.
---
 euphonic/spectra.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/euphonic/spectra.py b/euphonic/spectra.py
index e260927..24aa9a1 100644
--- a/euphonic/spectra.py
+++ b/euphonic/spectra.py
@@ -1922,6 +1922,11 @@ class Spectrum2DCollection(SpectrumCollectionMixin,
         self.z_data_unit = str(value.units)
         self._z_data = value.to(self._internal_z_data_unit).magnitude
 
+    def __imul__(self, other: Real) -> Self:
+        """Scale spectral data in-place"""
+        self.z_data = self.z_data * other
+        return self
+
     @classmethod
     def from_spectra(cls, spectra: Sequence[Spectrum2D]) -> Self:
         if len(spectra) < 1:
-- 
2.43.0


From 1b4c7487c16b3ff09dc5d881a0f9405b3a545a7e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:42:16 +0000
Subject: [PATCH 10/38] fix: check z_data_unit of Spectrum2DCollection when it
 is set

As for the other unit attributes, reject a unit that isn't dimensionally
consistent rather than failing when the data is next used.
---
 euphonic/spectra.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/euphonic/spectra.py b/euphonic/spectra.py
index 24aa9a1..a737ef8 100644
--- a/euphonic/spectra.py
+++ b/euphonic/spectra.py
@@ -1922,6 +1922,10 @@ class Spectrum2DCollection(SpectrumCollectionMixin,
         self.z_data_unit = str(value.units)
         self._z_data = value.to(self._internal_z_data_unit).magnitude
 
+    def __setattr__(self, name: str, value: Any) -> None:
+        _check_unit_conversion(self, name, value, ['z_data_unit'])
+        super().__setattr__(name, value)
+
     def __imul__(self, other: Real) -> Self:
         """Scale spectral data in-place"""
         self.z_data = self.z_data * other
-- 
2.43.0


From 570dc95933af5b73201569274a7cef5720c65c10 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:42:16 +0000
Subject: [PATCH 11/38] fix: use consistent units for all spectra in
 Spectrum2DCollection.from_spectra

The first spectrum was added in its display units, the others in their
internal units.
---
 euphonic/spectra.py | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/euphonic/spectra.py b/euphonic/spectra.py
index a737ef8..bf6c4ea 100644
--- a/euphonic/spectra.py
+++ b/euphonic/spectra.py
@@ -1957,9 +1957,8 @@ class Spectrum2DCollection(SpectrumCollectionMixin,
 
         for i, spectrum in enumerate(spectra[1:]):
             _type_check(spectrum)
-            spectrum_i_raw_data = cls._get_item_raw_data(spectrum)
-            spectrum_i_data_units = cls._get_item_data_unit(spectrum)
-            assert spectrum_i_data_units == spectrum_data_units
+            spectrum_i_data = cls._get_item_data(spectrum)
+            assert spectrum_i_data.units == spectrum_data_units
 
             for key, ref_bins in bins_data.items():
                 item_bins = getattr(spectrum, key)
@@ -1967,7 +1966,7 @@ class Spectrum2DCollection(SpectrumCollectionMixin,
                 assert item_bins.units == ref_bins.units
 
             assert spectrum.x_tick_labels == x_tick_labels
-            spectrum_data_magnitude[i + 1, :, :] = spectrum_i_raw_data
+            spectrum_data_magnitude[i + 1, :, :] = spectrum_i_data.magnitude
 
         metadata = cls._combine_metadata([spec.metadata for spec in spectra])
         spectrum_data = Quantity(spectrum_data_magnitude, spectrum_data_units)
-- 
2.43.0


From d4ca09f8312a50294f6416aa5513e6a482976fdd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:43:50 +0000
Subject: [PATCH 12/38] fix: apply width_convention to fixed-width broadening

width_convention was only used for variable-width broadening, a fixed width
was always interpreted as a full-width half-maximum.
---
 euphonic/spectra.py | 17 ++++++++++++++---
 1 file changed, 14 insertions(+), 3 deletions(-)

diff --git a/euphonic/spectra.py b/euphonic/spectra.py
index bf6c4ea..b9ce189 100644
--- a/euphonic/spectra.py
+++ b/euphonic/spectra.py
@@ -223,6 +223,7 @@ class Spectrum(ABC):
                       widths: Sequence[float],
                       shape: KernelShape = 'gauss',
                       method: Optional[Literal['convolve']] = None,
+                      width_convention: Literal['fwhm', 'std'] = 'fwhm',
                       ) -> np.ndarray:
         """
         Broaden data along each axis by widths, returning the broadened
@@ -238,6 +239,14 @@ class Spectrum(ABC):
         if method not in method_opts:
             raise ValueError(f'Invalid value for method, got {method}, '
                              f'should be one of {method_opts}')
+        if width_convention.lower() == 'std':
+            if shape == 'lorentz':
+                raise ValueError('Standard deviation unavailable for '
+                                 'Lorentzian function: please use FWHM.')
+            widths = [width if width is None else width*np.sqrt(8*np.log(2))
+                      for width in widths]
+        elif width_convention.lower() != 'fwhm':
+            raise ValueError('width_convention must be "std" or "fwhm".')
 
         # We only want to check for unequal bins if using a method that
         # is not correct for unequal bins (currently this is the only
@@ -650,7 +659,8 @@ class Spectrum1D(Spectrum):
                 self.y_data.magnitude,
                 [self.get_bin_centres().magnitude],
                 [x_width.to(self.x_data_unit).magnitude],
-                shape=shape, method=method)
+                shape=shape, method=method,
+                width_convention=width_convention)
             y_broadened = ureg.Quantity(y_broadened, units=self.y_data_unit)
 
         elif isinstance(x_width, Callable):
@@ -1375,7 +1385,7 @@ class Spectrum1DCollection(SpectrumCollectionMixin,
             for i, yi in enumerate(self.y_data.magnitude):
                 y_broadened[i] = self._broaden_data(
                     yi, x_centres, x_width_calc, shape=shape,
-                    method=method)
+                    method=method, width_convention=width_convention)
 
             new_spectrum = self.copy()
             new_spectrum.y_data = ureg.Quantity(y_broadened, units=self.y_data_unit)
@@ -1612,7 +1622,8 @@ class Spectrum2D(Spectrum):
                                              bin_centres,
                                              widths_in_bin_units,
                                              shape=shape,
-                                             method=method)
+                                             method=method,
+                                             width_convention=width_convention)
             spectrum = Spectrum2D(np.copy(self.x_data),
                                   np.copy(self.y_data),
                                   ureg.Quantity(z_broadened, units=self.z_data_unit),
-- 
2.43.0


From 97a935216aae7787cb55b1f0e0c6e04cb600f124 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:43:50 +0000
Subject: [PATCH 13/38] fix: return a new Spectrum2D from broaden if there is
 nothing to broaden

---
 euphonic/spectra.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/euphonic/spectra.py b/euphonic/spectra.py
index b9ce189..1728cfd 100644
--- a/euphonic/spectra.py
+++ b/euphonic/spectra.py
@@ -1630,7 +1630,7 @@ class Spectrum2D(Spectrum):
                                   copy.copy(self.x_tick_labels),
                                   copy.deepcopy(self.metadata))
         else:
-            spectrum = self
+            spectrum = self.copy()
 
         # Then apply variable-width broadening to any axes with Callable
         for axis, width, lower_limit in (('x', x_width, x_width_lower_limit),
-- 
2.43.0


From 1c6546bbd4b658982d6090adc552729357062a39 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:43:50 +0000
Subject: [PATCH 14/38] fix: raise an error for incorrect width types in
 Spectrum2D.broaden

Other types, e.g. a plain float, were silently ignored and the spectrum was
not broadened. Spectrum1D.broaden raises a TypeError.
---
 euphonic/spectra.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/euphonic/spectra.py b/euphonic/spectra.py
index 1728cfd..2abea03 100644
--- a/euphonic/spectra.py
+++ b/euphonic/spectra.py
@@ -1603,6 +1603,11 @@ class Spectrum2D(Spectrum):
         """
         # First apply fixed-width broadening; this can be applied to both axes
         # in one function call if both are specified.
+        for width in (x_width, y_width):
+            if not (width is None or isinstance(width, (Quantity, Callable))):
+                raise TypeError(
+                    "x_width and y_width must be a Quantity or Callable")
+
         widths_in_bin_units = [None]*2
 
         if isinstance(x_width, Quantity):
-- 
2.43.0


From 22d212d3616f5b1c12022d778a15ab0e2f2270db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:44:30 +0000
Subject: [PATCH 15/38] fix: don't reorder the arrays the user created
 QpointPhononModes with

reorder_frequencies changed the frequencies and eigenvectors in place, but
they may still be the arrays that were passed to the constructor.
---
 euphonic/qpoint_phonon_modes.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/euphonic/qpoint_phonon_modes.py b/euphonic/qpoint_phonon_modes.py
index 2f63253..5e6b073 100644
--- a/euphonic/qpoint_phonon_modes.py
+++ b/euphonic/qpoint_phonon_modes.py
@@ -160,10 +160,13 @@ class QpointPhononModes(QpointFrequencies):
                 mode_map[i] = mode_map[i-1]
 
         # Actually rearrange frequencies/eigenvectors
+        frequencies = np.copy(self._frequencies)
+        eigenvectors = np.copy(self.eigenvectors)
         for i in range(n_qpts):
-            self._frequencies[i] = self._frequencies[i, mode_map[i]]
-            evec_tmp = np.copy(self.eigenvectors[i, mode_map[i]])
-            self.eigenvectors[i] = evec_tmp
+            frequencies[i] = self._frequencies[i, mode_map[i]]
+            eigenvectors[i] = self.eigenvectors[i, mode_map[i]]
+        self._frequencies = frequencies
+        self.eigenvectors = eigenvectors
 
     def calculate_structure_factor(
         self,
-- 
2.43.0


From 28afb6995d2d49c9a5485e5e5adb27158bd1f3a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:44:30 +0000
Subject: [PATCH 16/38] fix: keep q-point weights in calculate_structure_factor

The weights of the QpointPhononModes were dropped, so all q-points had equal
weights in averages of the resulting StructureFactor.
---
 euphonic/qpoint_phonon_modes.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/euphonic/qpoint_phonon_modes.py b/euphonic/qpoint_phonon_modes.py
index 5e6b073..5d887b2 100644
--- a/euphonic/qpoint_phonon_modes.py
+++ b/euphonic/qpoint_phonon_modes.py
@@ -296,7 +296,7 @@ class QpointPhononModes(QpointFrequencies):
         return StructureFactor(
             self.crystal, self.qpts, self.frequencies,
             sf*ureg('bohr**2').to('mbarn'),
-            temperature=temperature)
+            weights=self.weights, temperature=temperature)
 
     def calculate_debye_waller(
         self, temperature: Quantity,
-- 
2.43.0


From c736e9feda9661bbf5c06ac64249f9e1623f7da7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:44:30 +0000
Subject: [PATCH 17/38] fix: don't change the interpolation_kwargs passed to
 BrilleInterpolator

---
 euphonic/brille.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/euphonic/brille.py b/euphonic/brille.py
index 4b33a62..475bda4 100644
--- a/euphonic/brille.py
+++ b/euphonic/brille.py
@@ -240,8 +240,9 @@ class BrilleInterpolator:
                'Calculating frequencies/eigenvectors...')
         if interpolation_kwargs is None:
             interpolation_kwargs = {}
-        interpolation_kwargs['insert_gamma'] = False
-        interpolation_kwargs['reduce_qpts'] = False
+        interpolation_kwargs = {**interpolation_kwargs,
+                                'insert_gamma': False,
+                                'reduce_qpts': False}
         phonons = force_constants.calculate_qpoint_phonon_modes(
             grid.rlu, **interpolation_kwargs)
 
-- 
2.43.0


From 4ad9469cba37a636ecdead096b2b1f9e05dbbbbe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:44:40 +0000
Subject: [PATCH 18/38] fix: don't share metadata between an object and its
 dict, splits or broadened spectra

---
 euphonic/io.py      |  2 ++
 euphonic/spectra.py | 10 +++++-----
 2 files changed, 7 insertions(+), 5 deletions(-)

diff --git a/euphonic/io.py b/euphonic/io.py
index e89a095..ef5a1f3 100644
--- a/euphonic/io.py
+++ b/euphonic/io.py
@@ -63,6 +63,8 @@ def _obj_to_dict(obj: T, attrs: Sequence[str]) -> Dict[str, Any]:
             dout[attr] = np.copy(val)
         elif isinstance(val, list):
             dout[attr] = val.copy()
+        elif isinstance(val, dict):
+            dout[attr] = copy.deepcopy(val)
         elif isinstance(val, Quantity):
             if isinstance(val.magnitude, np.ndarray):
                 dout[attr] = np.copy(val.magnitude)
diff --git a/euphonic/spectra.py b/euphonic/spectra.py
index 2abea03..bcbf710 100644
--- a/euphonic/spectra.py
+++ b/euphonic/spectra.py
@@ -486,7 +486,7 @@ class Spectrum1D(Spectrum):
         return [type(self)(self.x_data[x0:x1], self.y_data[x0:x1],
                            x_tick_labels=self._cut_x_ticks(self.x_tick_labels,
                                                            x0, x1),
-                           metadata=self.metadata)
+                           metadata=copy.deepcopy(self.metadata))
                 for x0, x1 in ranges]
 
     def copy(self: T) -> T:
@@ -1212,7 +1212,7 @@ class Spectrum1DCollection(SpectrumCollectionMixin,
         return [type(self)(self.x_data[x0:x1], self.y_data[:, x0:x1],
                            x_tick_labels=self._cut_x_ticks(self.x_tick_labels,
                                                            x0, x1),
-                           metadata=self.metadata)
+                           metadata=copy.deepcopy(self.metadata))
                 for x0, x1 in ranges]
 
     @classmethod
@@ -1532,7 +1532,7 @@ class Spectrum2D(Spectrum):
                            self.z_data[x0:x1, :],
                            x_tick_labels=self._cut_x_ticks(self.x_tick_labels,
                                                            x0, x1),
-                           metadata=self.metadata)
+                           metadata=copy.deepcopy(self.metadata))
                 for x0, x1 in ranges]
 
     def broaden(self: T,
@@ -1702,7 +1702,7 @@ class Spectrum2D(Spectrum):
                           np.copy(spectrum.y_data),
                           z_broadened,
                           copy.copy(spectrum.x_tick_labels),
-                          copy.copy(spectrum.metadata))
+                          copy.deepcopy(spectrum.metadata))
 
     def copy(self: T) -> T:
         """Get an independent copy of spectrum"""
@@ -1924,7 +1924,7 @@ class Spectrum2DCollection(SpectrumCollectionMixin,
                            self.z_data[:, x0:x1, :],
                            x_tick_labels=self._cut_x_ticks(
                                self.x_tick_labels, x0, x1),
-                           metadata=self.metadata)
+                           metadata=copy.deepcopy(self.metadata))
                 for x0, x1 in ranges]
 
     @property
-- 
2.43.0


From bc8cef34fc0d584d9c209c549f0a3f33d290104c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:46:10 +0000
Subject: [PATCH 19/38] fix: return mode gradients in the requested unit from
 read_phonon_dos_data

---
 euphonic/readers/castep.py | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/euphonic/readers/castep.py b/euphonic/readers/castep.py
index 2e150c5..eb0272a 100644
--- a/euphonic/readers/castep.py
+++ b/euphonic/readers/castep.py
@@ -29,6 +29,8 @@ def read_phonon_dos_data(
         The unit to return the atom masses in
     frequencies_unit
         The unit to return the frequencies in
+    mode_gradients_unit
+        The unit to return the mode gradients in
 
     Returns
     -------
@@ -93,10 +95,11 @@ def read_phonon_dos_data(
     # Pint conversion 'angstrom*(1/cm)' to 'angstrom*(meV)' doesn't
     # work so convert separately
     mode_grads = mode_grads*ureg('angstrom').to(cell_vectors_unit).magnitude
-    data_dict['mode_gradients'] = mode_grads*ureg('1/cm').to(
-            frequencies_unit).magnitude
-    data_dict['mode_gradients_unit'] = (frequencies_unit + '*'
-                                        + cell_vectors_unit)
+    mode_grads = mode_grads*ureg('1/cm').to(frequencies_unit).magnitude
+    data_dict['mode_gradients'] = mode_grads*ureg(
+        f'{frequencies_unit}*{cell_vectors_unit}').to(
+            mode_gradients_unit).magnitude
+    data_dict['mode_gradients_unit'] = mode_gradients_unit
     data_dict['dos_bins'] = dos_data[:, 0]*ureg('1/cm').to(
             frequencies_unit).magnitude
     data_dict['dos_bins_unit'] = frequencies_unit
-- 
2.43.0


From e1ee7ea6ad9f35ca4c4bc0daf30c125ceeae14b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:46:10 +0000
Subject: [PATCH 20/38] fix: include the offending value in error messages

---
 euphonic/cli/show_sampling.py | 2 +-
 euphonic/cli/utils.py         | 2 +-
 euphonic/readers/castep.py    | 2 +-
 3 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/euphonic/cli/show_sampling.py b/euphonic/cli/show_sampling.py
index 75e26a8..3c23a92 100644
--- a/euphonic/cli/show_sampling.py
+++ b/euphonic/cli/show_sampling.py
@@ -103,6 +103,6 @@ def main(params: Optional[List[str]] = None) -> None:
                    marker='x')
 
     else:
-        raise ValueError("Sampling type f{args.sampling} is not implemented.")
+        raise ValueError(f"Sampling type {args.sampling} is not implemented.")
 
     matplotlib_save_or_show(save_filename=args.save_plot)
diff --git a/euphonic/cli/utils.py b/euphonic/cli/utils.py
index 4dd3628..514dbcb 100644
--- a/euphonic/cli/utils.py
+++ b/euphonic/cli/utils.py
@@ -383,7 +383,7 @@ def _get_pdos_weighting(cl_arg_weighting: str) -> Optional[str]:
     else:
         idx = cl_arg_weighting.rfind('-')
         if idx == -1:
-            raise ValueError('Unexpected weighting {cl_arg_weighting}')
+            raise ValueError(f'Unexpected weighting {cl_arg_weighting}')
         pdos_weighting = cl_arg_weighting[:idx]
     return pdos_weighting
 
diff --git a/euphonic/readers/castep.py b/euphonic/readers/castep.py
index eb0272a..1ac54a8 100644
--- a/euphonic/readers/castep.py
+++ b/euphonic/readers/castep.py
@@ -244,7 +244,7 @@ def read_phonon_data(
                 weights[indices] = 0
             else:
                 raise ValueError(
-                    "Found multiple non-split blocks for q-point {qpt_id},"
+                    f"Found multiple non-split blocks for q-point {qpt_id},"
                     " cannot determine which to use.")
 
         elif average_repeat_points:
-- 
2.43.0


From fdef407b80b9352d8279ce44a498a8d7d49135b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:46:10 +0000
Subject: [PATCH 21/38] fix: raise the error for adaptive-broadening without
 ebins

---
 euphonic/cli/utils.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/euphonic/cli/utils.py b/euphonic/cli/utils.py
index 514dbcb..727af27 100644
--- a/euphonic/cli/utils.py
+++ b/euphonic/cli/utils.py
@@ -779,8 +779,8 @@ def _get_cli_parser(features: Collection[str] = {},
                 choices=('gauss', 'lorentz'),
                 help='The broadening shape')
         else:
-            ValueError('"adaptive-broadening" cannot be applied without '
-                       '"ebins"')
+            raise ValueError('"adaptive-broadening" cannot be applied '
+                             'without "ebins"')
 
     if {'q-e', 'mp-grid'}.intersection(features):
         sections['q'].add_argument(
-- 
2.43.0


From e7712c2205e089e51b6386fc224dfcbaf968919f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:46:10 +0000
Subject: [PATCH 22/38] fix: don't read eigenvectors from band.hdf5 if they
 aren't required

---
 euphonic/readers/phonopy.py | 21 +++++++++++----------
 1 file changed, 11 insertions(+), 10 deletions(-)

diff --git a/euphonic/readers/phonopy.py b/euphonic/readers/phonopy.py
index b1b0bc9..2f8ac01 100644
--- a/euphonic/readers/phonopy.py
+++ b/euphonic/readers/phonopy.py
@@ -172,16 +172,17 @@ def _extract_phonon_data_hdf5(filename: str,
                 -1, hdf5_file['path'][()].shape[-1])
             data_dict['frequencies'] = hdf5_file['frequency'][()].reshape(
                 -1, hdf5_file['frequency'][()].shape[-1])
-            try:
-                # The last 2 dimensions of eigenvectors in bands.hdf5 are for
-                # some reason transposed compared to mesh/qpoints.hdf5, so also
-                # transpose to handle this
-                data_dict['eigenvectors'] = hdf5_file[
-                    'eigenvector'][()].reshape(
-                        -1, *hdf5_file['eigenvector'][()].shape[-2:]
-                        ).transpose([0,2,1])
-            except KeyError:
-                pass
+            if read_eigenvectors:
+                try:
+                    # The last 2 dimensions of eigenvectors in bands.hdf5 are
+                    # for some reason transposed compared to mesh/qpoints.hdf5,
+                    # so also transpose to handle this
+                    data_dict['eigenvectors'] = hdf5_file[
+                        'eigenvector'][()].reshape(
+                            -1, *hdf5_file['eigenvector'][()].shape[-2:]
+                            ).transpose([0,2,1])
+                except KeyError:
+                    pass
 
     return data_dict
 
-- 
2.43.0


From 4e8e6e6f6daf131f42b91b1d5ef7d4cd28f71898 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:46:10 +0000
Subject: [PATCH 23/38] fix: read force constants from files with .h5 and .hd5
 extensions

The extensions were recognised, but then compared to part of the string
'hdf5' so were rejected.
---
 euphonic/readers/phonopy.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/euphonic/readers/phonopy.py b/euphonic/readers/phonopy.py
index 2f8ac01..20dce71 100644
--- a/euphonic/readers/phonopy.py
+++ b/euphonic/readers/phonopy.py
@@ -714,7 +714,7 @@ def read_interpolation_data(
             with open(fc_pathname, 'r') as fc_file:
                 summary_dict['force_constants'] = _extract_force_constants(
                     fc_pathname, n_atoms, n_cells, summary_pathname)
-        elif fc_format in 'hdf5':
+        elif fc_format in hdf5_exts:
             summary_dict['force_constants'] =  _extract_force_constants_hdf5(
                 fc_pathname, n_atoms, n_cells, summary_pathname)
         else:
-- 
2.43.0


From 00e29e60a75570ccd049aabd732fb5d920d4994d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:46:31 +0000
Subject: [PATCH 24/38] fix: convert the dielectric units in
 from_total_fc_with_dipole

---
 euphonic/force_constants.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/euphonic/force_constants.py b/euphonic/force_constants.py
index 7b885f8..307e18b 100644
--- a/euphonic/force_constants.py
+++ b/euphonic/force_constants.py
@@ -1824,12 +1824,13 @@ class ForceConstants:
                              sc_mass*ureg('m_e'))
         sc_born = np.tile(born.to(ureg('e')).magnitude,
                           (n_cells, 1, 1))
+        dielectric_au = dielectric.to('e**2/(bohr*hartree)').magnitude
         # Now initialise, calculate and subtract the dipole correction
         dipole_data = cls._dipole_correction_init(
-            sc_crystal, sc_born, dielectric.magnitude)
+            sc_crystal, sc_born, dielectric_au)
         corr = cls._calculate_dipole_correction(
             np.array([0., 0., 0.]), sc_crystal, sc_born,
-            dielectric.magnitude, dipole_data)
+            dielectric_au, dipole_data)
         corr = np.transpose(
             np.reshape(corr[:, :3*n_atoms], (n_cells, 3*n_atoms, 3*n_atoms)),
             axes=[0, 2, 1])
-- 
2.43.0


From 2bcee2c0a6426900b95d580b4df70eea9814f1e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:46:51 +0000
Subject: [PATCH 25/38] fix: allow data to be set in any unit its unit
 attribute can be set to

Reciprocal spectroscopy conversions were allowed for the unit attributes and
when getting the data, but not when setting it. Setting data in such a unit
changed the unit and then failed, leaving the old data.
---
 euphonic/spectra.py | 16 ++++++++++++----
 1 file changed, 12 insertions(+), 4 deletions(-)

diff --git a/euphonic/spectra.py b/euphonic/spectra.py
index bcbf710..cadb49b 100644
--- a/euphonic/spectra.py
+++ b/euphonic/spectra.py
@@ -55,7 +55,9 @@ class Spectrum(ABC):
     @x_data.setter
     def x_data(self, value: Quantity) -> None:
         self.x_data_unit = str(value.units)
-        self._x_data = value.to(self._internal_x_data_unit).magnitude
+        self._x_data = value.to(
+            self._internal_x_data_unit,
+            "reciprocal_spectroscopy").magnitude
 
     @property
     def y_data(self) -> Quantity:
@@ -65,7 +67,9 @@ class Spectrum(ABC):
     @y_data.setter
     def y_data(self, value: Quantity) -> None:
         self.y_data_unit = str(value.units)
-        self._y_data = value.to(self._internal_y_data_unit).magnitude
+        self._y_data = value.to(
+            self._internal_y_data_unit,
+            "reciprocal_spectroscopy").magnitude
 
     def __imul__(self: T, other: Real) -> T:
         """Scale spectral data in-place"""
@@ -1511,7 +1515,9 @@ class Spectrum2D(Spectrum):
     @z_data.setter
     def z_data(self, value: Quantity) -> None:
         self.z_data_unit = str(value.units)
-        self._z_data = value.to(self._internal_z_data_unit).magnitude
+        self._z_data = value.to(
+            self._internal_z_data_unit,
+            "reciprocal_spectroscopy").magnitude
 
     def __imul__(self: T, other: Real) -> T:
         """Scale spectral data in-place"""
@@ -1936,7 +1942,9 @@ class Spectrum2DCollection(SpectrumCollectionMixin,
     @z_data.setter
     def z_data(self, value: Quantity) -> None:
         self.z_data_unit = str(value.units)
-        self._z_data = value.to(self._internal_z_data_unit).magnitude
+        self._z_data = value.to(
+            self._internal_z_data_unit,
+            "reciprocal_spectroscopy").magnitude
 
     def __setattr__(self, name: str, value: Any) -> None:
         _check_unit_conversion(self, name, value, ['z_data_unit'])
-- 
2.43.0


From b2ecef0b0c87e1061d7d7f6a0e683b7eef9daf13 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:46:51 +0000
Subject: [PATCH 26/38] fix: raise an error for unknown acoustic sum rules

An unrecognised value was ignored, so no correction was made.
---
 euphonic/force_constants.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/euphonic/force_constants.py b/euphonic/force_constants.py
index 307e18b..785bec1 100644
--- a/euphonic/force_constants.py
+++ b/euphonic/force_constants.py
@@ -467,6 +467,10 @@ class ForceConstants:
             Shape (n_qpts, 3*n_atoms, 3) float Quantity in
             energy*length units. The phonon mode gradients
         """
+        asr_opts = (None, 'realspace', 'reciprocal')
+        if asr not in asr_opts:
+            raise ValueError(f'Invalid value for asr, got {asr}, '
+                             f'should be one of {asr_opts}')
         # Check weights is of appropriate type and shape, to avoid doing all
         # the interpolation only for it to fail creating QpointPhononModes
         _check_constructor_inputs(
-- 
2.43.0


From 6390605e9fdfb923cc068d064ee5a97a14536da1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:29:16 +0000
Subject: [PATCH 27/38] fix: sign of the determinant's middle cofactor in the C
 extension

---
 c/util.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/c/util.c b/c/util.c
index a4aeab4..de8f686 100644
--- a/c/util.c
+++ b/c/util.c
@@ -23,7 +23,7 @@ void copy_array(const int size, const double *arr, double *copy) {
 
 double det_array(const double arr[9]) {
    double det;
-   det = arr[0]*(arr[4]*arr[8] - arr[7]*arr[5]) +
+   det = arr[0]*(arr[4]*arr[8] - arr[7]*arr[5]) -
          arr[1]*(arr[3]*arr[8] - arr[6]*arr[5]) +
          arr[2]*(arr[3]*arr[7] - arr[6]*arr[4]);
    return det;
-- 
2.43.0


From 785ef9649de47af76036ac82d7ffb221661e9f85 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:30:31 +0000
Subject: [PATCH 28/38] fix: compare bins and temperatures independently of the
 unit they are in

Absolute tolerances were applied to magnitudes in whatever unit the caller
used, so unequal bins or different axes given in e.g. J compared equal.
---
 euphonic/powder.py           |  3 ++-
 euphonic/spectra.py          | 16 ++++++++++++----
 euphonic/structure_factor.py |  3 ++-
 3 files changed, 16 insertions(+), 6 deletions(-)

diff --git a/euphonic/powder.py b/euphonic/powder.py
index b51105e..bedaff1 100644
--- a/euphonic/powder.py
+++ b/euphonic/powder.py
@@ -299,7 +299,8 @@ def sample_sphere_structure_factor(
                                                           **calc_modes_args)
             dw = dw_phonons.calculate_debye_waller(temperature
                                                    )  # type: DebyeWaller
-        elif not np.isclose(dw.temperature, temperature):
+        elif not np.isclose(dw.temperature.to('K').magnitude,
+                            temperature.to('K').magnitude):
             raise ValueError('Temperature argument is not consistent with '
                              'temperature stored in DebyeWaller object.')
 
diff --git a/euphonic/spectra.py b/euphonic/spectra.py
index cadb49b..c8a17c5 100644
--- a/euphonic/spectra.py
+++ b/euphonic/spectra.py
@@ -261,7 +261,8 @@ class Spectrum(ABC):
             for ax, (width, bin_data) in enumerate(zip(widths, bin_centres)):
                 if width is not None:
                     bin_widths = np.diff(bin_data)
-                    if not np.all(np.isclose(bin_widths, bin_widths[0])):
+                    if not np.all(np.isclose(bin_widths, bin_widths[0],
+                                             atol=0.)):
                         unequal_bin_axes += [axes[ax]]
             if len(unequal_bin_axes) > 0:
                 msg = (f'{" and ".join(unequal_bin_axes)} bin widths are '
@@ -1240,8 +1241,11 @@ class Spectrum1DCollection(SpectrumCollectionMixin,
         for i, spectrum in enumerate(spectra[1:]):
             _type_check(spectrum)
             assert spectrum.y_data.units == y_data_units
-            assert np.allclose(spectrum.x_data, x_data)
             assert spectrum.x_data.units == x_data.units
+            # Scale tolerance with the data so it doesn't depend on the unit
+            assert np.allclose(
+                spectrum.x_data.magnitude, x_data.magnitude,
+                atol=1e-8*np.max(np.abs(x_data.magnitude)))
             assert spectrum.x_tick_labels == x_tick_labels
             y_data_magnitude[i + 1, :] = spectrum.y_data.magnitude
 
@@ -1675,7 +1679,8 @@ class Spectrum2D(Spectrum):
         bins = spectrum.get_bin_edges(bin_ax=axis)
         bin_widths = np.diff(bins)
 
-        if not np.all(np.isclose(bin_widths, bin_widths[0])):
+        if not np.all(np.isclose(bin_widths.magnitude,
+                                 bin_widths.magnitude[0], atol=0.)):
             bin_width = bin_widths.mean()
         else:
             bin_width = bin_widths[0]
@@ -1986,8 +1991,11 @@ class Spectrum2DCollection(SpectrumCollectionMixin,
 
             for key, ref_bins in bins_data.items():
                 item_bins = getattr(spectrum, key)
-                assert np.allclose(item_bins.magnitude, ref_bins.magnitude)
                 assert item_bins.units == ref_bins.units
+                # Scale tolerance with data so it doesn't depend on the unit
+                assert np.allclose(
+                    item_bins.magnitude, ref_bins.magnitude,
+                    atol=1e-8*np.max(np.abs(ref_bins.magnitude)))
 
             assert spectrum.x_tick_labels == x_tick_labels
             spectrum_data_magnitude[i + 1, :, :] = spectrum_i_data.magnitude
diff --git a/euphonic/structure_factor.py b/euphonic/structure_factor.py
index 97d2ddb..ce46bc9 100644
--- a/euphonic/structure_factor.py
+++ b/euphonic/structure_factor.py
@@ -317,7 +317,8 @@ class StructureFactor(QpointFrequencies):
         """
         if self.temperature is not None:
             if (temperature is not None
-                    and not np.isclose(temperature, self.temperature)):
+                    and not np.isclose(temperature.to('K').magnitude,
+                                       self.temperature.to('K').magnitude)):
                 raise ValueError((
                     'Temperature provided to calculate the Bose factor '
                     '({:~P}) is not consistent with the temperature '
-- 
2.43.0


From 44156fd4f9ad99562d89ad10ca5ee211fd3cad2c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:13:04 +0000
Subject: [PATCH 29/38] fix: handle Born charges and dielectric tensor
 independently

With only a dielectric tensor a Quantity was stored in place of its value and
reading it back raised DimensionalityError; with only Born charges the
constructor raised AttributeError.
---
 euphonic/force_constants.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/euphonic/force_constants.py b/euphonic/force_constants.py
index 785bec1..bb57425 100644
--- a/euphonic/force_constants.py
+++ b/euphonic/force_constants.py
@@ -111,12 +111,15 @@ class ForceConstants:
         if born is not None:
             self._born = born.to(ureg.e).magnitude
             self.born_unit = str(born.units)
+        else:
+            self._born = born
+            self.born_unit = str(ureg.e)
+
+        if dielectric is not None:
             self._dielectric = dielectric.to(ureg(
                 'e**2/(bohr*hartree)')).magnitude
             self.dielectric_unit = str(dielectric.units)
         else:
-            self._born = born
-            self.born_unit = str(ureg.e)
             self._dielectric = dielectric
             self.dielectric_unit = str(ureg((
                 'e**2/(bohr*hartree)')))
@@ -477,7 +480,7 @@ class ForceConstants:
             [weights], [[np.ndarray, type(None)]], [(len(qpts),)], ['weights'])
 
         # Set default splitting params
-        if self.born is None:
+        if self.born is None or self.dielectric is None:
             dipole = False
         if not dipole:
             splitting = False
-- 
2.43.0


From ddab63218c6064a5a692fd5fcc8fa9f2a895e159 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:40:21 +0000
Subject: [PATCH 30/38] fix: only accept units that an object can convert its
 data to

Except in Spectrum objects, data is converted without the
reciprocal_spectroscopy context, so a unit that was accepted on account
of that context (e.g. frequencies_unit = 's') made the data unreadable.
---
 euphonic/spectra.py  | 9 ++++++---
 euphonic/validate.py | 8 +++++---
 2 files changed, 11 insertions(+), 6 deletions(-)

diff --git a/euphonic/spectra.py b/euphonic/spectra.py
index c8a17c5..7b2d41f 100644
--- a/euphonic/spectra.py
+++ b/euphonic/spectra.py
@@ -38,7 +38,8 @@ class Spectrum(ABC):
 
     def __setattr__(self, name: str, value: Any) -> None:
         _check_unit_conversion(self, name, value,
-                               ['x_data_unit', 'y_data_unit'])
+                               ['x_data_unit', 'y_data_unit'],
+                               "reciprocal_spectroscopy")
         super().__setattr__(name, value)
 
     def _set_data(self, data: Quantity, attr_name: str) -> None:
@@ -1530,7 +1531,8 @@ class Spectrum2D(Spectrum):
 
     def __setattr__(self, name: str, value: Any) -> None:
         _check_unit_conversion(self, name, value,
-                               ['z_data_unit'])
+                               ['z_data_unit'],
+                               "reciprocal_spectroscopy")
         super(Spectrum2D, self).__setattr__(name, value)
 
     def _split_by_indices(self,
@@ -1952,7 +1954,8 @@ class Spectrum2DCollection(SpectrumCollectionMixin,
             "reciprocal_spectroscopy").magnitude
 
     def __setattr__(self, name: str, value: Any) -> None:
-        _check_unit_conversion(self, name, value, ['z_data_unit'])
+        _check_unit_conversion(self, name, value, ['z_data_unit'],
+                               "reciprocal_spectroscopy")
         super().__setattr__(name, value)
 
     def __imul__(self, other: Real) -> Self:
diff --git a/euphonic/validate.py b/euphonic/validate.py
index 6971264..b94ce1b 100644
--- a/euphonic/validate.py
+++ b/euphonic/validate.py
@@ -56,7 +56,7 @@ def _check_constructor_inputs(
 
 
 def _check_unit_conversion(obj: object, attr_name: str, attr_value: Any,
-                           unit_attrs: List[str]) -> None:
+                           unit_attrs: List[str], *contexts: str) -> None:
     """
     If setting an attribute on an object that relates to the units of a
     Quantity (e.g. 'frequencies_unit' in QpointPhononModes) check that
@@ -73,6 +73,9 @@ def _check_unit_conversion(obj: object, attr_name: str, attr_value: Any,
     unit_attrs
         Only check the unit conversion if the attribute is one of
         unit_attrs
+    contexts
+        Pint contexts that obj uses, in addition to those that are
+        always enabled, when converting its data to this unit
 
     Raises
     ------
@@ -82,8 +85,7 @@ def _check_unit_conversion(obj: object, attr_name: str, attr_value: Any,
     if hasattr(obj, attr_name):
         if attr_name in unit_attrs:
             try:
-                ureg(getattr(obj, attr_name)).ito(attr_value,
-                                                  "reciprocal_spectroscopy")
+                ureg(getattr(obj, attr_name)).ito(attr_value, *contexts)
             except DimensionalityError:
                 raise ValueError((
                     f'"{attr_value}" is not a known dimensionally-consistent '
-- 
2.43.0


From 2db0b742e9131d91886f426d3841cfa6101ce328 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:44:49 +0000
Subject: [PATCH 31/38] fix: honour adaptive_error for Lorentzian broadening

The Chebyshev series for the Lorentzian had an empty window, so the kernel
spacing was 2.0 whatever error was asked for (an error of up to 4.5%
instead of the default 1%).
---
 euphonic/broadening.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/euphonic/broadening.py b/euphonic/broadening.py
index 0cb59e4..5884072 100644
--- a/euphonic/broadening.py
+++ b/euphonic/broadening.py
@@ -179,7 +179,7 @@ def _get_spacing(error,
             cheby = Chebyshev(
                 [1.26039672, 0.39900457, 0.20392176, 0.08602507,
                  0.03337662, 0.00878684, 0.00619626],
-                window=[1., 1.],
+                window=[-1., 1.],
                 domain=[-4.99146317, -1.34655197])
             safe_domain = [-4, -1.35]
 
-- 
2.43.0


From e0d0f9b631592e86ac33cd9fc6a8dbbb74b3c0cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:46:37 +0000
Subject: [PATCH 32/38] fix: exclude zero frequencies from the Debye-Waller
 exponent

Frequencies below frequency_min were masked by multiplying with zero, which
gives NaN rather than zero if a frequency is exactly zero.
---
 euphonic/qpoint_phonon_modes.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/euphonic/qpoint_phonon_modes.py b/euphonic/qpoint_phonon_modes.py
index 5d887b2..5168227 100644
--- a/euphonic/qpoint_phonon_modes.py
+++ b/euphonic/qpoint_phonon_modes.py
@@ -386,6 +386,8 @@ class QpointPhononModes(QpointFrequencies):
         # Mask out frequencies below frequency_min
         freq_mask = np.ones(freqs.shape)
         freq_mask[freqs < freq_min] = 0
+        # Masked terms are multiplied by zero so they must be finite
+        freqs = np.where(freqs < freq_min, 1., freqs)
 
         if temp > 0:
             x = freqs/(2*kB*temp)
-- 
2.43.0


From 0cec8f87a29355700cb741c457dd7478dd4d464b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:55:59 +0000
Subject: [PATCH 33/38] fix: accept temperatures in offset units when
 calculating the Bose factor

Comparing a temperature in e.g. degC with zero raises
OffsetUnitCalculusError.
---
 euphonic/structure_factor.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/euphonic/structure_factor.py b/euphonic/structure_factor.py
index ce46bc9..f155656 100644
--- a/euphonic/structure_factor.py
+++ b/euphonic/structure_factor.py
@@ -333,7 +333,7 @@ class StructureFactor(QpointFrequencies):
         kB = (1*ureg.k).to('E_h/K').magnitude
         temp = temperature.to('K').magnitude
         bose = np.zeros(self._frequencies.shape)
-        if temperature > 0:
+        if temp > 0:
             bose = 1/(np.exp(np.absolute(self._frequencies)/(kB*temp)) - 1)
         else:
             bose = 0
-- 
2.43.0


From 4b97ada53e26222ad5c7fc9964bc044f09647e4d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:55:59 +0000
Subject: [PATCH 34/38] fix: read back temperatures written in offset units

value*ureg(unit) is ambiguous for offset units such as degC, so an object
with such a temperature could be saved but not read.
---
 euphonic/io.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/euphonic/io.py b/euphonic/io.py
index ef5a1f3..efdc34b 100644
--- a/euphonic/io.py
+++ b/euphonic/io.py
@@ -5,7 +5,7 @@ from typing import Dict, Type, TypeVar, Sequence, Any
 
 import numpy as np
 
-from euphonic import ureg, Quantity, __version__
+from euphonic import Quantity, __version__
 
 T = TypeVar('T')
 
@@ -93,7 +93,7 @@ def _process_dict(dictionary: Dict[str, Any], quantities: Sequence[str] = [],
     for qkey in quantities:
         val = dictionary.pop(qkey)
         if val is not None:
-            val = val*ureg(dictionary.pop(qkey + '_unit'))
+            val = Quantity(val, dictionary.pop(qkey + '_unit'))
         dictionary[qkey] = val
     return dictionary
 
-- 
2.43.0


From 01f0e12d675ea323e21a2d7d7cd2bdbec03d75f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:28:32 +0000
Subject: [PATCH 35/38] fix: don't scale the user's array when multiplying a
 spectrum in place

---
 euphonic/spectra.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/euphonic/spectra.py b/euphonic/spectra.py
index 7b2d41f..4910265 100644
--- a/euphonic/spectra.py
+++ b/euphonic/spectra.py
@@ -74,7 +74,7 @@ class Spectrum(ABC):
 
     def __imul__(self: T, other: Real) -> T:
         """Scale spectral data in-place"""
-        self._y_data *= other
+        self._y_data = self._y_data * other
         return self
 
     def __mul__(self: T, other: Real) -> T:
-- 
2.43.0


From 926eec2091a72745ddfb0502910baf9b100b8af2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:14:42 +0000
Subject: [PATCH 36/38] fix: restore the line endings of force_constants.py

An earlier fix rewrote the whole file with LF instead of CRLF line endings.
---
 euphonic/force_constants.py | 3860 +++++++++++++++++------------------
 1 file changed, 1930 insertions(+), 1930 deletions(-)

diff --git a/euphonic/force_constants.py b/euphonic/force_constants.py
index bb57425..cf9bad5 100644
--- a/euphonic/force_constants.py
+++ b/euphonic/force_constants.py
@@ -1,1930 +1,1930 @@
-import math
-import os
-import sys
-import warnings
-from typing import (Literal, Optional, Tuple, Union,
-                    TypeVar, Sequence, Dict, Any, Type)
-from multiprocessing import cpu_count
-
-import numpy as np
-from pint import Quantity
-from scipy.special import erfc
-from threadpoolctl import threadpool_limits
-
-import euphonic
-from euphonic.validate import (
-    _check_constructor_inputs, _check_unit_conversion,
-    _ensure_contiguous_args, _ensure_contiguous_attrs)
-from euphonic.io import (_obj_to_json_file, _obj_from_json_file,
-                         _obj_to_dict, _process_dict)
-from euphonic.readers import castep, phonopy
-from euphonic.util import (is_gamma, get_all_origins,
-                           mode_gradients_to_widths,
-                           _get_supercell_relative_idx)
-from euphonic import (ureg, Crystal, QpointPhononModes,
-                      QpointFrequencies)
-
-
-class ImportCError(Exception):
-    pass
-
-
-class ForceConstants:
-    """
-    A class to read and store the data required for a phonon
-    interpolation calculation from model (e.g. CASTEP) output,
-    and calculate phonon frequencies/eigenvectors at arbitrary q-points
-    via Fourier interpolation
-
-    Attributes
-    ----------
-    crystal
-        Lattice and atom information
-    force_constants
-        Shape (n_cells_in_sc, 3*n_atoms, 3*n_atoms) float Quantity in
-        energy/length**2 units. The force constants matrix
-    sc_matrix
-        Shape (3, 3) int ndarray. The transformation matrix to convert
-        from the unit cell vectors to the supercell vectors
-    n_cells_in_sc
-        Number of cells in the supercell
-    cell_origins
-        Shape (n_cells_in_sc, 3) int ndarray. The origin coordinates of
-        each unit cell within the supercell, in units of the unit cell
-        vectors
-    born
-        Shape (n_atoms, 3, 3) float Quantity in charge units or None.
-        The Born charges for each atom
-    dielectric
-        Shape (3, 3) float Quantity in charge**2/(length*energy) units
-        or None. The dielectric permittivity tensor
-    """
-    T = TypeVar('T', bound='ForceConstants')
-
-    def __init__(self, crystal: Crystal, force_constants: Quantity,
-                 sc_matrix: np.ndarray, cell_origins: np.ndarray,
-                 born: Optional[Quantity] = None,
-                 dielectric: Optional[Quantity] = None) -> None:
-        """
-        Parameters
-        ----------
-        crystal
-            Lattice and atom information
-        force_constants
-            Shape (n_cells_in_sc, 3*n_atoms, 3*n_atoms) float Quantity
-            in energy/length**2 units. The force constants matrix
-        sc_matrix
-            Shape (3, 3) int ndarray. The transformation matrix to
-            convert from the unit cell vectors to the supercell vectors
-        cell_origins
-            Shape (n_cells_in_sc, 3) int ndarray. The origin
-            coordinates of each unit cell within the supercell, in
-            units of the unit cell vectors
-        born
-            Shape (n_atoms, 3, 3) float Quantity in charge units. The
-            Born charges for each atom
-        dielectric
-            Shape (3, 3) float Quantity in charge**2/(length*energy)
-            units. The dielectric permittivity tensor
-        """
-        # Check independent inputs first
-        _check_constructor_inputs(
-            [crystal, sc_matrix], [Crystal, np.ndarray], [(), (3, 3)],
-            ['crystal', 'sc_matrix'])
-        n_at = crystal.n_atoms
-        n_sc = int(np.rint(np.absolute(np.linalg.det(sc_matrix))))
-        # Now check other derived input shapes
-        _check_constructor_inputs(
-            [force_constants, cell_origins, born, dielectric],
-            [Quantity, np.ndarray, [Quantity, type(None)],
-                [Quantity, type(None)]],
-            [(n_sc, 3*n_at, 3*n_at), (n_sc, 3), (n_at, 3, 3), (3, 3)],
-            ['force_constants', 'cell_origins', 'born', 'dielectric'])
-        self.crystal = crystal
-        self._force_constants = force_constants.to(
-            'hartree/bohr**2').magnitude
-        self.force_constants_unit = str(force_constants.units)
-        self.sc_matrix = sc_matrix
-        self.cell_origins = cell_origins
-        self.n_cells_in_sc = n_sc
-
-        if born is not None:
-            self._born = born.to(ureg.e).magnitude
-            self.born_unit = str(born.units)
-        else:
-            self._born = born
-            self.born_unit = str(ureg.e)
-
-        if dielectric is not None:
-            self._dielectric = dielectric.to(ureg(
-                'e**2/(bohr*hartree)')).magnitude
-            self.dielectric_unit = str(dielectric.units)
-        else:
-            self._dielectric = dielectric
-            self.dielectric_unit = str(ureg((
-                'e**2/(bohr*hartree)')))
-
-    @property
-    def force_constants(self) -> Quantity:
-        return self._force_constants*ureg(
-            'hartree/bohr**2').to(
-                self.force_constants_unit)
-
-    @force_constants.setter
-    def force_constants(self, value: Quantity) -> None:
-        self.force_constants_unit = str(value.units)
-        self._force_constants = value.to('hartree/bohr**2').magnitude
-
-    @property
-    def born(self) -> Union[Quantity, None]:
-        if self._born is not None:
-            return self._born*ureg('e').to(self.born_unit)
-        else:
-            return None
-
-    @born.setter
-    def born(self, value: Quantity) -> None:
-        self.born_unit = str(value.units)
-        self._born = value.to('e').magnitude
-
-    @property
-    def dielectric(self) -> Union[Quantity, None]:
-        if self._dielectric is not None:
-            return self._dielectric*ureg((
-                'e**2/(bohr*hartree)')).to(self.dielectric_unit)
-        else:
-            return None
-
-    @dielectric.setter
-    def dielectric(self, value: Quantity) -> None:
-        self.dielectric_unit = str(value.units)
-        self._dielectric = value.to('e**2/(bohr*hartree)').magnitude
-
-    def __setattr__(self, name: str, value: Any) -> None:
-        _check_unit_conversion(self, name, value,
-                               ['force_constants_unit', 'born_unit',
-                                'dielectric_unit'])
-        super(ForceConstants, self).__setattr__(name, value)
-
-    def calculate_qpoint_phonon_modes(
-            self,
-            qpts: np.ndarray,
-            weights: Optional[np.ndarray] = None,
-            asr: Optional[Literal['realspace', 'reciprocal']] = None,
-            dipole: bool = True,
-            dipole_parameter: float = 1.0,
-            splitting: bool = True,
-            insert_gamma: bool = False,
-            reduce_qpts: bool = True,
-            use_c: Optional[bool] = None,
-            n_threads: Optional[int] = None,
-            return_mode_gradients: bool = False
-            ) -> Union[QpointPhononModes,
-                       Tuple[QpointPhononModes, Quantity]]:
-        """
-        Calculate phonon frequencies and eigenvectors at specified
-        q-points from a force constants matrix via Fourier interpolation
-
-        Parameters
-        ----------
-        qpts
-            Shape (n_qpts, 3) float ndarray. The q-points to
-            interpolate onto in reciprocal cell vector units
-        weights
-            Shape (n_qpts,) float ndarray. The weight for each q-point.
-            If not given, equal weights are
-            applied
-        asr
-            Which acoustic sum rule correction to apply. 'realspace' applies
-            the correction to the force constant matrix in real
-            space. 'reciprocal' applies the correction to the dynamical matrix
-            at every q-point
-        dipole
-            Whether to calculate the dipole tail correction to the dynamical
-            matrix at each q-point using the Ewald sum, if the Born
-            charges and dielectric permitivitty tensor are present.
-        dipole_parameter
-            Changes the cutoff in real/reciprocal space for the dipole
-            Ewald sum. A higher value uses more reciprocal terms. If tuned
-            correctly this can result in performance improvements. See
-            euphonic-optimise-dipole-parameter program for help on choosing
-            a good dipole_parameter.
-        splitting
-            Whether to calculate the LO-TO splitting at the gamma
-            points. Only applied if dipole is True and the Born charges
-            and dielectric permitivitty tensor are present.
-        insert_gamma
-            If splitting is True, this will insert gamma points into
-            qpts to store the extra split frequencies. Note this means
-            that the length of qpts in the output QpointPhononModes
-            object will not necessarily be the same as the input qpts.
-            If qpts already contains double gamma points where you want
-            split frequencies, leave this as False.
-        reduce_qpts
-            Whether to use periodicity to reduce all q-points and only
-            calculate for unique q-points within the 1st BZ. This won't
-            change the output but could increase performance.
-        use_c
-            Whether to use C instead of Python to calculate and
-            diagonalise the dynamical matrix. By default this is None
-            and will use the C extension if it is installed, and fall
-            back to Python if not. If use_c=True, this will force use
-            of the C extension and an error will be raised if it
-            is not installed. If use_c=False, this will force use
-            of Python, even if the C extension is installed
-        n_threads
-            The number of OpenMP threads to use when looping over
-            q-points in C. By default this is None, in which case
-            the environment variable EUPHONIC_NUM_THREADS will be used
-            to determine number of threads, if this is not set then
-            the value returned from multiprocessing.cpu_count() will be
-            used
-        return_mode_gradients
-            Whether to also return the vector mode gradients (in
-            Cartesian coordinates). These can be converted to mode
-            widths and used in adaptive broadening for DOS. For details
-            on how these are calculated see the Notes section
-
-        Returns
-        -------
-        qpoint_phonon_modes
-            A QpointPhononModes object containing the interpolated
-            frequencies and eigenvectors at each q-point. Note that if
-            there is LO-TO splitting, and insert_gamma=True, the number
-            of input q-points may not be the same as in the output
-            object
-        mode_gradients
-            Optional shape (n_qpts, n_branches, 3) float Quantity,
-            the vector mode gradients dw/dq in Cartesian coordinates.
-            Is only returned if return_mode_gradients is true
-
-
-        Raises
-        ------
-        ImportCError
-            If use_c=True but the C extension cannot be imported
-
-        Notes
-        -----
-
-        **Phonon Frequencies/Eigenvectors Calculation**
-
-        Phonon frequencies/eigenvectors are calculated at any q-point by
-        Fourier interpolation of a force constants matrix. The force
-        constants matrix is defined as [1]_:
-
-        .. math::
-
-          \\Phi_{\\alpha {\\alpha}^\\prime}^{\\kappa {\\kappa}^\\prime}(0,l) =
-          \\frac{\\partial^{2}E}{{\\partial}u_{\\kappa\\alpha0}{\\partial}u_{{{\\kappa}^\\prime}{{\\alpha}^\\prime}l}}
-
-        where the unit cell containing the displaced atom is labelled
-        :math:`0` and :math:`l` runs over unit cells in the crystal,
-        :math:`\\kappa` runs over atoms in the unit cell, :math:`\\alpha`
-        runs over the Cartesian directions, and :math:`u_{\\kappa{\\alpha}l}`
-        is the displacement of atom :math:`\\kappa` in cell :math:`l` in
-        direction :math:`\\alpha` from its equilibrium position. This can be
-        used to calculate the dynamical matrix
-        :math:`D_{\\alpha {\\alpha}^\\prime}^{\\kappa {\\kappa}^\\prime}` at
-        :math:`\\mathbf{q}`:
-
-        .. math::
-
-          D_{\\alpha {\\alpha^\\prime}}^{\\kappa {\\kappa^\\prime}}(\\mathbf{q}) =
-          \\frac{1}{\\sqrt{M_\\kappa M_{\\kappa^\\prime}}}
-          \\sum_{l}\\Phi_{\\alpha {\\alpha^\\prime}}^{\\kappa {\\kappa^\\prime}}\\exp\\left(-i\\mathbf{q}\\cdot \\mathbf{R}_l\\right)
-
-        where :math:`M_\\kappa` is the mass of atom :math:`\\kappa`,
-        :math:`\\mathbf{R}_l` is the vector from the origin to the
-        :math:`l^\\textrm{th}` unit cell. The eigenvalue equation
-        for the dynamical matrix is then:
-
-        .. math::
-
-          \\sum_{\\kappa^\\prime \\alpha^\\prime}D_{\\alpha {\\alpha}^\\prime}^{\\kappa {\\kappa}^\\prime}(\\mathbf{q}) {e}_{\\mathbf{q}\\nu{\\kappa^\\prime}{\\alpha^\\prime}} =
-          {\\omega}_{\\mathbf{q}\\nu}^2 {e}_{\\mathbf{q}\\nu\\kappa\\alpha}
-
-        where the eigenvalues :math:`{\\omega}_{\\mathbf{q}\\nu}^2` are the
-        square of the phonon frequencies of mode :math:`\\nu` at
-        :math:`\\mathbf{q}`, and the eigenvectors
-        :math:`\\mathbf{e}_{\\mathbf{q}\\nu\\kappa}` are the phonon
-        polarisation vectors at :math:`\\mathbf{q}` of mode :math:`\\nu`
-        for atom :math:`\\kappa`. The produced eigenvectors are normalised
-        such that:
-
-        .. math::
-
-          \\sum_{\\kappa}{|\\mathbf{e}_{\\mathbf{q}\\nu\\kappa}|^2} = 1
-
-        In polar materials, there is an additional long-ranged
-        correction to the force constants matrix (applied if
-        dipole=True) and a non-analytical correction at the gamma point
-        [2]_ (applied if splitting=True).
-
-        .. [1] M. T. Dove, Introduction to Lattice Dynamics, Cambridge University Press, Cambridge, 1993, 83-87
-        .. [2] X. Gonze, J. C. Charlier, D. C. Allan, M. P. Teter, Phys. Rev. B, 1994, 50, 13035-13038
-
-        **Mode Gradients Calculation**
-
-        The mode gradients can be used to calculate mode widths to be used
-        in the adaptive broadening scheme [3]_ when computing a DOS - this
-        broadens each mode contribution individually according to its mode
-        width. The mode widths are proportional to the mode gradients and
-        can be estimated using ``euphonic.util.mode_gradients_to_widths``
-
-        The mode gradients :math:`\\frac{d\\omega_{\\mathbf{q}\\nu}}{d\\mathbf{q}}` at each :math:`\\mathbf{q}`
-        are calculated at the same time as the phonon frequencies and
-        eigenvectors as follows.
-
-        Firstly, the eigenvalue equation above can be written in matrix
-        form as:
-
-        .. math::
-
-          E(\\mathbf{q})\\Omega(\\mathbf{q}) = D(\\mathbf{q})E(\\mathbf{q})
-
-        .. math::
-
-          \\Omega(\\mathbf{q}) = E^{-1}(\\mathbf{q})D(\\mathbf{q})E(\\mathbf{q})
-
-        Where :math:`\\Omega(\\mathbf{q})` is the diagonal matrix of phonon
-        frequencies squared :math:`\\omega_{\\mathbf{q}\\nu}^{2}` and :math:`E(\\mathbf{q})`
-        is the matrix containing eigenvectors for all modes.
-        :math:`\\frac{d\\omega_{\\mathbf{q}\\nu}}{d\\mathbf{q}}`, can then
-        be obtained by differentiating the above equation with respect
-        to :math:`\\mathbf{q}` using the product rule:
-
-        .. math::
-
-          \\frac{d\\Omega}{d\\mathbf{q}} = 2\\omega_{\\mathbf{q}\\nu}\\frac{d\\omega_{\\mathbf{q}\\nu}}{d\\mathbf{q}}\\delta_{\\nu \\nu^{\\prime}}
-
-        .. math::
-
-          \\frac{d\\omega_{\\mathbf{q}\\nu}}{d\\mathbf{q}} = \\frac{1}{2\\omega_{\\mathbf{q}\\nu}}{(
-          \\frac{d{E^{-1}}}{d\\mathbf{q}}DE +
-          E^{-1}\\frac{dD}{d\\mathbf{q}}E +
-          E^{-1}D\\frac{dE}{d\\mathbf{q}})}
-
-        Given that eigenvectors are normalised and orthogonal, an identity can be employed:
-
-        .. math::
-
-          \\frac{d}{d\\lambda}E^{\\prime}E = 0
-
-        So terms involving the first derivative of the eigenvector matrix can be set to zero, resulting in:
-
-        .. math::
-
-          \\frac{d\\omega_{\\mathbf{q}\\nu}}{d\\mathbf{q}} = \\frac{1}{2\\omega_{\\mathbf{q}\\nu}}{(E^{-1}\\frac{dD}{d\\mathbf{q}}E)}
-
-        :math:`\\frac{dD}{d\\mathbf{q}}` can be obtained by differentiating the Fourier equation above:
-
-        .. math::
-
-          \\frac{dD_{\\alpha {\\alpha}^\\prime}^{\\kappa {\\kappa}^\\prime}}{d\\mathbf{q}} =
-          \\frac{-i \\mathbf{R}_l}{\\sqrt{M_\\kappa M_{\\kappa ^\\prime}}}
-          \\sum_{l}\\Phi_{\\alpha\\alpha^\\prime}^{\\kappa\\kappa^\\prime}\\exp\\left(-i\\mathbf{q}\\cdot \\mathbf{R}_l\\right)
-
-        .. [3] J. R. Yates, X. Wang, D. Vanderbilt and I. Souza, Phys. Rev. B, 2007, 75, 195121
-        """
-        qpts, freqs, weights, evecs, grads = self._calculate_phonons_at_qpts(
-            qpts, weights, asr, dipole, dipole_parameter, splitting,
-            insert_gamma, reduce_qpts, use_c, n_threads,
-            return_mode_gradients, return_eigenvectors=True)
-        qpt_ph_modes = QpointPhononModes(
-            self.crystal, qpts, freqs, evecs, weights=weights)
-        if return_mode_gradients:
-            return qpt_ph_modes, grads
-        else:
-            return qpt_ph_modes
-
-    def calculate_qpoint_frequencies(
-            self,
-            qpts: np.ndarray,
-            weights: Optional[np.ndarray] = None,
-            asr: Optional[Literal['realspace', 'reciprocal']] = None,
-            dipole: bool = True,
-            dipole_parameter: float = 1.0,
-            splitting: bool = True,
-            insert_gamma: bool = False,
-            reduce_qpts: bool = True,
-            use_c: Optional[bool] = None,
-            n_threads: Optional[int] = None,
-            return_mode_gradients: bool = False,
-            ) -> Union[QpointFrequencies,
-                       Tuple[QpointFrequencies, Quantity]]:
-        """
-        Calculate phonon frequencies (without eigenvectors) at specified
-        q-points. See ForceConstants.calculate_qpoint_phonon_modes for
-        argument and algorithm details
-        """
-        qpts, freqs, weights, _, grads = self._calculate_phonons_at_qpts(
-            qpts, weights, asr, dipole, dipole_parameter, splitting,
-            insert_gamma, reduce_qpts, use_c, n_threads,
-            return_mode_gradients, return_eigenvectors=False)
-        qpt_freqs = QpointFrequencies(
-            self.crystal, qpts, freqs, weights=weights)
-        if return_mode_gradients:
-            return qpt_freqs, grads
-        else:
-            return qpt_freqs
-
-    def _calculate_phonons_at_qpts(
-            self,
-            qpts: np.ndarray,
-            weights: Optional[np.ndarray],
-            asr: Optional[Literal['realspace', 'reciprocal']],
-            dipole: bool,
-            dipole_parameter: float,
-            splitting: bool,
-            insert_gamma: bool,
-            reduce_qpts: bool,
-            use_c: Optional[bool],
-            n_threads: Optional[int],
-            return_mode_gradients: bool,
-            return_eigenvectors: bool) -> Tuple[
-                np.ndarray, Quantity, Optional[np.ndarray],
-                Optional[np.ndarray], Optional[Quantity]]:
-        """
-        Calculates phonon frequencies, and optionally eigenvectors and
-        phonon frequency gradients. See calculate_qpoint_phonon_modes
-        for argument details
-
-        Returns
-        -------
-        qpts
-            Shape (n_qpts, 3) float ndarray. The calculated q-points,
-            note that this may not be the same as the input q-points
-            if splitting and insert_gamma=True and there are gamma
-            points
-        frequencies
-            Shape (n_qpts, 3*n_atoms) float Quantity in energy units,
-            the phonon frequencies. n_qpts may not be the same as the
-            number of input q-points, if splitting and
-            insert_gamma=True and there are gamma points
-        weights
-            Shape (n_qpts,) float ndarray. The weight of each q-point
-        eigenvectors
-            Shape (n_qpts, 3*n_atoms, n_atoms, 3) complex ndarray
-        gradients
-            Shape (n_qpts, 3*n_atoms, 3) float Quantity in
-            energy*length units. The phonon mode gradients
-        """
-        asr_opts = (None, 'realspace', 'reciprocal')
-        if asr not in asr_opts:
-            raise ValueError(f'Invalid value for asr, got {asr}, '
-                             f'should be one of {asr_opts}')
-        # Check weights is of appropriate type and shape, to avoid doing all
-        # the interpolation only for it to fail creating QpointPhononModes
-        _check_constructor_inputs(
-            [weights], [[np.ndarray, type(None)]], [(len(qpts),)], ['weights'])
-
-        # Set default splitting params
-        if self.born is None or self.dielectric is None:
-            dipole = False
-        if not dipole:
-            splitting = False
-
-        if splitting and insert_gamma:
-            # Duplicate gamma points where there is splitting
-            gamma_i = np.where(is_gamma(qpts))[0]
-            split_gamma = gamma_i[np.where(
-                np.logical_and(gamma_i > 0, gamma_i < len(qpts) - 1))]
-            qpts = np.insert(qpts, split_gamma, qpts[split_gamma], axis=0)
-            # It doesn't necessarily make sense to use both weights
-            # (usually used for DOS) and splitting (usually used for
-            # bandstructures) but we need to handle this case anyway
-            # Where 1 q-point splits into 2, half the weight for each
-            if weights is not None:
-                # Don't change original array
-                weights = np.copy(weights)
-                weights[split_gamma] = weights[split_gamma]/2
-                weights = np.insert(weights, split_gamma,
-                                    weights[split_gamma])
-
-        if reduce_qpts:
-            norm_qpts = qpts - np.rint(qpts)
-            # Ensure gamma points are exactly zero, otherwise you may
-            # have a case where small fp differences mean np.unique
-            # doesn't reduce them, yet they're all classified as gamma
-            # points. This causes indexing errors later when calculating
-            # q-directions as there are then points in reduced_qpts
-            # whose index isn't in qpts_i
-            gamma_i = np.where(is_gamma(qpts))[0]
-            n_gamma = len(gamma_i)
-            norm_qpts[gamma_i] = 0.
-            reduced_qpts, qpts_i = np.unique(norm_qpts, return_inverse=True,
-                                             axis=0)
-            qpts_i = qpts_i.flatten()
-            
-            n_rqpts = len(reduced_qpts)
-            # Special handling of gamma points - don't reduce gamma
-            # points if LO-TO splitting
-            if splitting and n_gamma > 1:
-                # Replace any gamma points and their indices with new
-                # gamma points appended onto the reduced q-point array,
-                # so each gamma can have its own splitting
-                qpts_i[gamma_i[1:]] = range(n_rqpts, n_rqpts + n_gamma - 1)
-                reduced_qpts = np.append(reduced_qpts,
-                                         np.tile(np.array([0., 0., 0., ]),
-                                                 (n_gamma - 1, 1)),
-                                         axis=0)
-                n_rqpts = len(reduced_qpts)
-        else:
-            reduced_qpts = np.asarray(qpts, dtype=np.float64)
-            qpts_i = np.arange(0, len(qpts), dtype=np.int32)
-            n_rqpts = len(qpts)
-
-        # Get q-directions for non-analytical corrections
-        if splitting:
-            split_idx = np.where(is_gamma(reduced_qpts))[0]
-            q_dirs = self._get_q_dirs(qpts, qpts_i, split_idx)
-        else:
-            split_idx = np.array([])
-            q_dirs = np.array([])
-
-        n_sc_shells = 2  # How many supercells out to search for atom images
-        # Construct list of supercell atom images
-        if self._is_outdated('_sc_image_i', self.crystal._cell_vectors,
-                             self.crystal.atom_r, self.sc_matrix,
-                             self.cell_origins, self.n_cells_in_sc):
-            self._calculate_supercell_images(n_sc_shells)
-
-        # Get a list of all the unique supercell image origins and cell
-        # origins in x, y, z and how to rebuild them to minimise
-        # expensive phase calculations later
-        sc_image_r = get_all_origins(
-            np.repeat(n_sc_shells, 3) + 1, min_xyz=-np.repeat(n_sc_shells, 3))
-        sc_origins = np.einsum('ij,jk->ik', sc_image_r,
-                               self.sc_matrix).astype(np.int32)
-        unique_sc_origins = [[] for i in range(3)]
-        unique_sc_i = np.zeros((len(sc_origins), 3), dtype=np.int32)
-        unique_cell_origins = [[] for i in range(3)]
-        unique_cell_i = np.zeros((len(self.cell_origins), 3), dtype=np.int32)
-        for i in range(3):
-            unique_sc_origins[i], unique_sc_i[:, i] = np.unique(
-                sc_origins[:, i], return_inverse=True)
-            unique_cell_origins[i], unique_cell_i[:, i] = np.unique(
-                self.cell_origins[:, i], return_inverse=True)
-        if return_mode_gradients:
-            cell_origins_cart = np.einsum('ij,jk->ik', self.cell_origins,
-                                          self.crystal._cell_vectors)
-            # Append 0. to sc_origins_cart, so that when being indexed by
-            # sc_image_i to get the origins for each image, an index of -1
-            # and a value of 0. can be used
-            sc_origins_cart = np.zeros((len(sc_origins) + 1, 3))
-            sc_origins_cart[:len(sc_origins)] = np.einsum(
-                'ij,jk->ik', sc_origins, self.crystal._cell_vectors)
-            ax = np.newaxis
-            all_origins_cart = (sc_origins_cart[self._sc_image_i]
-                                + cell_origins_cart[:, ax, ax, ax, :])
-        else:
-            all_origins_cart = np.zeros((0, 3), dtype=np.float64)
-
-        # Precompute dynamical matrix mass weighting
-        atom_mass = self.crystal._atom_mass
-        n_atoms = self.crystal.n_atoms
-        masses = np.tile(np.repeat(atom_mass, 3), (3*n_atoms, 1))
-        dyn_mat_weighting = 1/np.sqrt(masses*np.transpose(masses))
-
-        # Initialise dipole correction calc to FC matrix if required
-        if dipole and self._is_outdated(
-                '_dipole_init_data', self.crystal._cell_vectors,
-                self.crystal.atom_r, self._born, self._dielectric,
-                dipole_parameter):
-            self._dipole_init_data = self._dipole_correction_init(
-                self.crystal, self._born, self._dielectric, dipole_parameter)
-
-        force_constants = self._force_constants
-        if asr == 'realspace':
-            if self._is_outdated('_force_constants_asr',
-                                 self._force_constants, self.sc_matrix,
-                                 self.cell_origins, self.n_cells_in_sc,
-                                 self.crystal.n_atoms):
-                self._force_constants_asr = self._enforce_realspace_asr()
-            force_constants = self._force_constants_asr
-        # Precompute fc matrix weighted by number of supercell atom
-        # images (for cumulant method)
-        n_sc_images_repeat = (
-            self._n_sc_images.repeat(3, axis=2).repeat(3, axis=1))
-        fc_img_weighted = np.divide(
-            force_constants, n_sc_images_repeat, where=n_sc_images_repeat != 0)
-
-        recip_asr_correction = np.array([], dtype=np.complex128)
-        if asr == 'reciprocal':
-            # Calculate dyn mat at gamma for reciprocal ASR
-            q_gamma = np.array([0., 0., 0.])
-            dyn_mat_gamma, _ = self._calculate_dyn_mat(
-                q_gamma, fc_img_weighted, unique_sc_origins,
-                unique_sc_i, unique_cell_origins, unique_cell_i,
-                all_origins_cart)
-            if dipole:
-                dyn_mat_gamma += self._calculate_dipole_correction(
-                    q_gamma, self.crystal, self._born, self._dielectric,
-                    self._dipole_init_data)
-            recip_asr_correction = self._enforce_reciprocal_asr(dyn_mat_gamma)
-
-
-        rfreqs = np.zeros((n_rqpts, 3*n_atoms))
-        if return_eigenvectors:
-            n_reigenvecs = n_rqpts
-        else:
-            # Create dummy zero-length eigenvectors so this can be
-            # detected in C and eigenvectors won't be saved
-            n_reigenvecs = 0
-
-        if return_mode_gradients:
-            rmode_gradients = np.zeros((n_rqpts, 3*n_atoms, 3),
-                                       dtype=np.complex128)
-        else:
-            rmode_gradients = np.zeros((0, 3*n_atoms, 3), dtype=np.complex128)
-
-        euphonic_path = os.path.dirname(euphonic.__file__)
-        cext_err_msg = (f'Euphonic\'s C extension couldn\'t be imported '
-                        f'from {euphonic_path}, it may not have been '
-                        f'installed.')
-
-        # Check if C extension can be used and handle appropriately
-        use_c_status = False
-        if use_c is not False:
-            try:
-                import euphonic._euphonic as euphonic_c
-                use_c_status = True
-            except ImportError:
-                if use_c is None:
-                    warnings.warn((
-                        cext_err_msg
-                        + ' Falling back to pure Python calculation.'),
-                        stacklevel=3)
-                else:
-                    raise ImportCError(cext_err_msg)
-
-        if use_c_status is True:
-            if n_threads is None:
-                n_threads_env = os.environ.get(
-                    'EUPHONIC_NUM_THREADS', '')  # type: str
-                if n_threads_env:
-                    n_threads = int(n_threads_env)
-                else:
-                    n_threads = cpu_count()
-            # Temporary fix to https://github.com/pace-neutrons/Euphonic/issues/191
-            # Append extra elements to avoid overflow in eigenvectors
-            # in openblas
-            if n_reigenvecs > 0:
-                n_reigenvecs += 1
-            reigenvecs = np.zeros((n_reigenvecs, 3*n_atoms, n_atoms, 3),
-                                  dtype=np.complex128)
-            cell_vectors = self.crystal._cell_vectors.astype(np.float64)
-            recip_vectors = self.crystal.reciprocal_cell().to(
-                '1/bohr').magnitude
-            # Get conj transpose - the dynamical matrix calculated in C
-            # is passed to Fortran libs so uses Fortran ordering, make
-            # sure reciprocal correction matches this. This only makes
-            # a very small difference and can only be seen in near-flat
-            # mode gradients, but should be corrected anyway
-            recip_asr_correction =  recip_asr_correction.conj().T
-            # Make sure all arrays are contiguous before calling C
-            (cell_vectors, recip_vectors, reduced_qpts, split_idx, q_dirs,
-             fc_img_weighted, sc_origins, recip_asr_correction,
-             dyn_mat_weighting, rfreqs, reigenvecs, rmode_gradients,
-             all_origins_cart) = _ensure_contiguous_args(
-                 cell_vectors, recip_vectors, reduced_qpts, split_idx,
-                 q_dirs, fc_img_weighted, sc_origins, recip_asr_correction,
-                 dyn_mat_weighting, rfreqs, reigenvecs, rmode_gradients,
-                 all_origins_cart)
-            attrs = ['_n_sc_images', '_sc_image_i', 'cell_origins']
-            _ensure_contiguous_attrs(self, attrs, dtype=np.int32)
-            _ensure_contiguous_attrs(self.crystal, ['atom_r'],
-                                     dtype=np.float64)
-            if dipole:
-                _ensure_contiguous_attrs(self, ['_born', '_dielectric'],
-                                         dtype=np.float64)
-                dipole_keys = ['H_ab', 'cells', 'gvec_phases', 'gvecs_cart',
-                               'dipole_q0']
-                self._dipole_init_data.update(zip(
-                    dipole_keys,
-                    _ensure_contiguous_args(*[self._dipole_init_data[key]
-                                              for key in dipole_keys])))
-            with threadpool_limits(limits=1):
-                euphonic_c.calculate_phonons(
-                    self, cell_vectors, recip_vectors, reduced_qpts,
-                    split_idx, q_dirs, fc_img_weighted, sc_origins,
-                    recip_asr_correction, dyn_mat_weighting, dipole,
-                    splitting, rfreqs, reigenvecs, rmode_gradients,
-                    all_origins_cart, n_threads)
-        else:
-            reigenvecs = np.zeros((n_reigenvecs, 3*n_atoms, n_atoms, 3),
-                                  dtype=np.complex128)
-            for qi, qpt in enumerate(reduced_qpts):
-                q_dir = None
-                if splitting and is_gamma(qpt):
-                    q_dir_idx = np.where(split_idx == qi)[0][0]
-                    q_dir = q_dirs[q_dir_idx]
-                rfreqs[qi], evecs, grads = self._calculate_phonons_at_q(
-                    qpt, fc_img_weighted, unique_sc_origins, unique_sc_i,
-                    unique_cell_origins, unique_cell_i, all_origins_cart,
-                    dyn_mat_weighting, recip_asr_correction, dipole, q_dir)
-                if return_eigenvectors:
-                    reigenvecs[qi] = evecs
-                if return_mode_gradients:
-                    rmode_gradients[qi] = grads
-
-        freqs = rfreqs[qpts_i]*ureg('hartree').to('meV')
-        if return_eigenvectors:
-            eigenvectors = reigenvecs[qpts_i]
-        else:
-            eigenvectors = None
-
-        mode_gradients = None
-        if return_mode_gradients:
-            max_real = np.amax(np.absolute(rmode_gradients.real))
-            idx = np.where(
-                rmode_gradients.imag/max_real > 1e-10)
-            n_idx = len(idx[0])
-            if n_idx > 0:
-                n_print = n_idx if n_idx < 5 else 5
-                warnings.warn(
-                    f'Unexpected values for mode gradients at {n_idx}/{rmode_gradients.size} '
-                    f'indices {[x for x in zip(*idx)][:n_print]}..., '
-                    f'expected near-zero imaginary elements, got values of '
-                    f'{rmode_gradients.imag[idx][:n_print]}..., compared to a '
-                    f'max real value of {max_real}. Data may have been lost '
-                    f'when casting to real mode gradients',
-                    stacklevel=3)
-            mode_gradients = rmode_gradients.real[qpts_i]*ureg(
-                'hartree*bohr').to(
-                    f'meV*{str(self.crystal.cell_vectors.units)}')
-        return qpts, freqs, weights, eigenvectors, mode_gradients
-
-    def _calculate_phonons_at_q(
-            self,
-            qpt: np.ndarray,
-            fc_img_weighted: np.ndarray,
-            unique_sc_origins: Sequence[Sequence[int]],
-            unique_sc_i: np.ndarray,
-            unique_cell_origins: Sequence[Sequence[int]],
-            unique_cell_i: np.ndarray,
-            all_origins_cart: np.ndarray,
-            dyn_mat_weighting: np.ndarray,
-            recip_asr_correction: np.ndarray,
-            dipole: bool,
-            q_dir: Optional[np.ndarray] = None
-            ) -> Tuple[np.ndarray, np.ndarray, Union[np.ndarray, None]]:
-        """
-        Given a q-point and some precalculated q-independent values,
-        calculate and diagonalise the dynamical matrix and return the
-        frequencies, eigenvectors and optionally mode gradients
-
-        Parameters
-        ----------
-        qpt
-            Shape (3,) float ndarray. The q-point to calculate
-        fc_img_weighted
-            Shape (n_cells_in_sc, 3*n_atoms, 3*n_atoms) float ndarray.
-            The force constants matrix weighted by the number of
-            supercell atom images for each ij displacement
-        unique_sc_origins
-            A list containing 3 lists of the unique supercell image
-            offsets in each direction. The supercell offset is
-            calculated by multiplying the supercell matrix by the
-            supercell image indices (obtained by _get_all_origins()). A
-            list of lists rather than a Numpy array is used as the 3
-            lists are independent and their size is not known
-            beforehand
-        unique_sc_i
-            Shape ((2*n_sc_shells + 1)**3, 3) int ndarray, where
-            n_sc_shells is how many supercells out to go to search for
-            atom images. The indices needed to reconstruct sc_origins
-            from the unique values in unique_sc_origins
-        unique_cell_origins
-            A list containing 3 lists of the unique cell origins in
-            each direction. A list of lists rather than a Numpy array
-            is used as the 3 lists are independent and their size is
-            not known beforehand
-        unique_cell_i
-            Shape (n_cells_in_sc, 3) int ndarray. The indices needed to
-            reconstruct cell_origins from the unique values in
-            unique_cell_origins
-        all_origins_cart
-            Shape (n_cells_in_sc, n_atoms, n_atoms, n_images, 3) or
-            (0, 3) float ndarray. The Cartesian coordinate of each atom
-            in each supercell image. Is only used if calculating
-            dynamical matrix gradients
-        dyn_mat_weighting
-            Shape (3*n_atoms, 3*n_atoms) float ndarray. The dynamical
-            matrix mass weighting
-        recip_asr_correction
-            Shape (3*n_atoms, 3*n_atoms) or (0,) complex ndarray. Is
-            only used if the reciprocal ASR was requested
-        dipole
-            Whether to apply the dipole correction
-        q_dir
-            Shape (3,) float ndarray, the q-direction to use in LO-TO
-            splitting, if applicable
-
-        Returns
-        -------
-        frequencies
-            Shape (3*n_atoms) float ndarray. The phonon frequencies
-        eigenvectors
-            Shape (3*n_atoms, n_atoms, 3) complex ndarray. The
-            eigenvectors
-        mode_gradients
-            Shape (3*n_atoms, 3) complex ndarray. The gradient for
-            each mode
-        """
-        n_atoms = self.crystal.n_atoms
-
-        dyn_mat, dmat_grad = self._calculate_dyn_mat(
-            qpt, fc_img_weighted, unique_sc_origins, unique_sc_i,
-            unique_cell_origins, unique_cell_i, all_origins_cart)
-
-        if dipole:
-            dipole_corr = self._calculate_dipole_correction(
-                qpt, self.crystal, self._born, self._dielectric,
-                self._dipole_init_data)
-            dyn_mat += dipole_corr
-
-        if len(recip_asr_correction) > 0:
-            dyn_mat += recip_asr_correction
-
-        # Calculate LO-TO splitting by calculating non-analytic
-        # correction to dynamical matrix
-        if q_dir is not None:
-            dyn_mat += self._calculate_gamma_correction(q_dir)
-
-        # Mass weight dynamical matrix
-        dyn_mat *= dyn_mat_weighting
-
-        evals, evecs = np.linalg.eigh(dyn_mat, UPLO='U')
-        evecs = np.reshape(np.transpose(evecs),
-                           (3*n_atoms, n_atoms, 3))
-        # Set imaginary frequencies to negative
-        imag_freqs = np.where(evals < 0)
-        evals = np.sqrt(np.abs(evals))
-        evals[imag_freqs] *= -1
-
-        if dmat_grad is not None:
-            n_modes = len(evecs)
-            dmat_grad *= dyn_mat_weighting[..., np.newaxis]
-            evecs_sq_view = np.reshape(evecs, (n_modes, n_modes))
-            mode_grads_xyz = np.einsum(
-                'ij,ik,jkl->il', np.conj(evecs_sq_view),
-                                 evecs_sq_view,
-                                 dmat_grad)/(2*evals[:, np.newaxis])
-            return evals, evecs, mode_grads_xyz
-        else:
-            return evals, evecs, None
-
-    def _calculate_dyn_mat(
-            self,
-            qpt: np.ndarray,
-            fc_img_weighted: np.ndarray,
-            unique_sc_origins: Sequence[Sequence[int]],
-            unique_sc_i: np.ndarray,
-            unique_cell_origins: Sequence[Sequence[int]],
-            unique_cell_i: np.ndarray,
-            all_origins_cart: np.ndarray) -> Tuple[np.ndarray,
-                                                   Optional[np.ndarray]]:
-        """
-        Calculate the non mass weighted dynamical matrix at a specified
-        q-point from the image weighted force constants matrix and the
-        indices specifying the periodic images. See eq. 1.5:
-        http://www.tcm.phy.cam.ac.uk/castep/Phonons_Guide/Castep_Phonons.html
-
-        Parameters
-        ----------
-        qpt
-            Shape (3,) float ndarray. The q-point to calculate
-        fc_img_weighted
-            Shape (n_cells_in_sc, 3*n_atoms, 3*n_atoms) float ndarray.
-            The force constants matrix weighted by the number of
-            supercell atom images for each ij displacement
-        unique_sc_origins
-            A list containing 3 lists of the unique supercell image
-            offsets in each direction. The supercell offset is
-            calculated by multiplying the supercell matrix by the
-            supercell image indices (obtained by _get_all_origins()). A
-            list of lists rather than a Numpy array is used as the 3
-            lists are independent and their size is not known
-            beforehand
-        unique_sc_i
-            Shape ((2*n_sc_shells + 1)**3, 3) int ndarray, where
-            n_sc_shells is how many supercells out to go to search for
-            atom images. The indices needed to reconstruct sc_origins
-            from the unique values in unique_sc_origins
-        unique_cell_origins
-            A list containing 3 lists of the unique cell origins in
-            each direction. A list of lists rather than a Numpy array
-            is used as the 3 lists are independent and their size is
-            not known beforehand
-        unique_cell_i
-            Shape (n_cells_in_sc, 3) int ndarray. The indices needed to
-            reconstruct cell_origins from the unique values in
-            unique_cell_origins
-        all_origins_cart
-            Shape (n_cells_in_sc, n_atoms, n_atoms, n_images, 3) or
-            (0, 3) float ndarray. The Cartesian coordinate of each atom
-            in each supercell image. Is only used if calculating
-            dynamical matrix gradients
-
-        Returns
-        -------
-        dyn_mat
-            Shape (3*n_atoms, 3*n_atoms) complex ndarray. The non mass
-            weighted dynamical matrix at q
-        dyn_mat_grad
-            Shape (3*n_atoms, 3*n_atoms, 3) complex ndarray. The dynamical
-            matrix gradient in each Cartesian direction
-        """
-        sc_image_i = self._sc_image_i
-
-        # Cumulant method: for each ij ion-ion displacement sum phases
-        # for all possible supercell images, then multiply by the cell
-        # phases to account for j ions in different cells. Then multiply
-        # by the image weighted fc matrix for each 3 x 3 ij displacement
-
-        # Make sc_phases 1 longer than necessary, so when summing phases
-        # for supercell images if there is no image, an index of -1 and
-        # hence phase of zero can be used
-        sc_phases = np.zeros(len(unique_sc_i) + 1, dtype=np.complex128)
-        sc_phases[:-1], cell_phases = self._calculate_phases(
-            qpt, unique_sc_origins, unique_sc_i, unique_cell_origins,
-            unique_cell_i)
-        sc_phase_sum = np.sum(sc_phases[sc_image_i],
-                              axis=3)
-
-        ax = np.newaxis
-        ij_phases = cell_phases[:, ax, ax]*sc_phase_sum
-        full_dyn_mat = fc_img_weighted*(
-            ij_phases.repeat(3, axis=2).repeat(3, axis=1))
-        dyn_mat = np.sum(full_dyn_mat, axis=0)
-        if len(all_origins_cart) > 0:
-            all_phases = np.einsum('ijkl,i->ijkl',
-                                   sc_phases[sc_image_i], cell_phases)
-            r_vec_sum = 1j*np.einsum('ijkl,ijklm->ijkm',
-                                     all_phases, all_origins_cart)
-            dmat_gradient = fc_img_weighted[..., ax]*(r_vec_sum.repeat(
-                3, axis=2).repeat(3, axis=1))
-            dmat_gradient = np.sum(dmat_gradient, axis=0)
-            return dyn_mat, dmat_gradient
-        else:
-            return dyn_mat, None
-
-    @staticmethod
-    def _dipole_correction_init(crystal: Crystal,
-                                born: np.ndarray,
-                                dielectric: np.ndarray,
-                                dipole_parameter: float = 1.0
-                                ) -> Dict[str, Union[float, np.ndarray]]:
-        """
-        Calculate the q-independent parts of the long range correction
-        to the dynamical matrix for efficiency. The method used is based
-        on the Ewald sum, see eqs 72-74 from Gonze and Lee PRB 55, 10355
-        (1997)
-
-        Parameters
-        ----------
-        crystal
-            Lattice and atom information
-        born
-            Shape (n_atoms, 3, 3) float Quantity in charge units. The
-            Born charges for each atom.
-        dielectric
-            Shape (3, 3) float Quantity in charge**2/(length*energy)
-            units. The dielectric permittivity tensor.
-        dipole_parameter
-            Changes the cutoff in real/reciprocal space for the dipole
-            Ewald sum. A higher value uses more reciprocal terms.
-
-        Returns
-        -------
-        dipole_init_data
-            A dictionary with the following keys/values:
-            - 'dipole_parameter': float
-                The input dipole parameter
-            - 'lambda': float
-                Scaling factor for the real space sums, derived from
-                dipole_parameter
-            - 'H_ab': (n_cells, n_elems, 3, 3) float ndarray
-                Where n_cells is the number of unit cells in the real
-                space sum, and n_elems is the number of elements in the
-                upper triangular of a (3*n_atoms, 3*n_atoms) matrix.
-            - 'cells': (n_cells, 3) float ndarray
-                The origin coordinates of cells used in the real space
-                sum
-            - 'gvecs_cart': (n_vecs, 3) float ndarray
-                The G vectors used in the reciprocal space sum in
-                Cartesian
-            - 'gvec_phases': (n_vecs, n_atoms) complex ndarray
-                e^i(G.r) for each G vector and atom in the unit cell
-            - 'dipole_q0': (3*n_atoms, 3*n_atoms) float ndarray
-                The dipole correction to the dynamical matrix at
-                q=0
-        """
-        cell_vectors = crystal._cell_vectors
-        recip = crystal.reciprocal_cell().to('1/bohr').magnitude
-        n_atoms = crystal.n_atoms
-        atom_r = crystal.atom_r
-        inv_dielectric = np.linalg.inv(dielectric)
-        sqrt_pi = math.sqrt(math.pi)
-
-        # Make guess for balance between real/recip terms
-        abc_mag = np.linalg.norm(cell_vectors, axis=1)
-        mean_abc_mag = np.prod(abc_mag)**(1.0/3)
-        # Using upper_lambda varname as lambda is a reserved keyword
-        upper_lambda = (sqrt_pi/mean_abc_mag*n_atoms**(1.0/6)
-                        *np.linalg.det(dielectric)**(1.0/6))
-        upper_lambda *= dipole_parameter
-        lambda_2 = upper_lambda**2
-
-        # Set limits and tolerances
-        max_shells = 50
-        frac_tol = 1e-15
-
-        # Calculate q=0 real space term
-        real_q0 = np.zeros((n_atoms, n_atoms, 3, 3))
-        # No. of independent i, j ion entries (to use i, j symmetry to
-        # minimise size of stored H_ab)
-        n_elems = np.sum(range(1, n_atoms + 1))
-        H_ab = np.zeros((0, n_elems, 3, 3))
-        cells = np.zeros((0, 3))
-        atom_r_cart = np.einsum('ij,jk->ik', atom_r, cell_vectors)
-        atom_r_e = np.einsum('ij,jk->ik', atom_r_cart, inv_dielectric)
-        for n in range(max_shells):
-            cells_tmp = ForceConstants._get_shell_origins(n)
-            cells_cart = np.einsum('ij,jk->ik', cells_tmp, cell_vectors)
-            cells_e = np.einsum(
-                'ij,jk->ik', cells_cart, inv_dielectric)
-            H_ab_tmp = np.zeros((len(cells_tmp), n_elems, 3, 3))
-            for i in range(n_atoms):
-                idx = np.sum(range(n_atoms - i, n_atoms), dtype=np.int32)
-                for j in range(i, n_atoms):
-                    if n == 0 and i == j:
-                        continue
-                    rij_cart = atom_r_cart[i] - atom_r_cart[j]
-                    rij_e = atom_r_e[i] - atom_r_e[j]
-                    diffs = rij_cart - cells_cart
-                    deltas = rij_e - cells_e
-                    norms_2 = np.einsum('ij,ij->i', deltas, diffs)*lambda_2
-                    norms = np.sqrt(norms_2)
-
-                    # Calculate H_ab
-                    exp_term = 2*np.exp(-norms_2)/(sqrt_pi*norms_2)
-                    erfc_term = erfc(norms)/(norms*norms_2)
-                    f1 = lambda_2*(3*erfc_term/norms_2 + exp_term*(3/norms_2 + 2))
-                    f2 = erfc_term + exp_term
-                    deltas_ab = np.einsum('ij,ik->ijk', deltas, deltas)
-                    H_ab_tmp[:, idx + j] = (
-                        np.einsum('i,ijk->ijk', f1, deltas_ab)
-                        - np.einsum('i,jk->ijk', f2, inv_dielectric))
-            # End series when current terms are less than the fractional
-            # tolerance multiplied by the term for the cell at R=0
-            if n == 0:
-                r0_max = np.amax(np.abs(H_ab_tmp))
-            if np.amax(np.abs(H_ab_tmp)) > frac_tol*r0_max:
-                H_ab = np.concatenate((H_ab, H_ab_tmp))
-                cells = np.concatenate((cells, cells_tmp))
-            else:
-                break
-        # Use compact H_ab to fill in upper triangular of realspace term
-        real_q0[np.triu_indices(n_atoms)] = np.sum(H_ab, axis=0)
-        real_q0 *= upper_lambda**3/math.sqrt(np.linalg.det(dielectric))
-
-        # Calculate the q=0 reciprocal term
-        recip_q0 = np.zeros((n_atoms, n_atoms, 3, 3), dtype=np.complex128)
-        # Add G = 0 vectors to list, for later calculations when q !=0,
-        # but don't calculate for q=0
-        gvecs_cart = np.array([[0., 0., 0.]])
-        gvec_phases = np.tile([1. + 0.j], (1, n_atoms))
-        for n in range(1, max_shells):
-            gvecs = ForceConstants._get_shell_origins(n)
-            gvecs_cart_tmp = np.einsum('ij,jk->ik', gvecs, recip)
-            gvec_dot_r = np.einsum('ij,kj->ik', gvecs, atom_r)
-            gvec_phases_tmp = np.exp(2j*math.pi*gvec_dot_r)
-            gvecs_ab = np.einsum('ij,ik->ijk', gvecs_cart_tmp, gvecs_cart_tmp)
-            k_len_2 = np.einsum(
-                'ijk,jk->i', gvecs_ab, dielectric)/(4*lambda_2)
-            recip_exp = np.exp(-k_len_2)/k_len_2
-            recip_q0_tmp = np.zeros((n_atoms, n_atoms, 3, 3),
-                                    dtype=np.complex128)
-            for i in range(n_atoms):
-                for j in range(i, n_atoms):
-                    phase_exp = gvec_phases_tmp[:, i]/gvec_phases_tmp[:, j]
-                    recip_q0_tmp[i, j] = np.einsum(
-                        'ijk,i,i->jk', gvecs_ab, phase_exp, recip_exp)
-            # End series when current terms are less than the fractional
-            # tolerance multiplied by the max term for the first shell
-            if n == 1:
-                first_shell_max = np.amax(np.abs(recip_q0_tmp))
-            if np.amax(np.abs(recip_q0_tmp)) > frac_tol*first_shell_max:
-                gvecs_cart = np.concatenate((gvecs_cart, gvecs_cart_tmp))
-                gvec_phases = np.concatenate((gvec_phases, gvec_phases_tmp))
-                recip_q0 += recip_q0_tmp
-            else:
-                break
-        vol = crystal.cell_volume().to('bohr^3').magnitude
-        recip_q0 *= math.pi/(vol*lambda_2)
-
-        # Fill in remaining entries by symmetry
-        for i in range(1, n_atoms):
-            for j in range(i):
-                real_q0[i, j] = np.conj(real_q0[j, i])
-                recip_q0[i, j] = np.conj(recip_q0[j, i])
-
-        # Calculate the q=0 correction, to be subtracted from the
-        # corrected diagonal at each q
-        dipole_q0 = np.zeros((n_atoms, 3, 3), dtype=np.complex128)
-        for i in range(n_atoms):
-            for j in range(n_atoms):
-                for a in range(3):
-                    for b in range(3):
-                        dipole_q0[i, a, b] += np.sum(
-                            np.einsum('i,j', born[i, a, :], born[j, b, :])
-                            *(recip_q0[i, j] - real_q0[i, j]))
-            # Symmetrise 3x3
-            dipole_q0[i] = 0.5*(dipole_q0[i] + np.transpose(dipole_q0[i]))
-
-        dipole_init_data = {}
-        dipole_init_data['dipole_parameter'] = dipole_parameter
-        dipole_init_data['lambda'] = upper_lambda
-        dipole_init_data['H_ab'] = H_ab
-        dipole_init_data['cells'] = cells
-        dipole_init_data['gvecs_cart'] = gvecs_cart
-        dipole_init_data['gvec_phases'] = gvec_phases
-        dipole_init_data['dipole_q0'] = dipole_q0
-        return dipole_init_data
-
-    @staticmethod
-    def _calculate_dipole_correction(
-            q: np.ndarray, crystal: Crystal, born: np.ndarray,
-            dielectric: np.ndarray,
-            dipole_init_data: Dict[str, Union[float, np.ndarray]]
-            ) -> np.ndarray:
-        """
-        Calculate the long range correction to the dynamical matrix
-        using the Ewald sum, see eqs 72-74 from Gonze and Lee PRB 55,
-        10355 (1997)
-
-        Parameters
-        ----------
-        q
-            Shape (3,) float ndarray. The q-point to calculate the
-            correction for.
-        crystal
-            Lattice and atom information
-        born
-            Shape (n_atoms, 3, 3) float Quantity in charge units.
-            The Born charges for each atom.
-        dielectric
-            Shape (3, 3) float Quantity in charge**2/(length*energy)
-            units. The dielectric permittivity tensor.
-        dipole_init_data
-            This should be the same dictionary as output by
-            _dipole_correction_init. See the docstring for that
-            function for details of required keys and values.
-
-        Returns
-        -------
-        corr
-            Shape (3*n_atoms, 3*n_atoms) complex ndarray. The
-            correction to the dynamical matrix.
-        """
-        recip = crystal.reciprocal_cell().to('1/bohr').magnitude
-        n_atoms = crystal.n_atoms
-        atom_r = crystal.atom_r
-        upper_lambda = dipole_init_data['lambda']
-        lambda_2 = upper_lambda**2
-        H_ab = dipole_init_data['H_ab']
-        cells = dipole_init_data['cells']
-        gvec_phases = dipole_init_data['gvec_phases']
-        gvecs_cart = dipole_init_data['gvecs_cart']
-        dipole_q0 = dipole_init_data['dipole_q0']
-        q_norm = q - np.rint(q)  # Normalised q-pt
-
-        # Don't include G=0 vector if q=0
-        if is_gamma(q_norm):
-            gvec_phases = gvec_phases[1:]
-            gvecs_cart = gvecs_cart[1:]
-
-        # Calculate real space term
-        real_dipole = np.zeros((n_atoms, n_atoms, 3, 3), dtype=np.complex128)
-        # Calculate real space phase factor
-        q_dot_ra = np.einsum('i,ji->j', q_norm, cells)
-        real_phases = np.exp(2j*math.pi*q_dot_ra)
-        real_dipole_tmp = np.einsum('i,ijkl->jkl', real_phases, H_ab)
-        idx_u = np.triu_indices(n_atoms)
-        real_dipole[idx_u] = real_dipole_tmp
-        real_dipole *= upper_lambda**3/math.sqrt(np.linalg.det(dielectric))
-
-        # Calculate reciprocal term
-        recip_dipole = np.zeros((n_atoms, n_atoms, 3, 3), dtype=np.complex128)
-        # Calculate q-point phases
-        q_dot_r = np.einsum('i,ji->j', q_norm, atom_r)
-        q_phases = np.exp(2j*math.pi*q_dot_r)
-        q_cart = np.dot(q_norm, recip)
-        # Calculate k-vector symmetric matrix
-        kvecs = gvecs_cart + q_cart
-        kvecs_ab = np.einsum('ij,ik->ijk', kvecs, kvecs)
-        k_len_2 = np.einsum('ijk,jk->i', kvecs_ab, dielectric)/(4*lambda_2)
-        recip_exp = np.einsum('ijk,i->ijk', kvecs_ab, np.exp(-k_len_2)/k_len_2)
-        for i in range(n_atoms):
-                phase_exp = ((gvec_phases[:, i, None]*q_phases[i])
-                             /(gvec_phases[:, i:]*q_phases[i:]))
-                recip_dipole[i, i:] = np.einsum(
-                    'ikl,ij->jkl', recip_exp, phase_exp)
-        cell_volume = crystal.cell_volume().to('bohr^3').magnitude
-        recip_dipole *= math.pi/(cell_volume*lambda_2)
-
-        # Fill in remaining entries by symmetry
-        # Mask so we don't count diagonal twice
-        mask = np.tri(n_atoms, k=-1)[:, :, np.newaxis, np.newaxis]
-        real_dipole = real_dipole + mask*np.conj(
-            np.transpose(real_dipole, axes=[1, 0, 2, 3]))
-        recip_dipole = recip_dipole + mask*np.conj(
-            np.transpose(recip_dipole, axes=[1, 0, 2, 3]))
-
-        # Multiply by Born charges and subtract q=0 from diagonal
-        dipole = np.zeros((n_atoms, n_atoms, 3, 3), dtype=np.complex128)
-        dipole_tmp = recip_dipole - real_dipole
-        for i in range(n_atoms):
-            dipole[i] = np.einsum('ij,klm,kjm->kil',
-                                  born[i], born, dipole_tmp[i])
-            dipole[i, i] -= dipole_q0[i]
-
-        return np.reshape(np.transpose(dipole, axes=[0, 2, 1, 3]),
-                          (3*n_atoms, 3*n_atoms))
-
-    def _get_q_dirs(self, qpts: np.ndarray, qpts_i: np.ndarray,
-                   gamma_idx: np.ndarray) -> np.ndarray:
-        """
-        Get q-directions at gamma points
-
-        Parameters
-        ----------
-        qpts
-            Shape (n_qpts, 3) float ndarray. The q-points.
-        qpts_i
-            Shape (n_qpts,) int ndarray. Describes how to index
-            the 'reduced' q-points back into the full q-points
-            array
-        gamma_idx
-            Shape (n_gamma_points,) int ndarray. The indices
-            of gamma-points in the full q-points array
-
-        Returns
-        -------
-        q_dirs
-            Shape (n_gamma_points, 3 float ndarray. The q-direction
-            for splitting at each gamma point)
-        """
-        q_dirs = np.zeros((len(gamma_idx), 3))
-        if len(qpts) > 1:
-            for i, idx in enumerate(gamma_idx):
-                idx_in_qpts = np.where(qpts_i == idx)[0]
-                # If first q-point
-                if idx_in_qpts == 0:
-                    q_dirs[i] = qpts[1] - qpts[0]
-                # If last q-point
-                elif idx_in_qpts == (len(qpts) - 1):
-                    q_dirs[i] = qpts[-1] - qpts[-2]
-                else:
-                    # If splitting=True there should be an adjacent gamma
-                    # point. Calculate splitting in whichever direction
-                    # isn't gamma
-                    q_dirs[i] = qpts[idx_in_qpts + 1] - qpts[idx_in_qpts]
-                    if is_gamma(q_dirs[i]):
-                        q_dirs[i] = qpts[idx_in_qpts] - qpts[idx_in_qpts - 1]
-        return q_dirs
-
-    def _calculate_gamma_correction(self, q_dir: np.ndarray) -> np.ndarray:
-        """
-        Calculate non-analytic correction to the dynamical matrix at q=0
-        for a specified direction of approach. See Eq. 60 of X. Gonze
-        and C. Lee, PRB (1997) 55, 10355-10368.
-
-        Parameters
-        ----------
-        q_dir
-            Shape (3,) float ndarray. The direction along which q
-            approaches 0, in reciprocal fractional coordinates
-
-        Returns
-        -------
-        na_corr
-            Shape (3*n_atoms, 3*n_atoms) complex ndarray. The
-            correction to the dynamical matrix
-        """
-        n_atoms = self.crystal.n_atoms
-        born = self._born
-        dielectric = self._dielectric
-        na_corr = np.zeros((3*n_atoms, 3*n_atoms), dtype=np.complex128)
-
-        if is_gamma(q_dir):
-            return na_corr
-
-        recip_cell = self.crystal.reciprocal_cell().to('1/bohr').magnitude
-        q_dir_cart = np.einsum('ij,i->j', recip_cell, q_dir)
-
-        cell_volume = self.crystal.cell_volume().to('bohr^3').magnitude
-        denominator = np.einsum('ij,i,j', dielectric, q_dir_cart, q_dir_cart)
-        factor = 4*math.pi/(cell_volume*denominator)
-
-        q_born_sum = np.einsum('ijk,k->ij', born, q_dir_cart)
-        for i in range(n_atoms):
-            for j in range(n_atoms):
-                na_corr[3*i:3*(i+1), 3*j:3*(j+1)] = np.einsum(
-                    'i,j->ij', q_born_sum[i], q_born_sum[j])
-        na_corr *= factor
-
-        return na_corr
-
-    @staticmethod
-    def _get_shell_origins(n: int) -> np.ndarray:
-        """
-        Given the shell number, compute all the cell origins that lie in
-        that shell
-
-        Parameters
-        ----------
-        n
-            The shell number
-
-        Returns
-        -------
-        origins
-            Shape ((2*n + 1)**3 - (2*n - 1)**3, 3) int ndarray. The
-            cell origins. Note: if n = 0, origins = [[0, 0, 0]]
-        """
-
-        if n == 0:
-            return np.array([[0, 0, 0]], dtype=np.int32)
-
-        # Coordinates of cells in xy plane where z=0, xz plane where
-        # y=0, yz plane where x=0. Note: to avoid duplicating cells at
-        # the edges, the xz plane has (2*n + 1) - 2 rows in z, rather
-        # than (2*n + 1). The yz plane also has (2*n + 1) - 2 rows in z
-        # and (2*n + 1) - 2 columns in y
-        xy = get_all_origins((n+1, n+1, 1), min_xyz=(-n, -n, 0))
-        xz = get_all_origins((n+1, 1, n), min_xyz=(-n, 0, -n+1))
-        yz = get_all_origins((1, n, n), min_xyz=(0, -n+1, -n+1))
-
-        # Offset each plane by n and -n to get the 6 planes that make up
-        # the shell
-        origins = np.zeros(((2*n+1)**3-(2*n-1)**3, 3), dtype=np.int32)
-        for i, ni in enumerate([-n, n]):
-            origins[i*len(xy):(i+1)*len(xy)] = xy
-            origins[i*len(xy):(i+1)*len(xy), 2] = ni
-            io = 2*len(xy)
-            origins[io+i*len(xz):io+(i+1)*len(xz)] = xz
-            origins[io+i*len(xz):io+(i+1)*len(xz), 1] = ni
-            io = 2*(len(xy) + len(xz))
-            origins[io+i*len(yz):io+(i+1)*len(yz)] = yz
-            origins[io+i*len(yz):io+(i+1)*len(yz), 0] = ni
-
-        return origins
-
-    def _enforce_realspace_asr(self) -> np.ndarray:
-        """
-        Apply a transformation to the force constants matrix so that it
-        satisfies the acousic sum rule. Diagonalise, shift the acoustic
-        modes to almost zero then construct the correction to the force
-        constants matrix using the eigenvectors. For more information
-        see section 2.3.4:
-        http://www.tcm.phy.cam.ac.uk/castep/Phonons_Guide/Castep_Phonons.html
-
-        Returns
-        -------
-        force_constants
-            Shape (n_cells_in_sc, 3*n_atoms, 3*n_atoms) float ndarray. The
-            corrected force constants matrix
-        """
-        n_cells_in_sc = self.n_cells_in_sc
-        n_atoms = self.crystal.n_atoms
-        n_atoms_in_sc = n_cells_in_sc*n_atoms
-        force_constants = self._force_constants
-
-        sc_rel_idx = _get_supercell_relative_idx(self.cell_origins,
-                                                 self.sc_matrix)
-
-        # Compute square matrix from compact force constants
-        sq_fc = np.zeros((3*n_atoms_in_sc, 3*n_atoms_in_sc))
-        for nc in range(n_cells_in_sc):
-            sq_fc[3*nc*n_atoms:3*(nc+1)*n_atoms, :] = np.transpose(
-                np.reshape(force_constants[sc_rel_idx[nc]],
-                           (3*n_cells_in_sc*n_atoms, 3*n_atoms)))
-
-        try:
-            ac_i, evals, evecs = self._find_acoustic_modes(sq_fc)
-        except Exception:
-            warnings.warn((
-                '\nError correcting for acoustic sum rule, could not '
-                'find 3 acoustic modes.\nReturning uncorrected FC '
-                'matrix'), stacklevel=3)
-            return self._force_constants
-
-        # Correct fc matrix - set acoustic modes to almost zero
-        fc_tol = 1e-8*np.min(np.abs(evals))
-        for ac in ac_i:
-            sq_fc -= (fc_tol + evals[ac])*np.einsum(
-                'i,j->ij', evecs[:, ac], evecs[:, ac])
-
-        fc = np.reshape(sq_fc[:, :3*n_atoms],
-                        (n_cells_in_sc, 3*n_atoms, 3*n_atoms))
-
-        return fc
-
-    def _enforce_reciprocal_asr(self, dyn_mat_gamma: np.ndarray
-            ) -> np.ndarray:
-        """
-        Calculate the correction to the dynamical matrix that would have
-        to be applied to satisfy the acousic sum rule. Diagonalise the
-        gamma-point dynamical matrix, shift the acoustic modes to almost
-        zero then reconstruct the dynamical matrix using the
-        eigenvectors. For more information see section 2.3.4:
-        http://www.tcm.phy.cam.ac.uk/castep/Phonons_Guide/Castep_Phonons.html
-
-        Parameters
-        ----------
-        dyn_mat_gamma
-            Shape (3*n_atoms, 3*n_atoms) complex ndarray. The non
-            mass-weighted dynamical matrix at gamma
-
-        Returns
-        -------
-        dyn_mat
-            Shape (3*n_atoms, 3*n_atoms) complex ndarray or empty array
-            The corrected, non mass-weighted dynamical matrix at q.
-            Returns empty array if finding the 3 acoustic modes fails
-        """
-        tol = 5e-15
-
-        try:
-            ac_i, g_evals, g_evecs = self._find_acoustic_modes(
-                dyn_mat_gamma)
-        except Exception:
-            warnings.warn(('\nError correcting for acoustic sum rule, '
-                           'could not find 3 acoustic modes.\nNot '
-                           'correcting dynamical matrix'), stacklevel=3)
-            return np.array([], dtype=np.complex128)
-
-        n_atoms = self.crystal.n_atoms
-        recip_asr_correction = np.zeros((3*n_atoms, 3*n_atoms),
-                                        dtype=np.complex128)
-        for i, ac in enumerate(ac_i):
-            recip_asr_correction -= (tol*i + g_evals[ac])*np.einsum(
-                'i,j->ij', g_evecs[:, ac], g_evecs[:, ac])
-
-        return recip_asr_correction
-
-    def _find_acoustic_modes(self, dyn_mat: np.ndarray
-            ) -> Tuple[np.ndarray, np.ndarray, np.ndarray]:
-        """
-        Find the acoustic modes from a dynamical matrix, they should
-        have the sum of c of m amplitude squared = mass (note: have not
-        actually included mass weighting here so assume mass = 1.0)
-
-        Parameters
-        ----------
-        dyn_mat
-            Shape (3*n_atoms, 3*n_atoms) complex ndarray. A dynamical
-            matrix
-
-        Returns
-        -------
-        ac_i
-            Shape (3,) int ndarray. The indices of the acoustic modes
-        evals
-            Shape (3*n_atoms) float ndarray. Dynamical matrix
-            eigenvalues
-        evecs
-            Shape (3*n_atoms, n_atoms, 3) complex ndarray. Dynamical
-            matrix eigenvectors
-        """
-        n_branches = dyn_mat.shape[0]
-        n_atoms = int(n_branches/3)
-
-        evals, evecs = np.linalg.eigh(dyn_mat, UPLO='U')
-        evec_reshape = np.reshape(
-            np.transpose(evecs), (n_branches, n_atoms, 3))
-        # Sum displacements for all ions in each branch
-        c_of_m_disp = np.sum(evec_reshape, axis=1)
-        c_of_m_disp_sq = np.sum(np.abs(c_of_m_disp)**2, axis=1)
-        sensitivity = 0.5
-        sc_mass = 1.0*n_atoms
-        # Check number of acoustic modes
-        if np.sum(c_of_m_disp_sq > sensitivity*sc_mass) < 3:
-            raise Exception('Could not find 3 acoustic modes')
-        # Find idx of acoustic modes (3 largest c of m displacements)
-        ac_i = np.argsort(c_of_m_disp_sq)[-3:]
-
-        return ac_i, evals, evecs
-
-    def _calculate_phases(
-            self,
-            qpt: np.ndarray,
-            unique_sc_origins: Sequence[Sequence[int]],
-            unique_sc_i: np.ndarray,
-            unique_cell_origins: Sequence[Sequence[int]],
-            unique_cell_i: np.ndarray) -> Tuple[np.ndarray, np.ndarray]:
-        """
-        Calculate the phase factors for the supercell images and cells
-        for a single q-point. The unique supercell and cell origins
-        indices are required to minimise expensive exp and power
-        operations
-
-        Parameters
-        ----------
-        qpt
-            Shape (3,) float ndarray. The q-point to calculate
-        unique_sc_origins
-            A list containing 3 lists of the unique supercell image
-            offsets in each direction. The supercell offset is
-            calculated by multiplying the supercell matrix by the
-            supercell image indices (obtained by _get_all_origins()). A
-            list of lists rather than a Numpy array is used as the 3
-            lists are independent and their size is not known
-            beforehand
-        unique_sc_i
-            Shape ((2*n_sc_shells + 1)**3, 3) int ndarray, where
-            n_sc_shells is how many supercells out to go to search for
-            atom images. The indices needed to reconstruct sc_origins
-            from the unique values in unique_sc_origins
-        unique_cell_origins
-            A list containing 3 lists of the unique cell origins in
-            each direction. A list of lists rather than a Numpy array
-            is used as the 3 lists are independent and their size is
-            not known beforehand
-        unique_cell_i
-            Shape (n_cells_in_sc, 3) int ndarray. The indices needed to
-            reconstruct cell_origins from the unique values in
-            unique_cell_origins
-
-        Returns
-        -------
-        sc_phases
-            Shape (unique_sc_i,) float ndarray. Phase factors exp(iq.r)
-            for each supercell image coordinate in sc_origins
-        cell_phases
-            Shape (unique_cell_i,) float ndarray. Phase factors
-            exp(iq.r) for each cell coordinate in the supercell
-        """
-
-        # Only calculate exp(iq) once, then raise to power to get the
-        # phase at different supercell/cell coordinates to minimise
-        # expensive exp calculations
-        # exp(iq.r) = exp(iqh.ra)*exp(iqk.rb)*exp(iql.rc)
-        #           = (exp(iqh)^ra)*(exp(iqk)^rb)*(exp(iql)^rc)
-        phase = np.exp(2j*math.pi*qpt)
-        sc_phases = np.ones(len(unique_sc_i), dtype=np.complex128)
-        cell_phases = np.ones(len(unique_cell_i), dtype=np.complex128)
-        for i in range(3):
-            unique_sc_phases = np.power(phase[i], unique_sc_origins[i])
-            sc_phases *= unique_sc_phases[unique_sc_i[:, i]]
-
-            unique_cell_phases = np.power(phase[i], unique_cell_origins[i])
-            cell_phases *= unique_cell_phases[unique_cell_i[:, i]]
-
-        return sc_phases, cell_phases
-
-    def _is_outdated(self, attr_name: str,
-                     *inputs: Union[np.ndarray, float]) -> bool:
-        """
-        Whether an attribute that is stored between calculations has to
-        be calculated (again), because it hasn't been calculated yet or
-        the values it was calculated from have since been changed. In
-        that case any existing value is removed.
-
-        Parameters
-        ----------
-        attr_name
-            The name of the attribute the result is stored in
-        *inputs
-            The current values of everything the result depends on
-        """
-        all_inputs = self.__dict__.setdefault('_stored_inputs', {})
-        if (hasattr(self, attr_name) and attr_name in all_inputs
-                and all(map(np.array_equal, all_inputs[attr_name], inputs))):
-            return False
-        if hasattr(self, attr_name):
-            delattr(self, attr_name)
-        all_inputs[attr_name] = [np.copy(value) for value in inputs]
-        return True
-
-    def _calculate_supercell_images(self, n_sc_shells: int) -> None:
-        """
-        For each displacement of ion i in the unit cell and ion j in
-        the supercell, calculate the number of supercell periodic
-        images there are and which supercells they reside in, and sets
-        the _sc_image_i, and _n_sc_images ForceConstants attributes
-
-        Parameters
-        ----------
-        n_sc_shells
-            The number of supercells out to go to search for atom
-            images
-        """
-
-        n_atoms = self.crystal.n_atoms
-        cell_vectors = self.crystal._cell_vectors
-        atom_r = self.crystal.atom_r
-        cell_origins = self.cell_origins
-        n_cells_in_sc = self.n_cells_in_sc
-        sc_matrix = self.sc_matrix
-        ax = np.newaxis
-
-        # List of points defining Wigner-Seitz cell
-        ws_frac = np.array([[0, 0, 0], [0, 0, 1], [0, 1, 0], [0, 1, 1],
-                            [0, 1, -1], [1, 0, 0], [1, 0, 1], [1, 0, -1],
-                            [1, 1, 0], [1, 1, 1], [1, 1, -1], [1, -1, 0],
-                            [1, -1, 1], [1, -1, -1]])
-        cutoff_scale = 1.0
-
-        # Calculate points of WS cell for this supercell
-        sc_vecs = np.einsum('ji,ik->jk', sc_matrix, cell_vectors)
-        ws_list = np.einsum('ij,jk->ik', ws_frac, sc_vecs)
-        inv_ws_sq = 1.0/np.sum(np.square(ws_list[1:]), axis=1)
-        ws_list_norm = ws_list[1:]*inv_ws_sq[:, ax]
-
-        # Get Cartesian coords of supercell images and ions in supercell
-        sc_image_r = get_all_origins(
-            np.repeat(n_sc_shells, 3) + 1, min_xyz=-np.repeat(n_sc_shells, 3))
-        sc_image_cart = np.einsum('ij,jk->ik', sc_image_r, sc_vecs)
-        sc_atom_cart = np.einsum('ijk,kl->ijl',
-                                 cell_origins[:, ax, :] + atom_r[ax, :, :],
-                                 cell_vectors)
-
-        sc_image_i = np.full(
-            (n_cells_in_sc, n_atoms, n_atoms, (2*n_sc_shells + 1)**3),
-            -1, dtype=np.int32)
-        n_sc_images = np.zeros((n_cells_in_sc, n_atoms, n_atoms),
-                               dtype=np.int32)
-
-        # Ordering of loops here is for efficiency:
-        # ions in unit cell -> periodic supercell images -> WS points
-        # This is so the ion-ion vectors in each loop will be similar,
-        # so they are more likely to pass/fail the WS check together
-        # so the last loop can be broken early
-        for i in range(n_atoms):
-            rij = sc_atom_cart[0, i] - sc_atom_cart
-            for im, sc_r in enumerate(sc_image_cart):
-                # Get vector between j in sc image and i in unit cell
-                dists = rij - sc_r
-                # Only want to include images where ion < halfway to ALL
-                # ws points, so compare vector to all ws points
-                for n, wsp in enumerate(ws_list_norm):
-                    dist_wsp = np.absolute(np.sum(dists*wsp, axis=-1))
-                    if n == 0:
-                        nc_idx, nj_idx = np.where(
-                            dist_wsp <= (0.5*cutoff_scale + 0.001)
-                        )
-                        # Reindex dists to remove elements where the ion
-                        # is > halfway to WS point for efficiency
-                        dists = dists[nc_idx, nj_idx]
-                    else:
-                        # After first reindex, dists is now 1D so need
-                        # to reindex like this instead
-                        idx = np.where(
-                            dist_wsp <= (0.5*cutoff_scale + 0.001)
-                        )[0]
-                        nc_idx = nc_idx[idx]
-                        nj_idx = nj_idx[idx]
-                        dists = dists[idx]
-                    if len(nc_idx) == 0:
-                        break
-                    # If ion-ion vector has been < halfway to all WS
-                    # points, this is a valid image! Save it
-                    if n == len(ws_list_norm) - 1:
-                        n_im_idx = n_sc_images[nc_idx, i, nj_idx]
-                        sc_image_i[nc_idx, i, nj_idx, n_im_idx] = im
-                        n_sc_images[nc_idx, i, nj_idx] += 1
-
-        self._n_sc_images = n_sc_images
-        # Truncate sc_image_i to the maximum ACTUAL images rather than
-        # the maximum possible images to avoid storing and summing over
-        # nonexistent images
-        self._sc_image_i = sc_image_i[:, :, :, :np.max(n_sc_images)]
-
-    def to_dict(self) -> Dict[str, Any]:
-        """
-        Convert to a dictionary. See ForceConstants.from_dict for
-        details on keys/values
-
-        Returns
-        -------
-        dict
-        """
-        dout = _obj_to_dict(self, ['crystal', 'force_constants',
-                                   'n_cells_in_sc', 'sc_matrix',
-                                   'cell_origins', 'born',
-                                   'dielectric'])
-        return dout
-
-    def to_json_file(self, filename: str) -> None:
-        """
-        Write to a JSON file. JSON fields are equivalent to
-        ForceConstants.from_dict keys
-
-        Parameters
-        ----------
-        filename
-            Name of the JSON file to write to
-        """
-        _obj_to_json_file(self, filename)
-
-    @classmethod
-    def from_dict(cls: Type[T], d: Dict[str, Any]) -> T:
-        """
-        Convert a dictionary to a ForceConstants object
-
-        Parameters
-        ----------
-        d
-            A dictionary with the following keys/values:
-
-            - 'crystal': dict, see Crystal.from_dict
-            - 'force_constants': (n_cells_in_sc, 3*crystal.n_atoms, 3*crystal.n_atoms) float ndarray
-            - 'force_constants_unit': str
-            - 'sc_matrix': (3,3) int ndarray
-            - 'cell_origins': (n_cells_in_sc, 3) int ndarray
-
-            There are also the following optional keys:
-
-            - 'born': (3*crystal.n_atoms, 3, 3) float ndarray
-            - 'born_unit': str
-            - 'dielectric': (3, 3) float ndarray
-            - 'dielectric_unit': str
-
-        Returns
-        -------
-        forceconstants
-        """
-        crystal = Crystal.from_dict(d['crystal'])
-        d = _process_dict(
-            d, quantities=['force_constants', 'born', 'dielectric'],
-            optional=['born', 'dielectric'])
-        return cls(crystal, d['force_constants'], d['sc_matrix'],
-                   d['cell_origins'], d['born'], d['dielectric'])
-
-    @classmethod
-    def from_total_fc_with_dipole(
-            cls: Type[T], crystal: Crystal, force_constants: Quantity,
-            sc_matrix: np.ndarray, cell_origins: np.ndarray, born: Quantity,
-            dielectric: Quantity) -> T:
-        """
-        Subtracts a dipole term from the input force constants matrix
-        to convert the 'total' force constants matrix containing both
-        dipole-dipole interactions and short-ranged interactions to one
-        containing only short-ranged interactions, as defined in eq. 78
-        from [4]_ . This correction may need to be applied as Euphonic
-        requires the short-ranged matrix, whereas some codes output the
-        total matrix (e.g Phonopy, but note that the from_phonopy
-        method will apply this correction automatically). If the force
-        constants matrix is already short ranged or the material has
-        zero Born effective charges or dielectric permittivity tensor
-        this correction should not be applied.
-
-        .. [4] X. Gonze and C. Lee., Phys. Rev. B, 1997, 55, 10355-10368
-
-        Parameters
-        ----------
-        force_constants
-            Shape (n_cells_in_sc, 3*n_atoms, 3*n_atoms) float Quantity
-            in energy/length**2 units. The 'total' force constants
-            matrix containing both dipole-dipole interactions and
-            short-ranged interactions.
-        crystal
-            Lattice and atom information
-        sc_matrix
-            Shape (3, 3) int ndarray. The transformation matrix to
-            convert from the unit cell vectors to the supercell vectors
-        cell_origins
-            Shape (n_cells_in_sc, 3) int ndarray. The origin
-            coordinates of each unit cell within the supercell, in
-            units of the unit cell vectors
-        born
-            Shape (n_atoms, 3, 3) float Quantity in charge units. The
-            Born charges for each atom
-        dielectric
-            Shape (3, 3) float Quantity in charge**2/(length*energy)
-            units. The dielectric permittivity tensor
-
-        Returns
-        -------
-        forceconstants
-        """
-        n_atoms = crystal.n_atoms
-        n_cells = len(cell_origins)
-        # The dynamical matrix of the supercell at Q=0 is equivalent
-        # to the unit cell FC. Correct FC by calculating the dipole
-        # correction to the supercell dynamical matrix and subtracting
-        # it from the FC.
-        # First create Crystal and Born charges for supercell
-        sc_atom_r = (np.repeat(cell_origins, n_atoms, axis=0)
-                     + np.tile(crystal.atom_r, (n_cells, 1)))
-        sc_to_u_matrix = np.linalg.inv(sc_matrix).transpose()
-        sc_atom_r_scell = np.einsum('ij,jk->ik', sc_atom_r, sc_to_u_matrix)
-        sc_vecs = np.einsum('ji,ik->jk', sc_matrix, crystal._cell_vectors)
-        sc_mass = np.tile(crystal._atom_mass, n_cells)
-        sc_crystal = Crystal(sc_vecs*ureg('bohr'), sc_atom_r_scell,
-                             np.tile(crystal.atom_type, n_cells),
-                             sc_mass*ureg('m_e'))
-        sc_born = np.tile(born.to(ureg('e')).magnitude,
-                          (n_cells, 1, 1))
-        dielectric_au = dielectric.to('e**2/(bohr*hartree)').magnitude
-        # Now initialise, calculate and subtract the dipole correction
-        dipole_data = cls._dipole_correction_init(
-            sc_crystal, sc_born, dielectric_au)
-        corr = cls._calculate_dipole_correction(
-            np.array([0., 0., 0.]), sc_crystal, sc_born,
-            dielectric_au, dipole_data)
-        corr = np.transpose(
-            np.reshape(corr[:, :3*n_atoms], (n_cells, 3*n_atoms, 3*n_atoms)),
-            axes=[0, 2, 1])
-        fc = force_constants.to('hartree/bohr**2').magnitude
-        fc_corrected = np.real(fc - corr)*ureg('hartree/bohr**2').to(
-            force_constants.units)
-        return cls(crystal, fc_corrected, sc_matrix, cell_origins,
-                   born=born, dielectric=dielectric)
-
-    @classmethod
-    def from_json_file(cls: Type[T], filename: str) -> T:
-        """
-        Read from a JSON file. See ForceConstants.from_dict for required
-        fields
-
-        Parameters
-        ----------
-        filename
-            The file to read from
-
-        Returns
-        -------
-        forceconstants
-        """
-        return _obj_from_json_file(cls, filename)
-
-    @classmethod
-    def from_castep(cls: Type[T], filename: str) -> T:
-        """
-        Reads from a .castep_bin or .check file
-
-        Parameters
-        ----------
-        filename
-            The path and name of the file to read
-
-        Returns
-        -------
-        forceconstants
-        """
-        data = castep.read_interpolation_data(filename)
-        return cls.from_dict(data)
-
-    @classmethod
-    def from_phonopy(cls: Type[T],
-                     path: str = '.',
-                     summary_name: str = 'phonopy.yaml',
-                     born_name: Optional[str] = None,
-                     fc_name: str = 'FORCE_CONSTANTS',
-                     fc_format: Optional[str] = None) -> T:
-        """
-        Reads data from the phonopy summary file (default phonopy.yaml)
-        and optionally born and force constants files. Only attempts to
-        read from born or force constants files if these can't be found
-        in the summary file.
-
-        Parameters
-        ----------
-        path
-            Path to directory containing the file(s)
-        summary_name
-            Filename of phonopy summary file, default phonopy.yaml. By
-            default any information (e.g. force constants) read from
-            this file takes priority
-        born_name
-            Name of the Phonopy file containing born charges and
-            dielectric tensor (by convention in Phonopy this would be
-            called BORN). Is only read if Born charges can't be found in
-            the summary_name file
-        fc_name
-            Name of file containing force constants. Is only read if
-            force constants can't be found in summary_name
-        fc_format
-            One of {'phonopy', 'hdf5'}. Format of file containing force
-            constants data, if it can't be determined from the
-            extension. FORCE_CONSTANTS is type 'phonopy'
-
-        Returns
-        -------
-        forceconstants
-        """
-        data = phonopy.read_interpolation_data(
-            path=path, summary_name=summary_name, born_name=born_name,
-            fc_name=fc_name, fc_format=fc_format)
-        fc = cls.from_dict(data)
-        if fc.born is not None:
-            fc = cls.from_total_fc_with_dipole(
-                fc.crystal, fc.force_constants, fc.sc_matrix, fc.cell_origins,
-                born=fc.born, dielectric=fc.dielectric)
-        return fc
+import math
+import os
+import sys
+import warnings
+from typing import (Literal, Optional, Tuple, Union,
+                    TypeVar, Sequence, Dict, Any, Type)
+from multiprocessing import cpu_count
+
+import numpy as np
+from pint import Quantity
+from scipy.special import erfc
+from threadpoolctl import threadpool_limits
+
+import euphonic
+from euphonic.validate import (
+    _check_constructor_inputs, _check_unit_conversion,
+    _ensure_contiguous_args, _ensure_contiguous_attrs)
+from euphonic.io import (_obj_to_json_file, _obj_from_json_file,
+                         _obj_to_dict, _process_dict)
+from euphonic.readers import castep, phonopy
+from euphonic.util import (is_gamma, get_all_origins,
+                           mode_gradients_to_widths,
+                           _get_supercell_relative_idx)
+from euphonic import (ureg, Crystal, QpointPhononModes,
+                      QpointFrequencies)
+
+
+class ImportCError(Exception):
+    pass
+
+
+class ForceConstants:
+    """
+    A class to read and store the data required for a phonon
+    interpolation calculation from model (e.g. CASTEP) output,
+    and calculate phonon frequencies/eigenvectors at arbitrary q-points
+    via Fourier interpolation
+
+    Attributes
+    ----------
+    crystal
+        Lattice and atom information
+    force_constants
+        Shape (n_cells_in_sc, 3*n_atoms, 3*n_atoms) float Quantity in
+        energy/length**2 units. The force constants matrix
+    sc_matrix
+        Shape (3, 3) int ndarray. The transformation matrix to convert
+        from the unit cell vectors to the supercell vectors
+    n_cells_in_sc
+        Number of cells in the supercell
+    cell_origins
+        Shape (n_cells_in_sc, 3) int ndarray. The origin coordinates of
+        each unit cell within the supercell, in units of the unit cell
+        vectors
+    born
+        Shape (n_atoms, 3, 3) float Quantity in charge units or None.
+        The Born charges for each atom
+    dielectric
+        Shape (3, 3) float Quantity in charge**2/(length*energy) units
+        or None. The dielectric permittivity tensor
+    """
+    T = TypeVar('T', bound='ForceConstants')
+
+    def __init__(self, crystal: Crystal, force_constants: Quantity,
+                 sc_matrix: np.ndarray, cell_origins: np.ndarray,
+                 born: Optional[Quantity] = None,
+                 dielectric: Optional[Quantity] = None) -> None:
+        """
+        Parameters
+        ----------
+        crystal
+            Lattice and atom information
+        force_constants
+            Shape (n_cells_in_sc, 3*n_atoms, 3*n_atoms) float Quantity
+            in energy/length**2 units. The force constants matrix
+        sc_matrix
+            Shape (3, 3) int ndarray. The transformation matrix to
+            convert from the unit cell vectors to the supercell vectors
+        cell_origins
+            Shape (n_cells_in_sc, 3) int ndarray. The origin
+            coordinates of each unit cell within the supercell, in
+            units of the unit cell vectors
+        born
+            Shape (n_atoms, 3, 3) float Quantity in charge units. The
+            Born charges for each atom
+        dielectric
+            Shape (3, 3) float Quantity in charge**2/(length*energy)
+            units. The dielectric permittivity tensor
+        """
+        # Check independent inputs first
+        _check_constructor_inputs(
+            [crystal, sc_matrix], [Crystal, np.ndarray], [(), (3, 3)],
+            ['crystal', 'sc_matrix'])
+        n_at = crystal.n_atoms
+        n_sc = int(np.rint(np.absolute(np.linalg.det(sc_matrix))))
+        # Now check other derived input shapes
+        _check_constructor_inputs(
+            [force_constants, cell_origins, born, dielectric],
+            [Quantity, np.ndarray, [Quantity, type(None)],
+                [Quantity, type(None)]],
+            [(n_sc, 3*n_at, 3*n_at), (n_sc, 3), (n_at, 3, 3), (3, 3)],
+            ['force_constants', 'cell_origins', 'born', 'dielectric'])
+        self.crystal = crystal
+        self._force_constants = force_constants.to(
+            'hartree/bohr**2').magnitude
+        self.force_constants_unit = str(force_constants.units)
+        self.sc_matrix = sc_matrix
+        self.cell_origins = cell_origins
+        self.n_cells_in_sc = n_sc
+
+        if born is not None:
+            self._born = born.to(ureg.e).magnitude
+            self.born_unit = str(born.units)
+        else:
+            self._born = born
+            self.born_unit = str(ureg.e)
+
+        if dielectric is not None:
+            self._dielectric = dielectric.to(ureg(
+                'e**2/(bohr*hartree)')).magnitude
+            self.dielectric_unit = str(dielectric.units)
+        else:
+            self._dielectric = dielectric
+            self.dielectric_unit = str(ureg((
+                'e**2/(bohr*hartree)')))
+
+    @property
+    def force_constants(self) -> Quantity:
+        return self._force_constants*ureg(
+            'hartree/bohr**2').to(
+                self.force_constants_unit)
+
+    @force_constants.setter
+    def force_constants(self, value: Quantity) -> None:
+        self.force_constants_unit = str(value.units)
+        self._force_constants = value.to('hartree/bohr**2').magnitude
+
+    @property
+    def born(self) -> Union[Quantity, None]:
+        if self._born is not None:
+            return self._born*ureg('e').to(self.born_unit)
+        else:
+            return None
+
+    @born.setter
+    def born(self, value: Quantity) -> None:
+        self.born_unit = str(value.units)
+        self._born = value.to('e').magnitude
+
+    @property
+    def dielectric(self) -> Union[Quantity, None]:
+        if self._dielectric is not None:
+            return self._dielectric*ureg((
+                'e**2/(bohr*hartree)')).to(self.dielectric_unit)
+        else:
+            return None
+
+    @dielectric.setter
+    def dielectric(self, value: Quantity) -> None:
+        self.dielectric_unit = str(value.units)
+        self._dielectric = value.to('e**2/(bohr*hartree)').magnitude
+
+    def __setattr__(self, name: str, value: Any) -> None:
+        _check_unit_conversion(self, name, value,
+                               ['force_constants_unit', 'born_unit',
+                                'dielectric_unit'])
+        super(ForceConstants, self).__setattr__(name, value)
+
+    def calculate_qpoint_phonon_modes(
+            self,
+            qpts: np.ndarray,
+            weights: Optional[np.ndarray] = None,
+            asr: Optional[Literal['realspace', 'reciprocal']] = None,
+            dipole: bool = True,
+            dipole_parameter: float = 1.0,
+            splitting: bool = True,
+            insert_gamma: bool = False,
+            reduce_qpts: bool = True,
+            use_c: Optional[bool] = None,
+            n_threads: Optional[int] = None,
+            return_mode_gradients: bool = False
+            ) -> Union[QpointPhononModes,
+                       Tuple[QpointPhononModes, Quantity]]:
+        """
+        Calculate phonon frequencies and eigenvectors at specified
+        q-points from a force constants matrix via Fourier interpolation
+
+        Parameters
+        ----------
+        qpts
+            Shape (n_qpts, 3) float ndarray. The q-points to
+            interpolate onto in reciprocal cell vector units
+        weights
+            Shape (n_qpts,) float ndarray. The weight for each q-point.
+            If not given, equal weights are
+            applied
+        asr
+            Which acoustic sum rule correction to apply. 'realspace' applies
+            the correction to the force constant matrix in real
+            space. 'reciprocal' applies the correction to the dynamical matrix
+            at every q-point
+        dipole
+            Whether to calculate the dipole tail correction to the dynamical
+            matrix at each q-point using the Ewald sum, if the Born
+            charges and dielectric permitivitty tensor are present.
+        dipole_parameter
+            Changes the cutoff in real/reciprocal space for the dipole
+            Ewald sum. A higher value uses more reciprocal terms. If tuned
+            correctly this can result in performance improvements. See
+            euphonic-optimise-dipole-parameter program for help on choosing
+            a good dipole_parameter.
+        splitting
+            Whether to calculate the LO-TO splitting at the gamma
+            points. Only applied if dipole is True and the Born charges
+            and dielectric permitivitty tensor are present.
+        insert_gamma
+            If splitting is True, this will insert gamma points into
+            qpts to store the extra split frequencies. Note this means
+            that the length of qpts in the output QpointPhononModes
+            object will not necessarily be the same as the input qpts.
+            If qpts already contains double gamma points where you want
+            split frequencies, leave this as False.
+        reduce_qpts
+            Whether to use periodicity to reduce all q-points and only
+            calculate for unique q-points within the 1st BZ. This won't
+            change the output but could increase performance.
+        use_c
+            Whether to use C instead of Python to calculate and
+            diagonalise the dynamical matrix. By default this is None
+            and will use the C extension if it is installed, and fall
+            back to Python if not. If use_c=True, this will force use
+            of the C extension and an error will be raised if it
+            is not installed. If use_c=False, this will force use
+            of Python, even if the C extension is installed
+        n_threads
+            The number of OpenMP threads to use when looping over
+            q-points in C. By default this is None, in which case
+            the environment variable EUPHONIC_NUM_THREADS will be used
+            to determine number of threads, if this is not set then
+            the value returned from multiprocessing.cpu_count() will be
+            used
+        return_mode_gradients
+            Whether to also return the vector mode gradients (in
+            Cartesian coordinates). These can be converted to mode
+            widths and used in adaptive broadening for DOS. For details
+            on how these are calculated see the Notes section
+
+        Returns
+        -------
+        qpoint_phonon_modes
+            A QpointPhononModes object containing the interpolated
+            frequencies and eigenvectors at each q-point. Note that if
+            there is LO-TO splitting, and insert_gamma=True, the number
+            of input q-points may not be the same as in the output
+            object
+        mode_gradients
+            Optional shape (n_qpts, n_branches, 3) float Quantity,
+            the vector mode gradients dw/dq in Cartesian coordinates.
+            Is only returned if return_mode_gradients is true
+
+
+        Raises
+        ------
+        ImportCError
+            If use_c=True but the C extension cannot be imported
+
+        Notes
+        -----
+
+        **Phonon Frequencies/Eigenvectors Calculation**
+
+        Phonon frequencies/eigenvectors are calculated at any q-point by
+        Fourier interpolation of a force constants matrix. The force
+        constants matrix is defined as [1]_:
+
+        .. math::
+
+          \\Phi_{\\alpha {\\alpha}^\\prime}^{\\kappa {\\kappa}^\\prime}(0,l) =
+          \\frac{\\partial^{2}E}{{\\partial}u_{\\kappa\\alpha0}{\\partial}u_{{{\\kappa}^\\prime}{{\\alpha}^\\prime}l}}
+
+        where the unit cell containing the displaced atom is labelled
+        :math:`0` and :math:`l` runs over unit cells in the crystal,
+        :math:`\\kappa` runs over atoms in the unit cell, :math:`\\alpha`
+        runs over the Cartesian directions, and :math:`u_{\\kappa{\\alpha}l}`
+        is the displacement of atom :math:`\\kappa` in cell :math:`l` in
+        direction :math:`\\alpha` from its equilibrium position. This can be
+        used to calculate the dynamical matrix
+        :math:`D_{\\alpha {\\alpha}^\\prime}^{\\kappa {\\kappa}^\\prime}` at
+        :math:`\\mathbf{q}`:
+
+        .. math::
+
+          D_{\\alpha {\\alpha^\\prime}}^{\\kappa {\\kappa^\\prime}}(\\mathbf{q}) =
+          \\frac{1}{\\sqrt{M_\\kappa M_{\\kappa^\\prime}}}
+          \\sum_{l}\\Phi_{\\alpha {\\alpha^\\prime}}^{\\kappa {\\kappa^\\prime}}\\exp\\left(-i\\mathbf{q}\\cdot \\mathbf{R}_l\\right)
+
+        where :math:`M_\\kappa` is the mass of atom :math:`\\kappa`,
+        :math:`\\mathbf{R}_l` is the vector from the origin to the
+        :math:`l^\\textrm{th}` unit cell. The eigenvalue equation
+        for the dynamical matrix is then:
+
+        .. math::
+
+          \\sum_{\\kappa^\\prime \\alpha^\\prime}D_{\\alpha {\\alpha}^\\prime}^{\\kappa {\\kappa}^\\prime}(\\mathbf{q}) {e}_{\\mathbf{q}\\nu{\\kappa^\\prime}{\\alpha^\\prime}} =
+          {\\omega}_{\\mathbf{q}\\nu}^2 {e}_{\\mathbf{q}\\nu\\kappa\\alpha}
+
+        where the eigenvalues :math:`{\\omega}_{\\mathbf{q}\\nu}^2` are the
+        square of the phonon frequencies of mode :math:`\\nu` at
+        :math:`\\mathbf{q}`, and the eigenvectors
+        :math:`\\mathbf{e}_{\\mathbf{q}\\nu\\kappa}` are the phonon
+        polarisation vectors at :math:`\\mathbf{q}` of mode :math:`\\nu`
+        for atom :math:`\\kappa`. The produced eigenvectors are normalised
+        such that:
+
+        .. math::
+
+          \\sum_{\\kappa}{|\\mathbf{e}_{\\mathbf{q}\\nu\\kappa}|^2} = 1
+
+        In polar materials, there is an additional long-ranged
+        correction to the force constants matrix (applied if
+        dipole=True) and a non-analytical correction at the gamma point
+        [2]_ (applied if splitting=True).
+
+        .. [1] M. T. Dove, Introduction to Lattice Dynamics, Cambridge University Press, Cambridge, 1993, 83-87
+        .. [2] X. Gonze, J. C. Charlier, D. C. Allan, M. P. Teter, Phys. Rev. B, 1994, 50, 13035-13038
+
+        **Mode Gradients Calculation**
+
+        The mode gradients can be used to calculate mode widths to be used
+        in the adaptive broadening scheme [3]_ when computing a DOS - this
+        broadens each mode contribution individually according to its mode
+        width. The mode widths are proportional to the mode gradients and
+        can be estimated using ``euphonic.util.mode_gradients_to_widths``
+
+        The mode gradients :math:`\\frac{d\\omega_{\\mathbf{q}\\nu}}{d\\mathbf{q}}` at each :math:`\\mathbf{q}`
+        are calculated at the same time as the phonon frequencies and
+        eigenvectors as follows.
+
+        Firstly, the eigenvalue equation above can be written in matrix
+        form as:
+
+        .. math::
+
+          E(\\mathbf{q})\\Omega(\\mathbf{q}) = D(\\mathbf{q})E(\\mathbf{q})
+
+        .. math::
+
+          \\Omega(\\mathbf{q}) = E^{-1}(\\mathbf{q})D(\\mathbf{q})E(\\mathbf{q})
+
+        Where :math:`\\Omega(\\mathbf{q})` is the diagonal matrix of phonon
+        frequencies squared :math:`\\omega_{\\mathbf{q}\\nu}^{2}` and :math:`E(\\mathbf{q})`
+        is the matrix containing eigenvectors for all modes.
+        :math:`\\frac{d\\omega_{\\mathbf{q}\\nu}}{d\\mathbf{q}}`, can then
+        be obtained by differentiating the above equation with respect
+        to :math:`\\mathbf{q}` using the product rule:
+
+        .. math::
+
+          \\frac{d\\Omega}{d\\mathbf{q}} = 2\\omega_{\\mathbf{q}\\nu}\\frac{d\\omega_{\\mathbf{q}\\nu}}{d\\mathbf{q}}\\delta_{\\nu \\nu^{\\prime}}
+
+        .. math::
+
+          \\frac{d\\omega_{\\mathbf{q}\\nu}}{d\\mathbf{q}} = \\frac{1}{2\\omega_{\\mathbf{q}\\nu}}{(
+          \\frac{d{E^{-1}}}{d\\mathbf{q}}DE +
+          E^{-1}\\frac{dD}{d\\mathbf{q}}E +
+          E^{-1}D\\frac{dE}{d\\mathbf{q}})}
+
+        Given that eigenvectors are normalised and orthogonal, an identity can be employed:
+
+        .. math::
+
+          \\frac{d}{d\\lambda}E^{\\prime}E = 0
+
+        So terms involving the first derivative of the eigenvector matrix can be set to zero, resulting in:
+
+        .. math::
+
+          \\frac{d\\omega_{\\mathbf{q}\\nu}}{d\\mathbf{q}} = \\frac{1}{2\\omega_{\\mathbf{q}\\nu}}{(E^{-1}\\frac{dD}{d\\mathbf{q}}E)}
+
+        :math:`\\frac{dD}{d\\mathbf{q}}` can be obtained by differentiating the Fourier equation above:
+
+        .. math::
+
+          \\frac{dD_{\\alpha {\\alpha}^\\prime}^{\\kappa {\\kappa}^\\prime}}{d\\mathbf{q}} =
+          \\frac{-i \\mathbf{R}_l}{\\sqrt{M_\\kappa M_{\\kappa ^\\prime}}}
+          \\sum_{l}\\Phi_{\\alpha\\alpha^\\prime}^{\\kappa\\kappa^\\prime}\\exp\\left(-i\\mathbf{q}\\cdot \\mathbf{R}_l\\right)
+
+        .. [3] J. R. Yates, X. Wang, D. Vanderbilt and I. Souza, Phys. Rev. B, 2007, 75, 195121
+        """
+        qpts, freqs, weights, evecs, grads = self._calculate_phonons_at_qpts(
+            qpts, weights, asr, dipole, dipole_parameter, splitting,
+            insert_gamma, reduce_qpts, use_c, n_threads,
+            return_mode_gradients, return_eigenvectors=True)
+        qpt_ph_modes = QpointPhononModes(
+            self.crystal, qpts, freqs, evecs, weights=weights)
+        if return_mode_gradients:
+            return qpt_ph_modes, grads
+        else:
+            return qpt_ph_modes
+
+    def calculate_qpoint_frequencies(
+            self,
+            qpts: np.ndarray,
+            weights: Optional[np.ndarray] = None,
+            asr: Optional[Literal['realspace', 'reciprocal']] = None,
+            dipole: bool = True,
+            dipole_parameter: float = 1.0,
+            splitting: bool = True,
+            insert_gamma: bool = False,
+            reduce_qpts: bool = True,
+            use_c: Optional[bool] = None,
+            n_threads: Optional[int] = None,
+            return_mode_gradients: bool = False,
+            ) -> Union[QpointFrequencies,
+                       Tuple[QpointFrequencies, Quantity]]:
+        """
+        Calculate phonon frequencies (without eigenvectors) at specified
+        q-points. See ForceConstants.calculate_qpoint_phonon_modes for
+        argument and algorithm details
+        """
+        qpts, freqs, weights, _, grads = self._calculate_phonons_at_qpts(
+            qpts, weights, asr, dipole, dipole_parameter, splitting,
+            insert_gamma, reduce_qpts, use_c, n_threads,
+            return_mode_gradients, return_eigenvectors=False)
+        qpt_freqs = QpointFrequencies(
+            self.crystal, qpts, freqs, weights=weights)
+        if return_mode_gradients:
+            return qpt_freqs, grads
+        else:
+            return qpt_freqs
+
+    def _calculate_phonons_at_qpts(
+            self,
+            qpts: np.ndarray,
+            weights: Optional[np.ndarray],
+            asr: Optional[Literal['realspace', 'reciprocal']],
+            dipole: bool,
+            dipole_parameter: float,
+            splitting: bool,
+            insert_gamma: bool,
+            reduce_qpts: bool,
+            use_c: Optional[bool],
+            n_threads: Optional[int],
+            return_mode_gradients: bool,
+            return_eigenvectors: bool) -> Tuple[
+                np.ndarray, Quantity, Optional[np.ndarray],
+                Optional[np.ndarray], Optional[Quantity]]:
+        """
+        Calculates phonon frequencies, and optionally eigenvectors and
+        phonon frequency gradients. See calculate_qpoint_phonon_modes
+        for argument details
+
+        Returns
+        -------
+        qpts
+            Shape (n_qpts, 3) float ndarray. The calculated q-points,
+            note that this may not be the same as the input q-points
+            if splitting and insert_gamma=True and there are gamma
+            points
+        frequencies
+            Shape (n_qpts, 3*n_atoms) float Quantity in energy units,
+            the phonon frequencies. n_qpts may not be the same as the
+            number of input q-points, if splitting and
+            insert_gamma=True and there are gamma points
+        weights
+            Shape (n_qpts,) float ndarray. The weight of each q-point
+        eigenvectors
+            Shape (n_qpts, 3*n_atoms, n_atoms, 3) complex ndarray
+        gradients
+            Shape (n_qpts, 3*n_atoms, 3) float Quantity in
+            energy*length units. The phonon mode gradients
+        """
+        asr_opts = (None, 'realspace', 'reciprocal')
+        if asr not in asr_opts:
+            raise ValueError(f'Invalid value for asr, got {asr}, '
+                             f'should be one of {asr_opts}')
+        # Check weights is of appropriate type and shape, to avoid doing all
+        # the interpolation only for it to fail creating QpointPhononModes
+        _check_constructor_inputs(
+            [weights], [[np.ndarray, type(None)]], [(len(qpts),)], ['weights'])
+
+        # Set default splitting params
+        if self.born is None or self.dielectric is None:
+            dipole = False
+        if not dipole:
+            splitting = False
+
+        if splitting and insert_gamma:
+            # Duplicate gamma points where there is splitting
+            gamma_i = np.where(is_gamma(qpts))[0]
+            split_gamma = gamma_i[np.where(
+                np.logical_and(gamma_i > 0, gamma_i < len(qpts) - 1))]
+            qpts = np.insert(qpts, split_gamma, qpts[split_gamma], axis=0)
+            # It doesn't necessarily make sense to use both weights
+            # (usually used for DOS) and splitting (usually used for
+            # bandstructures) but we need to handle this case anyway
+            # Where 1 q-point splits into 2, half the weight for each
+            if weights is not None:
+                # Don't change original array
+                weights = np.copy(weights)
+                weights[split_gamma] = weights[split_gamma]/2
+                weights = np.insert(weights, split_gamma,
+                                    weights[split_gamma])
+
+        if reduce_qpts:
+            norm_qpts = qpts - np.rint(qpts)
+            # Ensure gamma points are exactly zero, otherwise you may
+            # have a case where small fp differences mean np.unique
+            # doesn't reduce them, yet they're all classified as gamma
+            # points. This causes indexing errors later when calculating
+            # q-directions as there are then points in reduced_qpts
+            # whose index isn't in qpts_i
+            gamma_i = np.where(is_gamma(qpts))[0]
+            n_gamma = len(gamma_i)
+            norm_qpts[gamma_i] = 0.
+            reduced_qpts, qpts_i = np.unique(norm_qpts, return_inverse=True,
+                                             axis=0)
+            qpts_i = qpts_i.flatten()
+            
+            n_rqpts = len(reduced_qpts)
+            # Special handling of gamma points - don't reduce gamma
+            # points if LO-TO splitting
+            if splitting and n_gamma > 1:
+                # Replace any gamma points and their indices with new
+                # gamma points appended onto the reduced q-point array,
+                # so each gamma can have its own splitting
+                qpts_i[gamma_i[1:]] = range(n_rqpts, n_rqpts + n_gamma - 1)
+                reduced_qpts = np.append(reduced_qpts,
+                                         np.tile(np.array([0., 0., 0., ]),
+                                                 (n_gamma - 1, 1)),
+                                         axis=0)
+                n_rqpts = len(reduced_qpts)
+        else:
+            reduced_qpts = np.asarray(qpts, dtype=np.float64)
+            qpts_i = np.arange(0, len(qpts), dtype=np.int32)
+            n_rqpts = len(qpts)
+
+        # Get q-directions for non-analytical corrections
+        if splitting:
+            split_idx = np.where(is_gamma(reduced_qpts))[0]
+            q_dirs = self._get_q_dirs(qpts, qpts_i, split_idx)
+        else:
+            split_idx = np.array([])
+            q_dirs = np.array([])
+
+        n_sc_shells = 2  # How many supercells out to search for atom images
+        # Construct list of supercell atom images
+        if self._is_outdated('_sc_image_i', self.crystal._cell_vectors,
+                             self.crystal.atom_r, self.sc_matrix,
+                             self.cell_origins, self.n_cells_in_sc):
+            self._calculate_supercell_images(n_sc_shells)
+
+        # Get a list of all the unique supercell image origins and cell
+        # origins in x, y, z and how to rebuild them to minimise
+        # expensive phase calculations later
+        sc_image_r = get_all_origins(
+            np.repeat(n_sc_shells, 3) + 1, min_xyz=-np.repeat(n_sc_shells, 3))
+        sc_origins = np.einsum('ij,jk->ik', sc_image_r,
+                               self.sc_matrix).astype(np.int32)
+        unique_sc_origins = [[] for i in range(3)]
+        unique_sc_i = np.zeros((len(sc_origins), 3), dtype=np.int32)
+        unique_cell_origins = [[] for i in range(3)]
+        unique_cell_i = np.zeros((len(self.cell_origins), 3), dtype=np.int32)
+        for i in range(3):
+            unique_sc_origins[i], unique_sc_i[:, i] = np.unique(
+                sc_origins[:, i], return_inverse=True)
+            unique_cell_origins[i], unique_cell_i[:, i] = np.unique(
+                self.cell_origins[:, i], return_inverse=True)
+        if return_mode_gradients:
+            cell_origins_cart = np.einsum('ij,jk->ik', self.cell_origins,
+                                          self.crystal._cell_vectors)
+            # Append 0. to sc_origins_cart, so that when being indexed by
+            # sc_image_i to get the origins for each image, an index of -1
+            # and a value of 0. can be used
+            sc_origins_cart = np.zeros((len(sc_origins) + 1, 3))
+            sc_origins_cart[:len(sc_origins)] = np.einsum(
+                'ij,jk->ik', sc_origins, self.crystal._cell_vectors)
+            ax = np.newaxis
+            all_origins_cart = (sc_origins_cart[self._sc_image_i]
+                                + cell_origins_cart[:, ax, ax, ax, :])
+        else:
+            all_origins_cart = np.zeros((0, 3), dtype=np.float64)
+
+        # Precompute dynamical matrix mass weighting
+        atom_mass = self.crystal._atom_mass
+        n_atoms = self.crystal.n_atoms
+        masses = np.tile(np.repeat(atom_mass, 3), (3*n_atoms, 1))
+        dyn_mat_weighting = 1/np.sqrt(masses*np.transpose(masses))
+
+        # Initialise dipole correction calc to FC matrix if required
+        if dipole and self._is_outdated(
+                '_dipole_init_data', self.crystal._cell_vectors,
+                self.crystal.atom_r, self._born, self._dielectric,
+                dipole_parameter):
+            self._dipole_init_data = self._dipole_correction_init(
+                self.crystal, self._born, self._dielectric, dipole_parameter)
+
+        force_constants = self._force_constants
+        if asr == 'realspace':
+            if self._is_outdated('_force_constants_asr',
+                                 self._force_constants, self.sc_matrix,
+                                 self.cell_origins, self.n_cells_in_sc,
+                                 self.crystal.n_atoms):
+                self._force_constants_asr = self._enforce_realspace_asr()
+            force_constants = self._force_constants_asr
+        # Precompute fc matrix weighted by number of supercell atom
+        # images (for cumulant method)
+        n_sc_images_repeat = (
+            self._n_sc_images.repeat(3, axis=2).repeat(3, axis=1))
+        fc_img_weighted = np.divide(
+            force_constants, n_sc_images_repeat, where=n_sc_images_repeat != 0)
+
+        recip_asr_correction = np.array([], dtype=np.complex128)
+        if asr == 'reciprocal':
+            # Calculate dyn mat at gamma for reciprocal ASR
+            q_gamma = np.array([0., 0., 0.])
+            dyn_mat_gamma, _ = self._calculate_dyn_mat(
+                q_gamma, fc_img_weighted, unique_sc_origins,
+                unique_sc_i, unique_cell_origins, unique_cell_i,
+                all_origins_cart)
+            if dipole:
+                dyn_mat_gamma += self._calculate_dipole_correction(
+                    q_gamma, self.crystal, self._born, self._dielectric,
+                    self._dipole_init_data)
+            recip_asr_correction = self._enforce_reciprocal_asr(dyn_mat_gamma)
+
+
+        rfreqs = np.zeros((n_rqpts, 3*n_atoms))
+        if return_eigenvectors:
+            n_reigenvecs = n_rqpts
+        else:
+            # Create dummy zero-length eigenvectors so this can be
+            # detected in C and eigenvectors won't be saved
+            n_reigenvecs = 0
+
+        if return_mode_gradients:
+            rmode_gradients = np.zeros((n_rqpts, 3*n_atoms, 3),
+                                       dtype=np.complex128)
+        else:
+            rmode_gradients = np.zeros((0, 3*n_atoms, 3), dtype=np.complex128)
+
+        euphonic_path = os.path.dirname(euphonic.__file__)
+        cext_err_msg = (f'Euphonic\'s C extension couldn\'t be imported '
+                        f'from {euphonic_path}, it may not have been '
+                        f'installed.')
+
+        # Check if C extension can be used and handle appropriately
+        use_c_status = False
+        if use_c is not False:
+            try:
+                import euphonic._euphonic as euphonic_c
+                use_c_status = True
+            except ImportError:
+                if use_c is None:
+                    warnings.warn((
+                        cext_err_msg
+                        + ' Falling back to pure Python calculation.'),
+                        stacklevel=3)
+                else:
+                    raise ImportCError(cext_err_msg)
+
+        if use_c_status is True:
+            if n_threads is None:
+                n_threads_env = os.environ.get(
+                    'EUPHONIC_NUM_THREADS', '')  # type: str
+                if n_threads_env:
+                    n_threads = int(n_threads_env)
+                else:
+                    n_threads = cpu_count()
+            # Temporary fix to https://github.com/pace-neutrons/Euphonic/issues/191
+            # Append extra elements to avoid overflow in eigenvectors
+            # in openblas
+            if n_reigenvecs > 0:
+                n_reigenvecs += 1
+            reigenvecs = np.zeros((n_reigenvecs, 3*n_atoms, n_atoms, 3),
+                                  dtype=np.complex128)
+            cell_vectors = self.crystal._cell_vectors.astype(np.float64)
+            recip_vectors = self.crystal.reciprocal_cell().to(
+                '1/bohr').magnitude
+            # Get conj transpose - the dynamical matrix calculated in C
+            # is passed to Fortran libs so uses Fortran ordering, make
+            # sure reciprocal correction matches this. This only makes
+            # a very small difference and can only be seen in near-flat
+            # mode gradients, but should be corrected anyway
+            recip_asr_correction =  recip_asr_correction.conj().T
+            # Make sure all arrays are contiguous before calling C
+            (cell_vectors, recip_vectors, reduced_qpts, split_idx, q_dirs,
+             fc_img_weighted, sc_origins, recip_asr_correction,
+             dyn_mat_weighting, rfreqs, reigenvecs, rmode_gradients,
+             all_origins_cart) = _ensure_contiguous_args(
+                 cell_vectors, recip_vectors, reduced_qpts, split_idx,
+                 q_dirs, fc_img_weighted, sc_origins, recip_asr_correction,
+                 dyn_mat_weighting, rfreqs, reigenvecs, rmode_gradients,
+                 all_origins_cart)
+            attrs = ['_n_sc_images', '_sc_image_i', 'cell_origins']
+            _ensure_contiguous_attrs(self, attrs, dtype=np.int32)
+            _ensure_contiguous_attrs(self.crystal, ['atom_r'],
+                                     dtype=np.float64)
+            if dipole:
+                _ensure_contiguous_attrs(self, ['_born', '_dielectric'],
+                                         dtype=np.float64)
+                dipole_keys = ['H_ab', 'cells', 'gvec_phases', 'gvecs_cart',
+                               'dipole_q0']
+                self._dipole_init_data.update(zip(
+                    dipole_keys,
+                    _ensure_contiguous_args(*[self._dipole_init_data[key]
+                                              for key in dipole_keys])))
+            with threadpool_limits(limits=1):
+                euphonic_c.calculate_phonons(
+                    self, cell_vectors, recip_vectors, reduced_qpts,
+                    split_idx, q_dirs, fc_img_weighted, sc_origins,
+                    recip_asr_correction, dyn_mat_weighting, dipole,
+                    splitting, rfreqs, reigenvecs, rmode_gradients,
+                    all_origins_cart, n_threads)
+        else:
+            reigenvecs = np.zeros((n_reigenvecs, 3*n_atoms, n_atoms, 3),
+                                  dtype=np.complex128)
+            for qi, qpt in enumerate(reduced_qpts):
+                q_dir = None
+                if splitting and is_gamma(qpt):
+                    q_dir_idx = np.where(split_idx == qi)[0][0]
+                    q_dir = q_dirs[q_dir_idx]
+                rfreqs[qi], evecs, grads = self._calculate_phonons_at_q(
+                    qpt, fc_img_weighted, unique_sc_origins, unique_sc_i,
+                    unique_cell_origins, unique_cell_i, all_origins_cart,
+                    dyn_mat_weighting, recip_asr_correction, dipole, q_dir)
+                if return_eigenvectors:
+                    reigenvecs[qi] = evecs
+                if return_mode_gradients:
+                    rmode_gradients[qi] = grads
+
+        freqs = rfreqs[qpts_i]*ureg('hartree').to('meV')
+        if return_eigenvectors:
+            eigenvectors = reigenvecs[qpts_i]
+        else:
+            eigenvectors = None
+
+        mode_gradients = None
+        if return_mode_gradients:
+            max_real = np.amax(np.absolute(rmode_gradients.real))
+            idx = np.where(
+                rmode_gradients.imag/max_real > 1e-10)
+            n_idx = len(idx[0])
+            if n_idx > 0:
+                n_print = n_idx if n_idx < 5 else 5
+                warnings.warn(
+                    f'Unexpected values for mode gradients at {n_idx}/{rmode_gradients.size} '
+                    f'indices {[x for x in zip(*idx)][:n_print]}..., '
+                    f'expected near-zero imaginary elements, got values of '
+                    f'{rmode_gradients.imag[idx][:n_print]}..., compared to a '
+                    f'max real value of {max_real}. Data may have been lost '
+                    f'when casting to real mode gradients',
+                    stacklevel=3)
+            mode_gradients = rmode_gradients.real[qpts_i]*ureg(
+                'hartree*bohr').to(
+                    f'meV*{str(self.crystal.cell_vectors.units)}')
+        return qpts, freqs, weights, eigenvectors, mode_gradients
+
+    def _calculate_phonons_at_q(
+            self,
+            qpt: np.ndarray,
+            fc_img_weighted: np.ndarray,
+            unique_sc_origins: Sequence[Sequence[int]],
+            unique_sc_i: np.ndarray,
+            unique_cell_origins: Sequence[Sequence[int]],
+            unique_cell_i: np.ndarray,
+            all_origins_cart: np.ndarray,
+            dyn_mat_weighting: np.ndarray,
+            recip_asr_correction: np.ndarray,
+            dipole: bool,
+            q_dir: Optional[np.ndarray] = None
+            ) -> Tuple[np.ndarray, np.ndarray, Union[np.ndarray, None]]:
+        """
+        Given a q-point and some precalculated q-independent values,
+        calculate and diagonalise the dynamical matrix and return the
+        frequencies, eigenvectors and optionally mode gradients
+
+        Parameters
+        ----------
+        qpt
+            Shape (3,) float ndarray. The q-point to calculate
+        fc_img_weighted
+            Shape (n_cells_in_sc, 3*n_atoms, 3*n_atoms) float ndarray.
+            The force constants matrix weighted by the number of
+            supercell atom images for each ij displacement
+        unique_sc_origins
+            A list containing 3 lists of the unique supercell image
+            offsets in each direction. The supercell offset is
+            calculated by multiplying the supercell matrix by the
+            supercell image indices (obtained by _get_all_origins()). A
+            list of lists rather than a Numpy array is used as the 3
+            lists are independent and their size is not known
+            beforehand
+        unique_sc_i
+            Shape ((2*n_sc_shells + 1)**3, 3) int ndarray, where
+            n_sc_shells is how many supercells out to go to search for
+            atom images. The indices needed to reconstruct sc_origins
+            from the unique values in unique_sc_origins
+        unique_cell_origins
+            A list containing 3 lists of the unique cell origins in
+            each direction. A list of lists rather than a Numpy array
+            is used as the 3 lists are independent and their size is
+            not known beforehand
+        unique_cell_i
+            Shape (n_cells_in_sc, 3) int ndarray. The indices needed to
+            reconstruct cell_origins from the unique values in
+            unique_cell_origins
+        all_origins_cart
+            Shape (n_cells_in_sc, n_atoms, n_atoms, n_images, 3) or
+            (0, 3) float ndarray. The Cartesian coordinate of each atom
+            in each supercell image. Is only used if calculating
+            dynamical matrix gradients
+        dyn_mat_weighting
+            Shape (3*n_atoms, 3*n_atoms) float ndarray. The dynamical
+            matrix mass weighting
+        recip_asr_correction
+            Shape (3*n_atoms, 3*n_atoms) or (0,) complex ndarray. Is
+            only used if the reciprocal ASR was requested
+        dipole
+            Whether to apply the dipole correction
+        q_dir
+            Shape (3,) float ndarray, the q-direction to use in LO-TO
+            splitting, if applicable
+
+        Returns
+        -------
+        frequencies
+            Shape (3*n_atoms) float ndarray. The phonon frequencies
+        eigenvectors
+            Shape (3*n_atoms, n_atoms, 3) complex ndarray. The
+            eigenvectors
+        mode_gradients
+            Shape (3*n_atoms, 3) complex ndarray. The gradient for
+            each mode
+        """
+        n_atoms = self.crystal.n_atoms
+
+        dyn_mat, dmat_grad = self._calculate_dyn_mat(
+            qpt, fc_img_weighted, unique_sc_origins, unique_sc_i,
+            unique_cell_origins, unique_cell_i, all_origins_cart)
+
+        if dipole:
+            dipole_corr = self._calculate_dipole_correction(
+                qpt, self.crystal, self._born, self._dielectric,
+                self._dipole_init_data)
+            dyn_mat += dipole_corr
+
+        if len(recip_asr_correction) > 0:
+            dyn_mat += recip_asr_correction
+
+        # Calculate LO-TO splitting by calculating non-analytic
+        # correction to dynamical matrix
+        if q_dir is not None:
+            dyn_mat += self._calculate_gamma_correction(q_dir)
+
+        # Mass weight dynamical matrix
+        dyn_mat *= dyn_mat_weighting
+
+        evals, evecs = np.linalg.eigh(dyn_mat, UPLO='U')
+        evecs = np.reshape(np.transpose(evecs),
+                           (3*n_atoms, n_atoms, 3))
+        # Set imaginary frequencies to negative
+        imag_freqs = np.where(evals < 0)
+        evals = np.sqrt(np.abs(evals))
+        evals[imag_freqs] *= -1
+
+        if dmat_grad is not None:
+            n_modes = len(evecs)
+            dmat_grad *= dyn_mat_weighting[..., np.newaxis]
+            evecs_sq_view = np.reshape(evecs, (n_modes, n_modes))
+            mode_grads_xyz = np.einsum(
+                'ij,ik,jkl->il', np.conj(evecs_sq_view),
+                                 evecs_sq_view,
+                                 dmat_grad)/(2*evals[:, np.newaxis])
+            return evals, evecs, mode_grads_xyz
+        else:
+            return evals, evecs, None
+
+    def _calculate_dyn_mat(
+            self,
+            qpt: np.ndarray,
+            fc_img_weighted: np.ndarray,
+            unique_sc_origins: Sequence[Sequence[int]],
+            unique_sc_i: np.ndarray,
+            unique_cell_origins: Sequence[Sequence[int]],
+            unique_cell_i: np.ndarray,
+            all_origins_cart: np.ndarray) -> Tuple[np.ndarray,
+                                                   Optional[np.ndarray]]:
+        """
+        Calculate the non mass weighted dynamical matrix at a specified
+        q-point from the image weighted force constants matrix and the
+        indices specifying the periodic images. See eq. 1.5:
+        http://www.tcm.phy.cam.ac.uk/castep/Phonons_Guide/Castep_Phonons.html
+
+        Parameters
+        ----------
+        qpt
+            Shape (3,) float ndarray. The q-point to calculate
+        fc_img_weighted
+            Shape (n_cells_in_sc, 3*n_atoms, 3*n_atoms) float ndarray.
+            The force constants matrix weighted by the number of
+            supercell atom images for each ij displacement
+        unique_sc_origins
+            A list containing 3 lists of the unique supercell image
+            offsets in each direction. The supercell offset is
+            calculated by multiplying the supercell matrix by the
+            supercell image indices (obtained by _get_all_origins()). A
+            list of lists rather than a Numpy array is used as the 3
+            lists are independent and their size is not known
+            beforehand
+        unique_sc_i
+            Shape ((2*n_sc_shells + 1)**3, 3) int ndarray, where
+            n_sc_shells is how many supercells out to go to search for
+            atom images. The indices needed to reconstruct sc_origins
+            from the unique values in unique_sc_origins
+        unique_cell_origins
+            A list containing 3 lists of the unique cell origins in
+            each direction. A list of lists rather than a Numpy array
+            is used as the 3 lists are independent and their size is
+            not known beforehand
+        unique_cell_i
+            Shape (n_cells_in_sc, 3) int ndarray. The indices needed to
+            reconstruct cell_origins from the unique values in
+            unique_cell_origins
+        all_origins_cart
+            Shape (n_cells_in_sc, n_atoms, n_atoms, n_images, 3) or
+            (0, 3) float ndarray. The Cartesian coordinate of each atom
+            in each supercell image. Is only used if calculating
+            dynamical matrix gradients
+
+        Returns
+        -------
+        dyn_mat
+            Shape (3*n_atoms, 3*n_atoms) complex ndarray. The non mass
+            weighted dynamical matrix at q
+        dyn_mat_grad
+            Shape (3*n_atoms, 3*n_atoms, 3) complex ndarray. The dynamical
+            matrix gradient in each Cartesian direction
+        """
+        sc_image_i = self._sc_image_i
+
+        # Cumulant method: for each ij ion-ion displacement sum phases
+        # for all possible supercell images, then multiply by the cell
+        # phases to account for j ions in different cells. Then multiply
+        # by the image weighted fc matrix for each 3 x 3 ij displacement
+
+        # Make sc_phases 1 longer than necessary, so when summing phases
+        # for supercell images if there is no image, an index of -1 and
+        # hence phase of zero can be used
+        sc_phases = np.zeros(len(unique_sc_i) + 1, dtype=np.complex128)
+        sc_phases[:-1], cell_phases = self._calculate_phases(
+            qpt, unique_sc_origins, unique_sc_i, unique_cell_origins,
+            unique_cell_i)
+        sc_phase_sum = np.sum(sc_phases[sc_image_i],
+                              axis=3)
+
+        ax = np.newaxis
+        ij_phases = cell_phases[:, ax, ax]*sc_phase_sum
+        full_dyn_mat = fc_img_weighted*(
+            ij_phases.repeat(3, axis=2).repeat(3, axis=1))
+        dyn_mat = np.sum(full_dyn_mat, axis=0)
+        if len(all_origins_cart) > 0:
+            all_phases = np.einsum('ijkl,i->ijkl',
+                                   sc_phases[sc_image_i], cell_phases)
+            r_vec_sum = 1j*np.einsum('ijkl,ijklm->ijkm',
+                                     all_phases, all_origins_cart)
+            dmat_gradient = fc_img_weighted[..., ax]*(r_vec_sum.repeat(
+                3, axis=2).repeat(3, axis=1))
+            dmat_gradient = np.sum(dmat_gradient, axis=0)
+            return dyn_mat, dmat_gradient
+        else:
+            return dyn_mat, None
+
+    @staticmethod
+    def _dipole_correction_init(crystal: Crystal,
+                                born: np.ndarray,
+                                dielectric: np.ndarray,
+                                dipole_parameter: float = 1.0
+                                ) -> Dict[str, Union[float, np.ndarray]]:
+        """
+        Calculate the q-independent parts of the long range correction
+        to the dynamical matrix for efficiency. The method used is based
+        on the Ewald sum, see eqs 72-74 from Gonze and Lee PRB 55, 10355
+        (1997)
+
+        Parameters
+        ----------
+        crystal
+            Lattice and atom information
+        born
+            Shape (n_atoms, 3, 3) float Quantity in charge units. The
+            Born charges for each atom.
+        dielectric
+            Shape (3, 3) float Quantity in charge**2/(length*energy)
+            units. The dielectric permittivity tensor.
+        dipole_parameter
+            Changes the cutoff in real/reciprocal space for the dipole
+            Ewald sum. A higher value uses more reciprocal terms.
+
+        Returns
+        -------
+        dipole_init_data
+            A dictionary with the following keys/values:
+            - 'dipole_parameter': float
+                The input dipole parameter
+            - 'lambda': float
+                Scaling factor for the real space sums, derived from
+                dipole_parameter
+            - 'H_ab': (n_cells, n_elems, 3, 3) float ndarray
+                Where n_cells is the number of unit cells in the real
+                space sum, and n_elems is the number of elements in the
+                upper triangular of a (3*n_atoms, 3*n_atoms) matrix.
+            - 'cells': (n_cells, 3) float ndarray
+                The origin coordinates of cells used in the real space
+                sum
+            - 'gvecs_cart': (n_vecs, 3) float ndarray
+                The G vectors used in the reciprocal space sum in
+                Cartesian
+            - 'gvec_phases': (n_vecs, n_atoms) complex ndarray
+                e^i(G.r) for each G vector and atom in the unit cell
+            - 'dipole_q0': (3*n_atoms, 3*n_atoms) float ndarray
+                The dipole correction to the dynamical matrix at
+                q=0
+        """
+        cell_vectors = crystal._cell_vectors
+        recip = crystal.reciprocal_cell().to('1/bohr').magnitude
+        n_atoms = crystal.n_atoms
+        atom_r = crystal.atom_r
+        inv_dielectric = np.linalg.inv(dielectric)
+        sqrt_pi = math.sqrt(math.pi)
+
+        # Make guess for balance between real/recip terms
+        abc_mag = np.linalg.norm(cell_vectors, axis=1)
+        mean_abc_mag = np.prod(abc_mag)**(1.0/3)
+        # Using upper_lambda varname as lambda is a reserved keyword
+        upper_lambda = (sqrt_pi/mean_abc_mag*n_atoms**(1.0/6)
+                        *np.linalg.det(dielectric)**(1.0/6))
+        upper_lambda *= dipole_parameter
+        lambda_2 = upper_lambda**2
+
+        # Set limits and tolerances
+        max_shells = 50
+        frac_tol = 1e-15
+
+        # Calculate q=0 real space term
+        real_q0 = np.zeros((n_atoms, n_atoms, 3, 3))
+        # No. of independent i, j ion entries (to use i, j symmetry to
+        # minimise size of stored H_ab)
+        n_elems = np.sum(range(1, n_atoms + 1))
+        H_ab = np.zeros((0, n_elems, 3, 3))
+        cells = np.zeros((0, 3))
+        atom_r_cart = np.einsum('ij,jk->ik', atom_r, cell_vectors)
+        atom_r_e = np.einsum('ij,jk->ik', atom_r_cart, inv_dielectric)
+        for n in range(max_shells):
+            cells_tmp = ForceConstants._get_shell_origins(n)
+            cells_cart = np.einsum('ij,jk->ik', cells_tmp, cell_vectors)
+            cells_e = np.einsum(
+                'ij,jk->ik', cells_cart, inv_dielectric)
+            H_ab_tmp = np.zeros((len(cells_tmp), n_elems, 3, 3))
+            for i in range(n_atoms):
+                idx = np.sum(range(n_atoms - i, n_atoms), dtype=np.int32)
+                for j in range(i, n_atoms):
+                    if n == 0 and i == j:
+                        continue
+                    rij_cart = atom_r_cart[i] - atom_r_cart[j]
+                    rij_e = atom_r_e[i] - atom_r_e[j]
+                    diffs = rij_cart - cells_cart
+                    deltas = rij_e - cells_e
+                    norms_2 = np.einsum('ij,ij->i', deltas, diffs)*lambda_2
+                    norms = np.sqrt(norms_2)
+
+                    # Calculate H_ab
+                    exp_term = 2*np.exp(-norms_2)/(sqrt_pi*norms_2)
+                    erfc_term = erfc(norms)/(norms*norms_2)
+                    f1 = lambda_2*(3*erfc_term/norms_2 + exp_term*(3/norms_2 + 2))
+                    f2 = erfc_term + exp_term
+                    deltas_ab = np.einsum('ij,ik->ijk', deltas, deltas)
+                    H_ab_tmp[:, idx + j] = (
+                        np.einsum('i,ijk->ijk', f1, deltas_ab)
+                        - np.einsum('i,jk->ijk', f2, inv_dielectric))
+            # End series when current terms are less than the fractional
+            # tolerance multiplied by the term for the cell at R=0
+            if n == 0:
+                r0_max = np.amax(np.abs(H_ab_tmp))
+            if np.amax(np.abs(H_ab_tmp)) > frac_tol*r0_max:
+                H_ab = np.concatenate((H_ab, H_ab_tmp))
+                cells = np.concatenate((cells, cells_tmp))
+            else:
+                break
+        # Use compact H_ab to fill in upper triangular of realspace term
+        real_q0[np.triu_indices(n_atoms)] = np.sum(H_ab, axis=0)
+        real_q0 *= upper_lambda**3/math.sqrt(np.linalg.det(dielectric))
+
+        # Calculate the q=0 reciprocal term
+        recip_q0 = np.zeros((n_atoms, n_atoms, 3, 3), dtype=np.complex128)
+        # Add G = 0 vectors to list, for later calculations when q !=0,
+        # but don't calculate for q=0
+        gvecs_cart = np.array([[0., 0., 0.]])
+        gvec_phases = np.tile([1. + 0.j], (1, n_atoms))
+        for n in range(1, max_shells):
+            gvecs = ForceConstants._get_shell_origins(n)
+            gvecs_cart_tmp = np.einsum('ij,jk->ik', gvecs, recip)
+            gvec_dot_r = np.einsum('ij,kj->ik', gvecs, atom_r)
+            gvec_phases_tmp = np.exp(2j*math.pi*gvec_dot_r)
+            gvecs_ab = np.einsum('ij,ik->ijk', gvecs_cart_tmp, gvecs_cart_tmp)
+            k_len_2 = np.einsum(
+                'ijk,jk->i', gvecs_ab, dielectric)/(4*lambda_2)
+            recip_exp = np.exp(-k_len_2)/k_len_2
+            recip_q0_tmp = np.zeros((n_atoms, n_atoms, 3, 3),
+                                    dtype=np.complex128)
+            for i in range(n_atoms):
+                for j in range(i, n_atoms):
+                    phase_exp = gvec_phases_tmp[:, i]/gvec_phases_tmp[:, j]
+                    recip_q0_tmp[i, j] = np.einsum(
+                        'ijk,i,i->jk', gvecs_ab, phase_exp, recip_exp)
+            # End series when current terms are less than the fractional
+            # tolerance multiplied by the max term for the first shell
+            if n == 1:
+                first_shell_max = np.amax(np.abs(recip_q0_tmp))
+            if np.amax(np.abs(recip_q0_tmp)) > frac_tol*first_shell_max:
+                gvecs_cart = np.concatenate((gvecs_cart, gvecs_cart_tmp))
+                gvec_phases = np.concatenate((gvec_phases, gvec_phases_tmp))
+                recip_q0 += recip_q0_tmp
+            else:
+                break
+        vol = crystal.cell_volume().to('bohr^3').magnitude
+        recip_q0 *= math.pi/(vol*lambda_2)
+
+        # Fill in remaining entries by symmetry
+        for i in range(1, n_atoms):
+            for j in range(i):
+                real_q0[i, j] = np.conj(real_q0[j, i])
+                recip_q0[i, j] = np.conj(recip_q0[j, i])
+
+        # Calculate the q=0 correction, to be subtracted from the
+        # corrected diagonal at each q
+        dipole_q0 = np.zeros((n_atoms, 3, 3), dtype=np.complex128)
+        for i in range(n_atoms):
+            for j in range(n_atoms):
+                for a in range(3):
+                    for b in range(3):
+                        dipole_q0[i, a, b] += np.sum(
+                            np.einsum('i,j', born[i, a, :], born[j, b, :])
+                            *(recip_q0[i, j] - real_q0[i, j]))
+            # Symmetrise 3x3
+            dipole_q0[i] = 0.5*(dipole_q0[i] + np.transpose(dipole_q0[i]))
+
+        dipole_init_data = {}
+        dipole_init_data['dipole_parameter'] = dipole_parameter
+        dipole_init_data['lambda'] = upper_lambda
+        dipole_init_data['H_ab'] = H_ab
+        dipole_init_data['cells'] = cells
+        dipole_init_data['gvecs_cart'] = gvecs_cart
+        dipole_init_data['gvec_phases'] = gvec_phases
+        dipole_init_data['dipole_q0'] = dipole_q0
+        return dipole_init_data
+
+    @staticmethod
+    def _calculate_dipole_correction(
+            q: np.ndarray, crystal: Crystal, born: np.ndarray,
+            dielectric: np.ndarray,
+            dipole_init_data: Dict[str, Union[float, np.ndarray]]
+            ) -> np.ndarray:
+        """
+        Calculate the long range correction to the dynamical matrix
+        using the Ewald sum, see eqs 72-74 from Gonze and Lee PRB 55,
+        10355 (1997)
+
+        Parameters
+        ----------
+        q
+            Shape (3,) float ndarray. The q-point to calculate the
+            correction for.
+        crystal
+            Lattice and atom information
+        born
+            Shape (n_atoms, 3, 3) float Quantity in charge units.
+            The Born charges for each atom.
+        dielectric
+            Shape (3, 3) float Quantity in charge**2/(length*energy)
+            units. The dielectric permittivity tensor.
+        dipole_init_data
+            This should be the same dictionary as output by
+            _dipole_correction_init. See the docstring for that
+            function for details of required keys and values.
+
+        Returns
+        -------
+        corr
+            Shape (3*n_atoms, 3*n_atoms) complex ndarray. The
+            correction to the dynamical matrix.
+        """
+        recip = crystal.reciprocal_cell().to('1/bohr').magnitude
+        n_atoms = crystal.n_atoms
+        atom_r = crystal.atom_r
+        upper_lambda = dipole_init_data['lambda']
+        lambda_2 = upper_lambda**2
+        H_ab = dipole_init_data['H_ab']
+        cells = dipole_init_data['cells']
+        gvec_phases = dipole_init_data['gvec_phases']
+        gvecs_cart = dipole_init_data['gvecs_cart']
+        dipole_q0 = dipole_init_data['dipole_q0']
+        q_norm = q - np.rint(q)  # Normalised q-pt
+
+        # Don't include G=0 vector if q=0
+        if is_gamma(q_norm):
+            gvec_phases = gvec_phases[1:]
+            gvecs_cart = gvecs_cart[1:]
+
+        # Calculate real space term
+        real_dipole = np.zeros((n_atoms, n_atoms, 3, 3), dtype=np.complex128)
+        # Calculate real space phase factor
+        q_dot_ra = np.einsum('i,ji->j', q_norm, cells)
+        real_phases = np.exp(2j*math.pi*q_dot_ra)
+        real_dipole_tmp = np.einsum('i,ijkl->jkl', real_phases, H_ab)
+        idx_u = np.triu_indices(n_atoms)
+        real_dipole[idx_u] = real_dipole_tmp
+        real_dipole *= upper_lambda**3/math.sqrt(np.linalg.det(dielectric))
+
+        # Calculate reciprocal term
+        recip_dipole = np.zeros((n_atoms, n_atoms, 3, 3), dtype=np.complex128)
+        # Calculate q-point phases
+        q_dot_r = np.einsum('i,ji->j', q_norm, atom_r)
+        q_phases = np.exp(2j*math.pi*q_dot_r)
+        q_cart = np.dot(q_norm, recip)
+        # Calculate k-vector symmetric matrix
+        kvecs = gvecs_cart + q_cart
+        kvecs_ab = np.einsum('ij,ik->ijk', kvecs, kvecs)
+        k_len_2 = np.einsum('ijk,jk->i', kvecs_ab, dielectric)/(4*lambda_2)
+        recip_exp = np.einsum('ijk,i->ijk', kvecs_ab, np.exp(-k_len_2)/k_len_2)
+        for i in range(n_atoms):
+                phase_exp = ((gvec_phases[:, i, None]*q_phases[i])
+                             /(gvec_phases[:, i:]*q_phases[i:]))
+                recip_dipole[i, i:] = np.einsum(
+                    'ikl,ij->jkl', recip_exp, phase_exp)
+        cell_volume = crystal.cell_volume().to('bohr^3').magnitude
+        recip_dipole *= math.pi/(cell_volume*lambda_2)
+
+        # Fill in remaining entries by symmetry
+        # Mask so we don't count diagonal twice
+        mask = np.tri(n_atoms, k=-1)[:, :, np.newaxis, np.newaxis]
+        real_dipole = real_dipole + mask*np.conj(
+            np.transpose(real_dipole, axes=[1, 0, 2, 3]))
+        recip_dipole = recip_dipole + mask*np.conj(
+            np.transpose(recip_dipole, axes=[1, 0, 2, 3]))
+
+        # Multiply by Born charges and subtract q=0 from diagonal
+        dipole = np.zeros((n_atoms, n_atoms, 3, 3), dtype=np.complex128)
+        dipole_tmp = recip_dipole - real_dipole
+        for i in range(n_atoms):
+            dipole[i] = np.einsum('ij,klm,kjm->kil',
+                                  born[i], born, dipole_tmp[i])
+            dipole[i, i] -= dipole_q0[i]
+
+        return np.reshape(np.transpose(dipole, axes=[0, 2, 1, 3]),
+                          (3*n_atoms, 3*n_atoms))
+
+    def _get_q_dirs(self, qpts: np.ndarray, qpts_i: np.ndarray,
+                   gamma_idx: np.ndarray) -> np.ndarray:
+        """
+        Get q-directions at gamma points
+
+        Parameters
+        ----------
+        qpts
+            Shape (n_qpts, 3) float ndarray. The q-points.
+        qpts_i
+            Shape (n_qpts,) int ndarray. Describes how to index
+            the 'reduced' q-points back into the full q-points
+            array
+        gamma_idx
+            Shape (n_gamma_points,) int ndarray. The indices
+            of gamma-points in the full q-points array
+
+        Returns
+        -------
+        q_dirs
+            Shape (n_gamma_points, 3 float ndarray. The q-direction
+            for splitting at each gamma point)
+        """
+        q_dirs = np.zeros((len(gamma_idx), 3))
+        if len(qpts) > 1:
+            for i, idx in enumerate(gamma_idx):
+                idx_in_qpts = np.where(qpts_i == idx)[0]
+                # If first q-point
+                if idx_in_qpts == 0:
+                    q_dirs[i] = qpts[1] - qpts[0]
+                # If last q-point
+                elif idx_in_qpts == (len(qpts) - 1):
+                    q_dirs[i] = qpts[-1] - qpts[-2]
+                else:
+                    # If splitting=True there should be an adjacent gamma
+                    # point. Calculate splitting in whichever direction
+                    # isn't gamma
+                    q_dirs[i] = qpts[idx_in_qpts + 1] - qpts[idx_in_qpts]
+                    if is_gamma(q_dirs[i]):
+                        q_dirs[i] = qpts[idx_in_qpts] - qpts[idx_in_qpts - 1]
+        return q_dirs
+
+    def _calculate_gamma_correction(self, q_dir: np.ndarray) -> np.ndarray:
+        """
+        Calculate non-analytic correction to the dynamical matrix at q=0
+        for a specified direction of approach. See Eq. 60 of X. Gonze
+        and C. Lee, PRB (1997) 55, 10355-10368.
+
+        Parameters
+        ----------
+        q_dir
+            Shape (3,) float ndarray. The direction along which q
+            approaches 0, in reciprocal fractional coordinates
+
+        Returns
+        -------
+        na_corr
+            Shape (3*n_atoms, 3*n_atoms) complex ndarray. The
+            correction to the dynamical matrix
+        """
+        n_atoms = self.crystal.n_atoms
+        born = self._born
+        dielectric = self._dielectric
+        na_corr = np.zeros((3*n_atoms, 3*n_atoms), dtype=np.complex128)
+
+        if is_gamma(q_dir):
+            return na_corr
+
+        recip_cell = self.crystal.reciprocal_cell().to('1/bohr').magnitude
+        q_dir_cart = np.einsum('ij,i->j', recip_cell, q_dir)
+
+        cell_volume = self.crystal.cell_volume().to('bohr^3').magnitude
+        denominator = np.einsum('ij,i,j', dielectric, q_dir_cart, q_dir_cart)
+        factor = 4*math.pi/(cell_volume*denominator)
+
+        q_born_sum = np.einsum('ijk,k->ij', born, q_dir_cart)
+        for i in range(n_atoms):
+            for j in range(n_atoms):
+                na_corr[3*i:3*(i+1), 3*j:3*(j+1)] = np.einsum(
+                    'i,j->ij', q_born_sum[i], q_born_sum[j])
+        na_corr *= factor
+
+        return na_corr
+
+    @staticmethod
+    def _get_shell_origins(n: int) -> np.ndarray:
+        """
+        Given the shell number, compute all the cell origins that lie in
+        that shell
+
+        Parameters
+        ----------
+        n
+            The shell number
+
+        Returns
+        -------
+        origins
+            Shape ((2*n + 1)**3 - (2*n - 1)**3, 3) int ndarray. The
+            cell origins. Note: if n = 0, origins = [[0, 0, 0]]
+        """
+
+        if n == 0:
+            return np.array([[0, 0, 0]], dtype=np.int32)
+
+        # Coordinates of cells in xy plane where z=0, xz plane where
+        # y=0, yz plane where x=0. Note: to avoid duplicating cells at
+        # the edges, the xz plane has (2*n + 1) - 2 rows in z, rather
+        # than (2*n + 1). The yz plane also has (2*n + 1) - 2 rows in z
+        # and (2*n + 1) - 2 columns in y
+        xy = get_all_origins((n+1, n+1, 1), min_xyz=(-n, -n, 0))
+        xz = get_all_origins((n+1, 1, n), min_xyz=(-n, 0, -n+1))
+        yz = get_all_origins((1, n, n), min_xyz=(0, -n+1, -n+1))
+
+        # Offset each plane by n and -n to get the 6 planes that make up
+        # the shell
+        origins = np.zeros(((2*n+1)**3-(2*n-1)**3, 3), dtype=np.int32)
+        for i, ni in enumerate([-n, n]):
+            origins[i*len(xy):(i+1)*len(xy)] = xy
+            origins[i*len(xy):(i+1)*len(xy), 2] = ni
+            io = 2*len(xy)
+            origins[io+i*len(xz):io+(i+1)*len(xz)] = xz
+            origins[io+i*len(xz):io+(i+1)*len(xz), 1] = ni
+            io = 2*(len(xy) + len(xz))
+            origins[io+i*len(yz):io+(i+1)*len(yz)] = yz
+            origins[io+i*len(yz):io+(i+1)*len(yz), 0] = ni
+
+        return origins
+
+    def _enforce_realspace_asr(self) -> np.ndarray:
+        """
+        Apply a transformation to the force constants matrix so that it
+        satisfies the acousic sum rule. Diagonalise, shift the acoustic
+        modes to almost zero then construct the correction to the force
+        constants matrix using the eigenvectors. For more information
+        see section 2.3.4:
+        http://www.tcm.phy.cam.ac.uk/castep/Phonons_Guide/Castep_Phonons.html
+
+        Returns
+        -------
+        force_constants
+            Shape (n_cells_in_sc, 3*n_atoms, 3*n_atoms) float ndarray. The
+            corrected force constants matrix
+        """
+        n_cells_in_sc = self.n_cells_in_sc
+        n_atoms = self.crystal.n_atoms
+        n_atoms_in_sc = n_cells_in_sc*n_atoms
+        force_constants = self._force_constants
+
+        sc_rel_idx = _get_supercell_relative_idx(self.cell_origins,
+                                                 self.sc_matrix)
+
+        # Compute square matrix from compact force constants
+        sq_fc = np.zeros((3*n_atoms_in_sc, 3*n_atoms_in_sc))
+        for nc in range(n_cells_in_sc):
+            sq_fc[3*nc*n_atoms:3*(nc+1)*n_atoms, :] = np.transpose(
+                np.reshape(force_constants[sc_rel_idx[nc]],
+                           (3*n_cells_in_sc*n_atoms, 3*n_atoms)))
+
+        try:
+            ac_i, evals, evecs = self._find_acoustic_modes(sq_fc)
+        except Exception:
+            warnings.warn((
+                '\nError correcting for acoustic sum rule, could not '
+                'find 3 acoustic modes.\nReturning uncorrected FC '
+                'matrix'), stacklevel=3)
+            return self._force_constants
+
+        # Correct fc matrix - set acoustic modes to almost zero
+        fc_tol = 1e-8*np.min(np.abs(evals))
+        for ac in ac_i:
+            sq_fc -= (fc_tol + evals[ac])*np.einsum(
+                'i,j->ij', evecs[:, ac], evecs[:, ac])
+
+        fc = np.reshape(sq_fc[:, :3*n_atoms],
+                        (n_cells_in_sc, 3*n_atoms, 3*n_atoms))
+
+        return fc
+
+    def _enforce_reciprocal_asr(self, dyn_mat_gamma: np.ndarray
+            ) -> np.ndarray:
+        """
+        Calculate the correction to the dynamical matrix that would have
+        to be applied to satisfy the acousic sum rule. Diagonalise the
+        gamma-point dynamical matrix, shift the acoustic modes to almost
+        zero then reconstruct the dynamical matrix using the
+        eigenvectors. For more information see section 2.3.4:
+        http://www.tcm.phy.cam.ac.uk/castep/Phonons_Guide/Castep_Phonons.html
+
+        Parameters
+        ----------
+        dyn_mat_gamma
+            Shape (3*n_atoms, 3*n_atoms) complex ndarray. The non
+            mass-weighted dynamical matrix at gamma
+
+        Returns
+        -------
+        dyn_mat
+            Shape (3*n_atoms, 3*n_atoms) complex ndarray or empty array
+            The corrected, non mass-weighted dynamical matrix at q.
+            Returns empty array if finding the 3 acoustic modes fails
+        """
+        tol = 5e-15
+
+        try:
+            ac_i, g_evals, g_evecs = self._find_acoustic_modes(
+                dyn_mat_gamma)
+        except Exception:
+            warnings.warn(('\nError correcting for acoustic sum rule, '
+                           'could not find 3 acoustic modes.\nNot '
+                           'correcting dynamical matrix'), stacklevel=3)
+            return np.array([], dtype=np.complex128)
+
+        n_atoms = self.crystal.n_atoms
+        recip_asr_correction = np.zeros((3*n_atoms, 3*n_atoms),
+                                        dtype=np.complex128)
+        for i, ac in enumerate(ac_i):
+            recip_asr_correction -= (tol*i + g_evals[ac])*np.einsum(
+                'i,j->ij', g_evecs[:, ac], g_evecs[:, ac])
+
+        return recip_asr_correction
+
+    def _find_acoustic_modes(self, dyn_mat: np.ndarray
+            ) -> Tuple[np.ndarray, np.ndarray, np.ndarray]:
+        """
+        Find the acoustic modes from a dynamical matrix, they should
+        have the sum of c of m amplitude squared = mass (note: have not
+        actually included mass weighting here so assume mass = 1.0)
+
+        Parameters
+        ----------
+        dyn_mat
+            Shape (3*n_atoms, 3*n_atoms) complex ndarray. A dynamical
+            matrix
+
+        Returns
+        -------
+        ac_i
+            Shape (3,) int ndarray. The indices of the acoustic modes
+        evals
+            Shape (3*n_atoms) float ndarray. Dynamical matrix
+            eigenvalues
+        evecs
+            Shape (3*n_atoms, n_atoms, 3) complex ndarray. Dynamical
+            matrix eigenvectors
+        """
+        n_branches = dyn_mat.shape[0]
+        n_atoms = int(n_branches/3)
+
+        evals, evecs = np.linalg.eigh(dyn_mat, UPLO='U')
+        evec_reshape = np.reshape(
+            np.transpose(evecs), (n_branches, n_atoms, 3))
+        # Sum displacements for all ions in each branch
+        c_of_m_disp = np.sum(evec_reshape, axis=1)
+        c_of_m_disp_sq = np.sum(np.abs(c_of_m_disp)**2, axis=1)
+        sensitivity = 0.5
+        sc_mass = 1.0*n_atoms
+        # Check number of acoustic modes
+        if np.sum(c_of_m_disp_sq > sensitivity*sc_mass) < 3:
+            raise Exception('Could not find 3 acoustic modes')
+        # Find idx of acoustic modes (3 largest c of m displacements)
+        ac_i = np.argsort(c_of_m_disp_sq)[-3:]
+
+        return ac_i, evals, evecs
+
+    def _calculate_phases(
+            self,
+            qpt: np.ndarray,
+            unique_sc_origins: Sequence[Sequence[int]],
+            unique_sc_i: np.ndarray,
+            unique_cell_origins: Sequence[Sequence[int]],
+            unique_cell_i: np.ndarray) -> Tuple[np.ndarray, np.ndarray]:
+        """
+        Calculate the phase factors for the supercell images and cells
+        for a single q-point. The unique supercell and cell origins
+        indices are required to minimise expensive exp and power
+        operations
+
+        Parameters
+        ----------
+        qpt
+            Shape (3,) float ndarray. The q-point to calculate
+        unique_sc_origins
+            A list containing 3 lists of the unique supercell image
+            offsets in each direction. The supercell offset is
+            calculated by multiplying the supercell matrix by the
+            supercell image indices (obtained by _get_all_origins()). A
+            list of lists rather than a Numpy array is used as the 3
+            lists are independent and their size is not known
+            beforehand
+        unique_sc_i
+            Shape ((2*n_sc_shells + 1)**3, 3) int ndarray, where
+            n_sc_shells is how many supercells out to go to search for
+            atom images. The indices needed to reconstruct sc_origins
+            from the unique values in unique_sc_origins
+        unique_cell_origins
+            A list containing 3 lists of the unique cell origins in
+            each direction. A list of lists rather than a Numpy array
+            is used as the 3 lists are independent and their size is
+            not known beforehand
+        unique_cell_i
+            Shape (n_cells_in_sc, 3) int ndarray. The indices needed to
+            reconstruct cell_origins from the unique values in
+            unique_cell_origins
+
+        Returns
+        -------
+        sc_phases
+            Shape (unique_sc_i,) float ndarray. Phase factors exp(iq.r)
+            for each supercell image coordinate in sc_origins
+        cell_phases
+            Shape (unique_cell_i,) float ndarray. Phase factors
+            exp(iq.r) for each cell coordinate in the supercell
+        """
+
+        # Only calculate exp(iq) once, then raise to power to get the
+        # phase at different supercell/cell coordinates to minimise
+        # expensive exp calculations
+        # exp(iq.r) = exp(iqh.ra)*exp(iqk.rb)*exp(iql.rc)
+        #           = (exp(iqh)^ra)*(exp(iqk)^rb)*(exp(iql)^rc)
+        phase = np.exp(2j*math.pi*qpt)
+        sc_phases = np.ones(len(unique_sc_i), dtype=np.complex128)
+        cell_phases = np.ones(len(unique_cell_i), dtype=np.complex128)
+        for i in range(3):
+            unique_sc_phases = np.power(phase[i], unique_sc_origins[i])
+            sc_phases *= unique_sc_phases[unique_sc_i[:, i]]
+
+            unique_cell_phases = np.power(phase[i], unique_cell_origins[i])
+            cell_phases *= unique_cell_phases[unique_cell_i[:, i]]
+
+        return sc_phases, cell_phases
+
+    def _is_outdated(self, attr_name: str,
+                     *inputs: Union[np.ndarray, float]) -> bool:
+        """
+        Whether an attribute that is stored between calculations has to
+        be calculated (again), because it hasn't been calculated yet or
+        the values it was calculated from have since been changed. In
+        that case any existing value is removed.
+
+        Parameters
+        ----------
+        attr_name
+            The name of the attribute the result is stored in
+        *inputs
+            The current values of everything the result depends on
+        """
+        all_inputs = self.__dict__.setdefault('_stored_inputs', {})
+        if (hasattr(self, attr_name) and attr_name in all_inputs
+                and all(map(np.array_equal, all_inputs[attr_name], inputs))):
+            return False
+        if hasattr(self, attr_name):
+            delattr(self, attr_name)
+        all_inputs[attr_name] = [np.copy(value) for value in inputs]
+        return True
+
+    def _calculate_supercell_images(self, n_sc_shells: int) -> None:
+        """
+        For each displacement of ion i in the unit cell and ion j in
+        the supercell, calculate the number of supercell periodic
+        images there are and which supercells they reside in, and sets
+        the _sc_image_i, and _n_sc_images ForceConstants attributes
+
+        Parameters
+        ----------
+        n_sc_shells
+            The number of supercells out to go to search for atom
+            images
+        """
+
+        n_atoms = self.crystal.n_atoms
+        cell_vectors = self.crystal._cell_vectors
+        atom_r = self.crystal.atom_r
+        cell_origins = self.cell_origins
+        n_cells_in_sc = self.n_cells_in_sc
+        sc_matrix = self.sc_matrix
+        ax = np.newaxis
+
+        # List of points defining Wigner-Seitz cell
+        ws_frac = np.array([[0, 0, 0], [0, 0, 1], [0, 1, 0], [0, 1, 1],
+                            [0, 1, -1], [1, 0, 0], [1, 0, 1], [1, 0, -1],
+                            [1, 1, 0], [1, 1, 1], [1, 1, -1], [1, -1, 0],
+                            [1, -1, 1], [1, -1, -1]])
+        cutoff_scale = 1.0
+
+        # Calculate points of WS cell for this supercell
+        sc_vecs = np.einsum('ji,ik->jk', sc_matrix, cell_vectors)
+        ws_list = np.einsum('ij,jk->ik', ws_frac, sc_vecs)
+        inv_ws_sq = 1.0/np.sum(np.square(ws_list[1:]), axis=1)
+        ws_list_norm = ws_list[1:]*inv_ws_sq[:, ax]
+
+        # Get Cartesian coords of supercell images and ions in supercell
+        sc_image_r = get_all_origins(
+            np.repeat(n_sc_shells, 3) + 1, min_xyz=-np.repeat(n_sc_shells, 3))
+        sc_image_cart = np.einsum('ij,jk->ik', sc_image_r, sc_vecs)
+        sc_atom_cart = np.einsum('ijk,kl->ijl',
+                                 cell_origins[:, ax, :] + atom_r[ax, :, :],
+                                 cell_vectors)
+
+        sc_image_i = np.full(
+            (n_cells_in_sc, n_atoms, n_atoms, (2*n_sc_shells + 1)**3),
+            -1, dtype=np.int32)
+        n_sc_images = np.zeros((n_cells_in_sc, n_atoms, n_atoms),
+                               dtype=np.int32)
+
+        # Ordering of loops here is for efficiency:
+        # ions in unit cell -> periodic supercell images -> WS points
+        # This is so the ion-ion vectors in each loop will be similar,
+        # so they are more likely to pass/fail the WS check together
+        # so the last loop can be broken early
+        for i in range(n_atoms):
+            rij = sc_atom_cart[0, i] - sc_atom_cart
+            for im, sc_r in enumerate(sc_image_cart):
+                # Get vector between j in sc image and i in unit cell
+                dists = rij - sc_r
+                # Only want to include images where ion < halfway to ALL
+                # ws points, so compare vector to all ws points
+                for n, wsp in enumerate(ws_list_norm):
+                    dist_wsp = np.absolute(np.sum(dists*wsp, axis=-1))
+                    if n == 0:
+                        nc_idx, nj_idx = np.where(
+                            dist_wsp <= (0.5*cutoff_scale + 0.001)
+                        )
+                        # Reindex dists to remove elements where the ion
+                        # is > halfway to WS point for efficiency
+                        dists = dists[nc_idx, nj_idx]
+                    else:
+                        # After first reindex, dists is now 1D so need
+                        # to reindex like this instead
+                        idx = np.where(
+                            dist_wsp <= (0.5*cutoff_scale + 0.001)
+                        )[0]
+                        nc_idx = nc_idx[idx]
+                        nj_idx = nj_idx[idx]
+                        dists = dists[idx]
+                    if len(nc_idx) == 0:
+                        break
+                    # If ion-ion vector has been < halfway to all WS
+                    # points, this is a valid image! Save it
+                    if n == len(ws_list_norm) - 1:
+                        n_im_idx = n_sc_images[nc_idx, i, nj_idx]
+                        sc_image_i[nc_idx, i, nj_idx, n_im_idx] = im
+                        n_sc_images[nc_idx, i, nj_idx] += 1
+
+        self._n_sc_images = n_sc_images
+        # Truncate sc_image_i to the maximum ACTUAL images rather than
+        # the maximum possible images to avoid storing and summing over
+        # nonexistent images
+        self._sc_image_i = sc_image_i[:, :, :, :np.max(n_sc_images)]
+
+    def to_dict(self) -> Dict[str, Any]:
+        """
+        Convert to a dictionary. See ForceConstants.from_dict for
+        details on keys/values
+
+        Returns
+        -------
+        dict
+        """
+        dout = _obj_to_dict(self, ['crystal', 'force_constants',
+                                   'n_cells_in_sc', 'sc_matrix',
+                                   'cell_origins', 'born',
+                                   'dielectric'])
+        return dout
+
+    def to_json_file(self, filename: str) -> None:
+        """
+        Write to a JSON file. JSON fields are equivalent to
+        ForceConstants.from_dict keys
+
+        Parameters
+        ----------
+        filename
+            Name of the JSON file to write to
+        """
+        _obj_to_json_file(self, filename)
+
+    @classmethod
+    def from_dict(cls: Type[T], d: Dict[str, Any]) -> T:
+        """
+        Convert a dictionary to a ForceConstants object
+
+        Parameters
+        ----------
+        d
+            A dictionary with the following keys/values:
+
+            - 'crystal': dict, see Crystal.from_dict
+            - 'force_constants': (n_cells_in_sc, 3*crystal.n_atoms, 3*crystal.n_atoms) float ndarray
+            - 'force_constants_unit': str
+            - 'sc_matrix': (3,3) int ndarray
+            - 'cell_origins': (n_cells_in_sc, 3) int ndarray
+
+            There are also the following optional keys:
+
+            - 'born': (3*crystal.n_atoms, 3, 3) float ndarray
+            - 'born_unit': str
+            - 'dielectric': (3, 3) float ndarray
+            - 'dielectric_unit': str
+
+        Returns
+        -------
+        forceconstants
+        """
+        crystal = Crystal.from_dict(d['crystal'])
+        d = _process_dict(
+            d, quantities=['force_constants', 'born', 'dielectric'],
+            optional=['born', 'dielectric'])
+        return cls(crystal, d['force_constants'], d['sc_matrix'],
+                   d['cell_origins'], d['born'], d['dielectric'])
+
+    @classmethod
+    def from_total_fc_with_dipole(
+            cls: Type[T], crystal: Crystal, force_constants: Quantity,
+            sc_matrix: np.ndarray, cell_origins: np.ndarray, born: Quantity,
+            dielectric: Quantity) -> T:
+        """
+        Subtracts a dipole term from the input force constants matrix
+        to convert the 'total' force constants matrix containing both
+        dipole-dipole interactions and short-ranged interactions to one
+        containing only short-ranged interactions, as defined in eq. 78
+        from [4]_ . This correction may need to be applied as Euphonic
+        requires the short-ranged matrix, whereas some codes output the
+        total matrix (e.g Phonopy, but note that the from_phonopy
+        method will apply this correction automatically). If the force
+        constants matrix is already short ranged or the material has
+        zero Born effective charges or dielectric permittivity tensor
+        this correction should not be applied.
+
+        .. [4] X. Gonze and C. Lee., Phys. Rev. B, 1997, 55, 10355-10368
+
+        Parameters
+        ----------
+        force_constants
+            Shape (n_cells_in_sc, 3*n_atoms, 3*n_atoms) float Quantity
+            in energy/length**2 units. The 'total' force constants
+            matrix containing both dipole-dipole interactions and
+            short-ranged interactions.
+        crystal
+            Lattice and atom information
+        sc_matrix
+            Shape (3, 3) int ndarray. The transformation matrix to
+            convert from the unit cell vectors to the supercell vectors
+        cell_origins
+            Shape (n_cells_in_sc, 3) int ndarray. The origin
+            coordinates of each unit cell within the supercell, in
+            units of the unit cell vectors
+        born
+            Shape (n_atoms, 3, 3) float Quantity in charge units. The
+            Born charges for each atom
+        dielectric
+            Shape (3, 3) float Quantity in charge**2/(length*energy)
+            units. The dielectric permittivity tensor
+
+        Returns
+        -------
+        forceconstants
+        """
+        n_atoms = crystal.n_atoms
+        n_cells = len(cell_origins)
+        # The dynamical matrix of the supercell at Q=0 is equivalent
+        # to the unit cell FC. Correct FC by calculating the dipole
+        # correction to the supercell dynamical matrix and subtracting
+        # it from the FC.
+        # First create Crystal and Born charges for supercell
+        sc_atom_r = (np.repeat(cell_origins, n_atoms, axis=0)
+                     + np.tile(crystal.atom_r, (n_cells, 1)))
+        sc_to_u_matrix = np.linalg.inv(sc_matrix).transpose()
+        sc_atom_r_scell = np.einsum('ij,jk->ik', sc_atom_r, sc_to_u_matrix)
+        sc_vecs = np.einsum('ji,ik->jk', sc_matrix, crystal._cell_vectors)
+        sc_mass = np.tile(crystal._atom_mass, n_cells)
+        sc_crystal = Crystal(sc_vecs*ureg('bohr'), sc_atom_r_scell,
+                             np.tile(crystal.atom_type, n_cells),
+                             sc_mass*ureg('m_e'))
+        sc_born = np.tile(born.to(ureg('e')).magnitude,
+                          (n_cells, 1, 1))
+        dielectric_au = dielectric.to('e**2/(bohr*hartree)').magnitude
+        # Now initialise, calculate and subtract the dipole correction
+        dipole_data = cls._dipole_correction_init(
+            sc_crystal, sc_born, dielectric_au)
+        corr = cls._calculate_dipole_correction(
+            np.array([0., 0., 0.]), sc_crystal, sc_born,
+            dielectric_au, dipole_data)
+        corr = np.transpose(
+            np.reshape(corr[:, :3*n_atoms], (n_cells, 3*n_atoms, 3*n_atoms)),
+            axes=[0, 2, 1])
+        fc = force_constants.to('hartree/bohr**2').magnitude
+        fc_corrected = np.real(fc - corr)*ureg('hartree/bohr**2').to(
+            force_constants.units)
+        return cls(crystal, fc_corrected, sc_matrix, cell_origins,
+                   born=born, dielectric=dielectric)
+
+    @classmethod
+    def from_json_file(cls: Type[T], filename: str) -> T:
+        """
+        Read from a JSON file. See ForceConstants.from_dict for required
+        fields
+
+        Parameters
+        ----------
+        filename
+            The file to read from
+
+        Returns
+        -------
+        forceconstants
+        """
+        return _obj_from_json_file(cls, filename)
+
+    @classmethod
+    def from_castep(cls: Type[T], filename: str) -> T:
+        """
+        Reads from a .castep_bin or .check file
+
+        Parameters
+        ----------
+        filename
+            The path and name of the file to read
+
+        Returns
+        -------
+        forceconstants
+        """
+        data = castep.read_interpolation_data(filename)
+        return cls.from_dict(data)
+
+    @classmethod
+    def from_phonopy(cls: Type[T],
+                     path: str = '.',
+                     summary_name: str = 'phonopy.yaml',
+                     born_name: Optional[str] = None,
+                     fc_name: str = 'FORCE_CONSTANTS',
+                     fc_format: Optional[str] = None) -> T:
+        """
+        Reads data from the phonopy summary file (default phonopy.yaml)
+        and optionally born and force constants files. Only attempts to
+        read from born or force constants files if these can't be found
+        in the summary file.
+
+        Parameters
+        ----------
+        path
+            Path to directory containing the file(s)
+        summary_name
+            Filename of phonopy summary file, default phonopy.yaml. By
+            default any information (e.g. force constants) read from
+            this file takes priority
+        born_name
+            Name of the Phonopy file containing born charges and
+            dielectric tensor (by convention in Phonopy this would be
+            called BORN). Is only read if Born charges can't be found in
+            the summary_name file
+        fc_name
+            Name of file containing force constants. Is only read if
+            force constants can't be found in summary_name
+        fc_format
+            One of {'phonopy', 'hdf5'}. Format of file containing force
+            constants data, if it can't be determined from the
+            extension. FORCE_CONSTANTS is type 'phonopy'
+
+        Returns
+        -------
+        forceconstants
+        """
+        data = phonopy.read_interpolation_data(
+            path=path, summary_name=summary_name, born_name=born_name,
+            fc_name=fc_name, fc_format=fc_format)
+        fc = cls.from_dict(data)
+        if fc.born is not None:
+            fc = cls.from_total_fc_with_dipole(
+                fc.crystal, fc.force_constants, fc.sc_matrix, fc.cell_origins,
+                born=fc.born, dielectric=fc.dielectric)
+        return fc
-- 
2.43.0


From 2d41969d1a621d764598dfcafc305f3bb92ea4d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:26:04 +0000
Subject: [PATCH 37/38] fix: write complex arrays of any memory order or
 precision to JSON

---
 euphonic/io.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/euphonic/io.py b/euphonic/io.py
index efdc34b..04bb7e8 100644
--- a/euphonic/io.py
+++ b/euphonic/io.py
@@ -16,8 +16,8 @@ def _to_json_dict(dictionary: Dict[str, Any]) -> Dict[str, Any]:
     """
     for key, val in dictionary.items():
         if isinstance(val, np.ndarray):
-            if val.dtype == np.complex128:
-                val = val.view(np.float64).reshape(val.shape + (2,))
+            if np.iscomplexobj(val):
+                val = np.stack([val.real, val.imag], axis=-1)
             dictionary[key] = val.tolist()
         elif isinstance(val, dict):
             if key != 'metadata':
-- 
2.43.0


From 015d02164daf7f59f86d6c9684e455eedc9eb69f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:26:05 +0000
Subject: [PATCH 38/38] fix: write numpy scalars, e.g. an integer temperature,
 to JSON

---
 euphonic/io.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/euphonic/io.py b/euphonic/io.py
index 04bb7e8..4c2b650 100644
--- a/euphonic/io.py
+++ b/euphonic/io.py
@@ -19,6 +19,8 @@ def _to_json_dict(dictionary: Dict[str, Any]) -> Dict[str, Any]:
             if np.iscomplexobj(val):
                 val = np.stack([val.real, val.imag], axis=-1)
             dictionary[key] = val.tolist()
+        elif isinstance(val, np.generic):
+            dictionary[key] = val.item()
         elif isinstance(val, dict):
             if key != 'metadata':
                 dictionary[key] = _to_json_dict(val)
-- 
2.43.0

