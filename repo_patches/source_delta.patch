From ef5e39572dab07b352e4d364f05841b04fd3ee16 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:07 +0000
Subject: [PATCH 01/58] fix: cached results must depend on distance, seed
 arrays and full state, and be copies

The memoize key ignored the default/zero distance difference, positional
distances and array seeds beyond 8 digits, particle distributions without
param_names and the distribution class, and joined values without separators.
The cache also handed out the stored array itself.
---
 src/naima/model_utils.py | 66 +++++++++++++++++++++++++---------------
 1 file changed, 42 insertions(+), 24 deletions(-)

diff --git a/src/naima/model_utils.py b/src/naima/model_utils.py
index 634b875..c35b9da 100644
--- a/src/naima/model_utils.py
+++ b/src/naima/model_utils.py
@@ -1,12 +1,34 @@
 # -*- coding: utf-8 -*-
 # Licensed under a 3-clause BSD style license - see LICENSE.rst
-import hashlib
+import copy
 import warnings
 
 import numpy as np
 from astropy import units as u
 
 
+def _cache_key(obj):
+    """Hashable, lossless representation of ``obj`` for the memoize cache
+
+    Raises TypeError if there is no such representation, in which case results
+    that depend on ``obj`` must not be cached.
+    """
+    if isinstance(obj, u.Quantity):
+        return ("quantity", obj.unit.to_string(), _cache_key(obj.value))
+    elif isinstance(obj, np.ndarray):
+        if obj.dtype.hasobject:
+            raise TypeError("Unable to cache object arrays")
+        return ("array", obj.dtype.str, obj.shape, obj.tobytes())
+    elif isinstance(obj, dict):
+        return ("dict",) + tuple((k, _cache_key(v)) for k, v in obj.items())
+    elif isinstance(obj, (list, tuple)):
+        return ("sequence",) + tuple(_cache_key(v) for v in obj)
+    elif obj is None or isinstance(obj, (str, bool, int, float, complex, np.generic)):
+        # distinguish types so that, e.g., 1 and True have different keys
+        return (type(obj).__name__, repr(obj))
+    raise TypeError("Unable to cache results for {0}".format(type(obj)))
+
+
 def memoize(func):
     """Cache decorator for functions inside model classes"""
 
@@ -31,34 +53,30 @@ def memoize(func):
             except (TypeError, ValueError, IndexError):
                 pass
 
-            try:
-                # tostring is 10 times faster than str(array).encode()
-                bstr = energy.value.tobytes()
-            except AttributeError:
-                # scalar Quantity
-                bstr = str(energy.value).encode()
-
-            data = [hashlib.sha256(bstr).hexdigest()]
-
-            data.append(energy.unit.to_string())
-            data.append(str(kwargs.get("distance", 0)))
-
-            if args:
-                data.append(str(args))
             if hasattr(cls, "particle_distribution"):
                 models = [cls, cls.particle_distribution]
             else:
                 models = [cls]
-            for model in models:
-                if hasattr(model, "param_names"):
-                    for par in model.param_names:
-                        data.append(str(getattr(model, par)))
 
-            token = "".join(data)
-            digest = hashlib.sha256(token.encode()).hexdigest()
+            try:
+                data = [_cache_key(energy), _cache_key(args), _cache_key(kwargs)]
+                for model in models:
+                    # the results of models that do not declare all their
+                    # parameters (e.g., plain functions) cannot be cached
+                    data.append(type(model))
+                    data.append(
+                        tuple(
+                            _cache_key(getattr(model, par))
+                            for par in model.param_names
+                        )
+                    )
+                digest = tuple(data)
+            except (AttributeError, TypeError):
+                memoize = False
 
-            if digest in cache:
-                return cache[digest]
+        if memoize and digest in cache:
+            # do not hand out the cached object: it could be modified
+            return copy.deepcopy(cache[digest])
 
         result = func(cls, energy, *args, **kwargs)
 
@@ -69,7 +87,7 @@ def memoize(func):
                 cache.pop(key, None)
             # save last result to cache
             queue.append(digest)
-            cache[digest] = result
+            cache[digest] = copy.deepcopy(result)
 
         return result
 
-- 
2.43.0


From 6b0917ec24916c4e5d31142c2bf90a3f1c2062a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:14 +0000
Subject: [PATCH 02/58] fix: inverse Compton seed fluxes must belong to the
 current state and a valid seed

The contribution of a seed was read from the last computed spectrum, stale if
the total was served from the cache; seed == number of seeds and negative
numbers were not rejected; seds of a seed failed for dicts and tables.
---
 src/naima/radiative.py | 23 +++++++++++++++--------
 1 file changed, 15 insertions(+), 8 deletions(-)

diff --git a/src/naima/radiative.py b/src/naima/radiative.py
index 3db562e..dac9312 100644
--- a/src/naima/radiative.py
+++ b/src/naima/radiative.py
@@ -727,9 +727,9 @@ class InverseCompton(BaseElectron):
             is required. If set to None it will return the sum of all
             contributions (default).
         """
-        model = super().flux(photon_energy, distance=distance)
-
-        if seed is not None:
+        if seed is None:
+            model = super().flux(photon_energy, distance=distance)
+        else:
             # Test seed argument
             if not isinstance(seed, int):
                 if seed not in self.seed_photon_fields:
@@ -739,7 +739,7 @@ class InverseCompton(BaseElectron):
                     )
                 else:
                     seed = list(self.seed_photon_fields.keys()).index(seed)
-            elif seed > len(self.seed_photon_fields):
+            elif not 0 <= seed < len(self.seed_photon_fields):
                 raise ValueError(
                     "Provided seed photon field number is larger"
                     " than the number of seed photon fields defined in the"
@@ -754,7 +754,12 @@ class InverseCompton(BaseElectron):
                 dfac = 1
                 out_unit = "1/(s eV)"
 
-            model = (self.specic[seed] / dfac).to(out_unit)
+            # self.specic might belong to a previous computation, so compute
+            # the contribution of this seed for the current parameters
+            outspecene = _validate_ene(photon_energy)
+            seedname = list(self.seed_photon_fields.keys())[seed]
+            spec = self._calc_specic(seedname, outspecene).to("1/(s eV)")
+            model = (spec / dfac).to(out_unit)
 
         return model
 
@@ -775,14 +780,16 @@ class InverseCompton(BaseElectron):
             is required. If set to None it will return the sum of all
             contributions (default).
         """
-        sed = super().sed(photon_energy, distance=distance)
-
-        if seed is not None:
+        if seed is None:
+            sed = super().sed(photon_energy, distance=distance)
+        else:
             if distance != 0:
                 out_unit = "erg/(cm2 s)"
             else:
                 out_unit = "erg/s"
 
+            photon_energy = _validate_ene(photon_energy)
+
             sed = (
                 self.flux(photon_energy, distance=distance, seed=seed)
                 * photon_energy**2.0
-- 
2.43.0


From 5919efc445f6c091e73885be3eca3e44c712b95f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:20 +0000
Subject: [PATCH 03/58] fix: radiative models accept scalar photon energies and
 return scalars

As documented, the photon energy may be a float: InverseCompton and both pion
decay models raised TypeError, and the others returned arrays of length one.
---
 src/naima/radiative.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/naima/radiative.py b/src/naima/radiative.py
index dac9312..07ffc51 100644
--- a/src/naima/radiative.py
+++ b/src/naima/radiative.py
@@ -99,7 +99,10 @@ class BaseRadiative:
             luminosity will be returned. Default is 1 kpc.
         """
 
-        spec = self._spectrum(photon_energy)
+        photon_energy = _validate_ene(photon_energy)
+        spec = self._spectrum(np.atleast_1d(photon_energy))
+        if photon_energy.isscalar:
+            spec = spec[0]
 
         if distance != 0:
             distance = validate_scalar("distance", distance, physical_type="length")
@@ -758,7 +761,10 @@ class InverseCompton(BaseElectron):
             # the contribution of this seed for the current parameters
             outspecene = _validate_ene(photon_energy)
             seedname = list(self.seed_photon_fields.keys())[seed]
-            spec = self._calc_specic(seedname, outspecene).to("1/(s eV)")
+            spec = self._calc_specic(seedname, np.atleast_1d(outspecene))
+            spec = spec.to("1/(s eV)")
+            if outspecene.isscalar:
+                spec = spec[0]
             model = (spec / dfac).to(out_unit)
 
         return model
-- 
2.43.0


From 9f129208ec39a97c27713ef5b31b466d3b305f40 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:28 +0000
Subject: [PATCH 04/58] fix: set_We and set_Wp must not modify an amplitude
 shared with other objects

---
 src/naima/radiative.py | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/src/naima/radiative.py b/src/naima/radiative.py
index 07ffc51..cddc24c 100644
--- a/src/naima/radiative.py
+++ b/src/naima/radiative.py
@@ -223,7 +223,11 @@ class BaseElectron(BaseRadiative):
 
         if amplitude_name is None:
             try:
-                self.particle_distribution.amplitude *= (We / oldWe).decompose()
+                # do not modify in place an amplitude that might be shared
+                oldampl = self.particle_distribution.amplitude
+                self.particle_distribution.amplitude = (
+                    oldampl * (We / oldWe).decompose()
+                )
             except AttributeError:
                 log.error(
                     "The particle distribution does not have an attribute"
@@ -1093,7 +1097,11 @@ class BaseProton(BaseRadiative):
 
         if amplitude_name is None:
             try:
-                self.particle_distribution.amplitude *= (Wp / oldWp).decompose()
+                # do not modify in place an amplitude that might be shared
+                oldampl = self.particle_distribution.amplitude
+                self.particle_distribution.amplitude = (
+                    oldampl * (Wp / oldWp).decompose()
+                )
             except AttributeError:
                 log.error(
                     "The particle distribution does not have an attribute"
-- 
2.43.0


From f9de6cae4c5f5078cab616186e8331d158936478 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:20:37 +0000
Subject: [PATCH 05/58] fix: bremsstrahlung with a zero ee or ep weight has the
 unit of an emissivity

As documented, weight_ep = 0 gives pure electron-electron bremsstrahlung: it
raised UnitConversionError.
---
 src/naima/radiative.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/naima/radiative.py b/src/naima/radiative.py
index cddc24c..80d398f 100644
--- a/src/naima/radiative.py
+++ b/src/naima/radiative.py
@@ -959,7 +959,7 @@ class Bremsstrahlung(BaseElectron):
         Electron-electron bremsstrahlung emissivity per unit photon energy
         """
         if self.weight_ee == 0.0:
-            return np.zeros_like(Eph)
+            return np.zeros(Eph.shape) * u.Unit(u.cm**3 / u.s / Eph.unit)
 
         gam = np.vstack(self._gam)
         # compute integral with electron distribution
@@ -975,7 +975,7 @@ class Bremsstrahlung(BaseElectron):
         Electron-proton bremsstrahlung emissivity per unit photon energy
         """
         if self.weight_ep == 0.0:
-            return np.zeros_like(Eph)
+            return np.zeros(Eph.shape) * u.Unit(u.cm**3 / u.s / Eph.unit)
 
         gam = np.vstack(self._gam)
         eps = (Eph / mec2).decompose().value
-- 
2.43.0


From 98cfbdd7af3b208690dcb8a8f738988e2dc34658 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:36:38 +0000
Subject: [PATCH 06/58] fix: EBL transmission beyond the opacity table must
 stay absorbed

Above 100 TeV the opacity was log10(6000) = 3.8 whatever the redshift, so that
the transmission jumped up from ~0 to 0.02 (and down from 1 for z < 0.01). It
also slightly exceeded 1 and failed for scalar energies.
---
 src/naima/models.py | 12 ++++--------
 1 file changed, 4 insertions(+), 8 deletions(-)

diff --git a/src/naima/models.py b/src/naima/models.py
index aed3e17..d663d7b 100644
--- a/src/naima/models.py
+++ b/src/naima/models.py
@@ -541,12 +541,8 @@ class EblAbsorptionModel(TableModel):
 
     def transmission(self, e):
         e = _validate_ene(e)
-        taus = np.zeros(len(e))
-        for i in range(0, len(e)):
-            if e[i].to("GeV").value < 1.0:
-                taus[i] = 0.0
-            elif e[i].to("TeV").value > 100.0:
-                taus[i] = np.log10(6000.0)
-            else:
-                taus[i] = np.log10(self(e[i]))
+        # beyond the table use the opacity at its last energy; the cubic
+        # interpolation might be slightly negative where there is no absorption
+        taus = np.log10(self(np.clip(e, self._energy[0], self._energy[-1])).value)
+        taus = np.where(e < 1 * u.GeV, 0.0, np.maximum(taus, 0.0))
         return np.exp(-taus)
-- 
2.43.0


From 457d1564a567d96b39caf0e137b4b6d299d8ad44 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:42:56 +0000
Subject: [PATCH 07/58] fix: reject mixed differential fluxes and luminosities
 with TypeError

The physical types were compared by exact name, so that differential types were
never matched and concatenation failed with ValueError from add_row.
---
 src/naima/utils.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/src/naima/utils.py b/src/naima/utils.py
index e12bbf1..2be99b0 100644
--- a/src/naima/utils.py
+++ b/src/naima/utils.py
@@ -92,9 +92,8 @@ def validate_data_table(data_table, sed=None):
 
     for dt in data_list[1:]:
         nf_pt = dt["flux"].unit.physical_type
-        if ("flux" in nf_pt and "power" in f_pt) or (
-            "power" in nf_pt and "flux" in f_pt
-        ):
+        # either of them might be differential, e.g., "differential power"
+        if ("power" in str(nf_pt)) != ("power" in str(f_pt)):
             raise TypeError(
                 "The physical types of the data tables could not be "
                 "matched: Some are in flux and others in luminosity units"
-- 
2.43.0


From 6bba6ba749824005a2893fb9bb395e1b09e3a714 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:42:56 +0000
Subject: [PATCH 08/58] fix: energy edges of unsorted spectra must be derived
 from neighbouring energies

Negative and meaningless bin widths were assigned if the rows of a data table
were not sorted in energy.
---
 src/naima/utils.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/naima/utils.py b/src/naima/utils.py
index 2be99b0..690b077 100644
--- a/src/naima/utils.py
+++ b/src/naima/utils.py
@@ -356,13 +356,18 @@ def trapz_loglog(y, x, axis=-1, intervals=False):
 
 def _generate_energy_edges_single(ene):
     """Generate energy edges for single group"""
+    # the neighbours of each energy are needed: do not rely on the order of ene
+    order = np.argsort(ene)
+    ene = ene[order]
     midene = np.sqrt((ene[1:] * ene[:-1]))
     elo, ehi = np.zeros(len(ene)) * ene.unit, np.zeros(len(ene)) * ene.unit
     elo[1:] = ene[1:] - midene
     ehi[:-1] = midene - ene[:-1]
     elo[0] = ene[0] * (1 - ene[0] / (ene[0] + ehi[0]))
     ehi[-1] = elo[-1]
-    return u.Quantity([elo, ehi])
+    edges = np.zeros((2, len(ene))) * ene.unit
+    edges[:, order] = u.Quantity([elo, ehi])
+    return edges
 
 
 def generate_energy_edges(ene, groups=None):
-- 
2.43.0


From 40cb1adbb6a64677310e89e517db9f988298f9fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:42:56 +0000
Subject: [PATCH 09/58] fix: accept upper limit flags of any integer type

Only the platform's default integer was accepted: flags read from FITS files
(int16, int32) were rejected.
---
 src/naima/utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/naima/utils.py b/src/naima/utils.py
index 690b077..15208b6 100644
--- a/src/naima/utils.py
+++ b/src/naima/utils.py
@@ -173,7 +173,7 @@ def _validate_single_data_table(data_table, group=0):
     if "ul" in data_table.keys():
         # Check if it is a integer or boolean flag
         ul_col = data_table["ul"]
-        if ul_col.dtype.type is np.int_ or ul_col.dtype.type is np.bool_:
+        if np.issubdtype(ul_col.dtype, np.integer) or ul_col.dtype.type is np.bool_:
             data["ul"] = np.array(ul_col, dtype=bool)
         elif ul_col.dtype.type is np.str_:
             strbool = True
-- 
2.43.0


From 5a0efe8990711ed1445f42dde03ecf52e8af9459 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:45:50 +0000
Subject: [PATCH 10/58] fix: validating a validated table must keep its
 confidence levels

The cl column of a validated (or saved and read) table was reset to 90%.
---
 src/naima/utils.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/naima/utils.py b/src/naima/utils.py
index 15208b6..24c82bc 100644
--- a/src/naima/utils.py
+++ b/src/naima/utils.py
@@ -201,7 +201,10 @@ def _validate_single_data_table(data_table, group=0):
             CL = validate_scalar("cl", data_table.meta["keywords"]["cl"]["value"])
             data["cl"] = [CL] * len(data["energy"])
 
-    if not HAS_CL:
+    if not HAS_CL and "cl" in data_table.colnames:
+        # avoid overwriting the confidence levels of a validated table
+        data["cl"] = data_table["cl"]
+    elif not HAS_CL:
         data["cl"] = [0.9] * len(data["energy"])
         if np.sum(data["ul"]) > 0:
             log.warning(
-- 
2.43.0


From 76ffb1c15d7e4d35217b88431fdd4bf545ec6cbe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:58:05 +0000
Subject: [PATCH 11/58] fix: each violated upper limit contributes with its own
 confidence level

The number of violated limits was used as index into the cl column.
---
 src/naima/core.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/naima/core.py b/src/naima/core.py
index c397c6a..e0ee06c 100644
--- a/src/naima/core.py
+++ b/src/naima/core.py
@@ -88,8 +88,8 @@ def lnprobmodel(model, data):
 
     if np.sum(ul) > 0:
         # deal with upper limits at CL set by data['cl']
-        violated_uls = np.sum(model[ul] > data["flux"][ul])
-        totallogprob += violated_uls * np.log(1.0 - data["cl"][violated_uls])
+        violated = model[ul] > data["flux"][ul]
+        totallogprob += np.sum(np.log(1.0 - data["cl"][ul][violated]))
 
     return totallogprob
 
-- 
2.43.0


From 7682212f2d3fb6ab5d5e654ddc1c3cf95e337fe8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:58:05 +0000
Subject: [PATCH 12/58] fix: normal and log-uniform priors must be logarithms
 of their densities

---
 src/naima/core.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/naima/core.py b/src/naima/core.py
index e0ee06c..f7077df 100644
--- a/src/naima/core.py
+++ b/src/naima/core.py
@@ -41,7 +41,7 @@ def uniform_prior(value, umin, umax):
 
 def normal_prior(value, mean, sigma):
     """Normal prior distribution."""
-    return -0.5 * (2 * np.pi * sigma) - (value - mean) ** 2 / (2.0 * sigma)
+    return -0.5 * np.log(2 * np.pi * sigma**2) - (value - mean) ** 2 / (2.0 * sigma**2)
 
 
 def log_uniform_prior(value, umin=0, umax=None):
@@ -49,11 +49,11 @@ def log_uniform_prior(value, umin=0, umax=None):
     if value > 0 and value >= umin:
         if umax is not None:
             if value <= umax:
-                return 1 / value
+                return -np.log(value)
             else:
                 return -np.inf
         else:
-            return 1 / value
+            return -np.log(value)
     else:
         return -np.inf
 
-- 
2.43.0


From 4c9dc9f31127fe6fff7266f44fb6e2d4f08a32e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:58:21 +0000
Subject: [PATCH 13/58] fix: get_sampler must not modify the p0 and labels it
 is given

Also, guess did not work for integer p0 and treated capitalised Log(norm)
and Log10(norm) as linear parameters.
---
 src/naima/core.py | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/src/naima/core.py b/src/naima/core.py
index f7077df..f81df39 100644
--- a/src/naima/core.py
+++ b/src/naima/core.py
@@ -341,11 +341,15 @@ def get_sampler(
     if model is None:
         raise TypeError("Model function is missing!")
 
+    # Work on copies, the arguments must not be modified
+    p0 = np.array(p0, dtype=float)
+
     # Add parameter labels if not provided or too short
     if labels is None:
         # First is normalization
         labels = ["norm"] + ["par{0}".format(i) for i in range(1, len(p0))]
-    elif len(labels) < len(p0):
+    else:
+        labels = list(labels)
         labels += ["par{0}".format(i) for i in range(len(labels), len(p0))]
 
     # Check that the model returns fluxes in same physical type as data
@@ -400,9 +404,9 @@ def get_sampler(
                 data["energy"],
             )
             ratio = dataFlux / currFlux
-            if labels[idxs[0]].startswith("log("):
+            if labels[idxs[0]].lower().startswith("log("):
                 p0[idxs[0]] += np.log(ratio)
-            elif labels[idxs[0]].startswith("log10("):
+            elif labels[idxs[0]].lower().startswith("log10("):
                 p0[idxs[0]] += np.log10(ratio)
             else:
                 p0[idxs[0]] *= ratio
-- 
2.43.0


From 8bec092d43cd6d433c6028f257f5c189cd26c718 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:58:21 +0000
Subject: [PATCH 14/58] fix: runs with parallel workers can be resumed and may
 have no steps

---
 src/naima/core.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/naima/core.py b/src/naima/core.py
index f81df39..cdbf684 100644
--- a/src/naima/core.py
+++ b/src/naima/core.py
@@ -125,6 +125,7 @@ def lnprob(pars, data, modelfunc, priorfunc):
 
 
 def _run_mcmc(sampler, pos, nrun):
+    state = emcee.State(pos)
     for i, state in enumerate(sampler.sample(pos, iterations=nrun, store=True)):
         progress = 100.0 * float(i) / float(nrun)
         if progress % 5 < (5.0 / float(nrun)):
@@ -538,5 +539,7 @@ def run_sampler(nrun=100, sampler=None, pos=None, **kwargs):
         sampler._naima_pool.close()
         sampler._naima_pool.join()
         sampler._naima_pool = None
+        # do not use the closed pool if the run is resumed
+        sampler.pool = None
 
     return sampler, pos
-- 
2.43.0


From 172bfa24d6e8ddc01c745300a6ce624f08246515 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:58:21 +0000
Subject: [PATCH 15/58] fix: simplex minimisation of integer start points

The simplex was truncated to integers and hence degenerate.
---
 src/naima/extern/minimize.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/naima/extern/minimize.py b/src/naima/extern/minimize.py
index a4ebaeb..3cdbec1 100644
--- a/src/naima/extern/minimize.py
+++ b/src/naima/extern/minimize.py
@@ -77,7 +77,7 @@ def _minimize_neldermead(
     retall = return_all
 
     fcalls, func = wrap_function(func, args)
-    x0 = asarray(x0).flatten()
+    x0 = asarray(x0, dtype=float).flatten()
     N = len(x0)
     rank = len(x0.shape)
     if not -1 < rank < 2:
-- 
2.43.0


From 9ebaf18887a5fb82f93f2bcf8af0f7904434777a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:59:07 +0000
Subject: [PATCH 16/58] fix: model outputs of equal shape lost their units in
 the sampler blobs

---
 src/naima/core.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/naima/core.py b/src/naima/core.py
index cdbf684..ecc8e46 100644
--- a/src/naima/core.py
+++ b/src/naima/core.py
@@ -105,7 +105,11 @@ def lnprob(pars, data, modelfunc, priorfunc):
     # Save blobs or save model if no blobs given
     if isinstance(modelout, Iterable) and not isinstance(modelout, np.ndarray):
         model = modelout[0]
-        blob = modelout
+        blob = tuple(modelout)
+        if np.array([blob], dtype=object).ndim > 2:
+            # outputs of equal shape would be stored as a single array without
+            # units: add a dummy object blob as below
+            blob = (*blob, np.nan)
     else:
         model = modelout
         # Avoid squeezing of the model output in order to retain units by
-- 
2.43.0


From 8b0819e605c17a8147227dcf51ee96b166246b76 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:25:41 +0000
Subject: [PATCH 17/58] fix: get_sampler must reject models whose units do not
 match the data

Models returning e.g. luminosities for flux data passed the check.
---
 src/naima/core.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/naima/core.py b/src/naima/core.py
index ecc8e46..d9e7c79 100644
--- a/src/naima/core.py
+++ b/src/naima/core.py
@@ -371,8 +371,10 @@ def get_sampler(
     try:
         # If both can be converted to differential flux, they can be compared
         # Otherwise, sed_conversion will raise a u.UnitsError
-        sed_conversion(data["energy"], spec.unit, False)
-        sed_conversion(data["energy"], data["flux"].unit, False)
+        munit, _ = sed_conversion(data["energy"], spec.unit, False)
+        dunit, _ = sed_conversion(data["energy"], data["flux"].unit, False)
+        if not munit.is_equivalent(dunit):
+            raise u.UnitsError
     except u.UnitsError:
         raise u.UnitsError(
             "The physical type of the model and data units are not compatible,"
-- 
2.43.0


From 717fe148c4195b80f83f2f1f9ccc9fba0692653e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:32:06 +0000
Subject: [PATCH 18/58] fix: bremsstrahlung at photon energies equal to an
 electron energy is finite

---
 src/naima/radiative.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/naima/radiative.py b/src/naima/radiative.py
index 80d398f..7a18766 100644
--- a/src/naima/radiative.py
+++ b/src/naima/radiative.py
@@ -862,7 +862,7 @@ class Bremsstrahlung(BaseElectron):
         s1 = 4 * r0**2 * alpha / eps / mec2_unit
         s2 = 1 + (1.0 / 3.0 - eps / gam) * (1 - eps / gam)
         s3 = np.log(2 * gam * (gam - eps) / eps) - 1.0 / 2.0
-        s3[np.where(gam < eps)] = 0.0
+        s3[np.where(gam <= eps)] = 0.0
         return s1 * s2 * s3
 
     @staticmethod
-- 
2.43.0


From 220c54891e19c83223db508085eae2828198d754 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:32:06 +0000
Subject: [PATCH 19/58] fix: interpolated pion-decay cross sections must not be
 negative

---
 src/naima/radiative.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/naima/radiative.py b/src/naima/radiative.py
index 7a18766..5723d75 100644
--- a/src/naima/radiative.py
+++ b/src/naima/radiative.py
@@ -1815,7 +1815,9 @@ class LookupTable:
         self.fname = filename
 
     def __call__(self, X, Y):
-        return self.int_lut(np.log10(X), np.log10(Y)).flatten()
+        z = self.int_lut(np.log10(X), np.log10(Y)).flatten()
+        # the spline oscillates around zero where the tabulated values vanish
+        return np.maximum(z, 0.0)
 
 
 def _calc_lut_pp(args):  # pragma: no cover
-- 
2.43.0


From bac8059867c64eb195c19694b0ef444292aa08a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:32:06 +0000
Subject: [PATCH 20/58] fix: bremsstrahlung at low photon energies lost all
 precision

---
 src/naima/radiative.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/naima/radiative.py b/src/naima/radiative.py
index 5723d75..d4b5842 100644
--- a/src/naima/radiative.py
+++ b/src/naima/radiative.py
@@ -878,7 +878,13 @@ class Bremsstrahlung(BaseElectron):
         s1_2 = -1 / eps**2 + 3 / eps - 4 - 4 * eps - 8 * eps**2
         s1_3 = -2 * (1 - 2 * eps) * np.log(1 - 2 * eps)
         s1_4 = 1 / (4 * eps**3) - 1 / (2 * eps**2) + 3 / eps - 2 + 4 * eps
-        s1 = s1_1 + s1_2 + s1_3 * s1_4
+        # s1_2 and s1_3 * s1_4 cancel at low photon energies: use their expansion
+        s1_234 = np.where(
+            eps < 1e-3,
+            28.0 / 3.0 - 70.0 / 3.0 * eps + 128.0 / 15.0 * eps**2,
+            s1_2 + s1_3 * s1_4,
+        )
+        s1 = s1_1 + s1_234
 
         s2_1 = 2 / eps
         s2_2 = (4 - 1 / eps + 1 / (4 * eps**2)) * np.log(2 * gam)
-- 
2.43.0


From 3d1d147c6854535817ce8895ec4660d113a32ed5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:35:29 +0000
Subject: [PATCH 21/58] fix: bremsstrahlung cross sections must not be negative
 at the kinematic limits

---
 src/naima/radiative.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/naima/radiative.py b/src/naima/radiative.py
index d4b5842..05d6b48 100644
--- a/src/naima/radiative.py
+++ b/src/naima/radiative.py
@@ -862,7 +862,8 @@ class Bremsstrahlung(BaseElectron):
         s1 = 4 * r0**2 * alpha / eps / mec2_unit
         s2 = 1 + (1.0 / 3.0 - eps / gam) * (1 - eps / gam)
         s3 = np.log(2 * gam * (gam - eps) / eps) - 1.0 / 2.0
-        s3[np.where(gam <= eps)] = 0.0
+        # the approximation is negative (or undefined) close to gam = eps
+        s3[~(s3 > 0)] = 0.0
         return s1 * s2 * s3
 
     @staticmethod
@@ -948,6 +949,9 @@ class Bremsstrahlung(BaseElectron):
                 warnings.simplefilter("ignore")
                 sigma[rel_matrix] = self._sigma_ee_rel(gam, eps)[rel_matrix]
 
+        # the approximations are negative close to the kinematic limits
+        sigma[~(sigma > 0)] = 0.0
+
         return sigma.to(u.cm**2 / Eph.unit)
 
     def _sigma_ep(self, gam, eps):
-- 
2.43.0


From 81df87770c8013e064d56f2b387d3d5d4ecf64f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:38:56 +0000
Subject: [PATCH 22/58] Revert "fix: bremsstrahlung cross sections must not be
 negative at the kinematic limits"

This reverts commit 3d1d147c6854535817ce8895ec4660d113a32ed5.
---
 src/naima/radiative.py | 6 +-----
 1 file changed, 1 insertion(+), 5 deletions(-)

diff --git a/src/naima/radiative.py b/src/naima/radiative.py
index 05d6b48..d4b5842 100644
--- a/src/naima/radiative.py
+++ b/src/naima/radiative.py
@@ -862,8 +862,7 @@ class Bremsstrahlung(BaseElectron):
         s1 = 4 * r0**2 * alpha / eps / mec2_unit
         s2 = 1 + (1.0 / 3.0 - eps / gam) * (1 - eps / gam)
         s3 = np.log(2 * gam * (gam - eps) / eps) - 1.0 / 2.0
-        # the approximation is negative (or undefined) close to gam = eps
-        s3[~(s3 > 0)] = 0.0
+        s3[np.where(gam <= eps)] = 0.0
         return s1 * s2 * s3
 
     @staticmethod
@@ -949,9 +948,6 @@ class Bremsstrahlung(BaseElectron):
                 warnings.simplefilter("ignore")
                 sigma[rel_matrix] = self._sigma_ee_rel(gam, eps)[rel_matrix]
 
-        # the approximations are negative close to the kinematic limits
-        sigma[~(sigma > 0)] = 0.0
-
         return sigma.to(u.cm**2 / Eph.unit)
 
     def _sigma_ep(self, gam, eps):
-- 
2.43.0


From 5619343d25f1ca0caa49b6018035f79f13b754c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:38:56 +0000
Subject: [PATCH 23/58] Revert "fix: interpolated pion-decay cross sections
 must not be negative"

This reverts commit 220c54891e19c83223db508085eae2828198d754.
---
 src/naima/radiative.py | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/src/naima/radiative.py b/src/naima/radiative.py
index d4b5842..f68b6a2 100644
--- a/src/naima/radiative.py
+++ b/src/naima/radiative.py
@@ -1821,9 +1821,7 @@ class LookupTable:
         self.fname = filename
 
     def __call__(self, X, Y):
-        z = self.int_lut(np.log10(X), np.log10(Y)).flatten()
-        # the spline oscillates around zero where the tabulated values vanish
-        return np.maximum(z, 0.0)
+        return self.int_lut(np.log10(X), np.log10(Y)).flatten()
 
 
 def _calc_lut_pp(args):  # pragma: no cover
-- 
2.43.0


From 8c300953723aeab3d1abe136848fa75fc9f936d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:38:56 +0000
Subject: [PATCH 24/58] fix: bremsstrahlung and pion-decay spectra must not be
 negative at the kinematic limits

---
 src/naima/radiative.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/naima/radiative.py b/src/naima/radiative.py
index f68b6a2..24f736f 100644
--- a/src/naima/radiative.py
+++ b/src/naima/radiative.py
@@ -1008,6 +1008,8 @@ class Bremsstrahlung(BaseElectron):
         spec = self.n0 * (
             self.weight_ee * self._emiss_ee(Eph) + self.weight_ep * self._emiss_ep(Eph)
         )
+        # the cross-section approximations are negative at the kinematic limits
+        spec[spec < 0] = 0
 
         return spec
 
@@ -1557,6 +1559,8 @@ class PionDecay(BaseProton):
             specpp.append(trapz_loglog(diffsigma * J, Ep))
 
         self.specpp = u.Quantity(specpp)
+        # the interpolated cross section oscillates around zero where it vanishes
+        self.specpp[self.specpp < 0] = 0
 
         self.specpp *= self.nh * c.cgs
 
-- 
2.43.0


From f345c96c418333d6ef751911aa64f254f22aea05 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:50:14 +0000
Subject: [PATCH 25/58] fix: tables without an energy column raise TypeError
 also from cached functions

---
 src/naima/model_utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/naima/model_utils.py b/src/naima/model_utils.py
index c35b9da..f8f2a07 100644
--- a/src/naima/model_utils.py
+++ b/src/naima/model_utils.py
@@ -50,7 +50,7 @@ def memoize(func):
                         getattr(np, "VisibleDeprecationWarning", None),
                     )
                     energy = u.Quantity(energy["energy"])
-            except (TypeError, ValueError, IndexError):
+            except (TypeError, ValueError, LookupError):
                 pass
 
             if hasattr(cls, "particle_distribution"):
-- 
2.43.0


From 5d0a91558a38a172748e3ecb8a4aa6ec72128103 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:44:20 +0000
Subject: [PATCH 26/58] fix: reject negative energies and densities given as
 arrays

---
 src/naima/extern/validator.py | 5 +++++
 src/naima/utils.py            | 2 +-
 2 files changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/naima/extern/validator.py b/src/naima/extern/validator.py
index e6f819f..b4870ab 100644
--- a/src/naima/extern/validator.py
+++ b/src/naima/extern/validator.py
@@ -82,4 +82,9 @@ def validate_array(name, value, domain=None, ndim=1, shape=None, physical_type=N
                 )
             )
 
+    if domain is not None and value.size > 0:
+        # both extremes have to be within the domain
+        for extreme in (np.min(value), np.max(value)):
+            validate_scalar(name, extreme, domain=domain, physical_type=physical_type)
+
     return value
diff --git a/src/naima/utils.py b/src/naima/utils.py
index 24c82bc..ae2750b 100644
--- a/src/naima/utils.py
+++ b/src/naima/utils.py
@@ -20,7 +20,7 @@ __all__ = [
 # Input validation tools
 
 
-def validate_column(data_table, key, pt, domain="positive"):
+def validate_column(data_table, key, pt, domain=None):
     try:
         column = data_table[key]
         array = validate_array(
-- 
2.43.0


From 8a4e78c81388095a61195fc8e04adfab60a47221 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:44:20 +0000
Subject: [PATCH 27/58] fix: seed photon field temperature without a unit
 raises TypeError

---
 src/naima/radiative.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/naima/radiative.py b/src/naima/radiative.py
index 24f736f..401ba91 100644
--- a/src/naima/radiative.py
+++ b/src/naima/radiative.py
@@ -491,6 +491,10 @@ class InverseCompton(BaseElectron):
                         "{0}-theta".format(name), theta, physical_type="angle"
                     )
 
+                if not isinstance(T, u.Quantity):
+                    raise TypeError(
+                        "{0}-T should be given as a Quantity object".format(name)
+                    )
                 thermal = T.unit.physical_type == "temperature"
 
                 if thermal:
-- 
2.43.0


From 39abce51c8f1c606372bfa819057b262a773af28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:44:20 +0000
Subject: [PATCH 28/58] fix: Bremsstrahlung checks that n0 is a number density

---
 src/naima/radiative.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/naima/radiative.py b/src/naima/radiative.py
index 401ba91..1652b4d 100644
--- a/src/naima/radiative.py
+++ b/src/naima/radiative.py
@@ -841,7 +841,7 @@ class Bremsstrahlung(BaseElectron):
 
     def __init__(self, particle_distribution, n0=1 / u.cm**3, **kwargs):
         super().__init__(particle_distribution)
-        self.n0 = n0
+        self.n0 = validate_scalar("n0", n0, physical_type="number density")
         self.Eemin = 100 * u.MeV
         self.Eemax = 1e9 * mec2
         self.nEed = 300
-- 
2.43.0


From debf15632167abce806c6e735d4f9e748c55eb40 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:44:20 +0000
Subject: [PATCH 29/58] fix: PionDecayKelner06 checks its particle distribution

---
 src/naima/radiative.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/naima/radiative.py b/src/naima/radiative.py
index 1652b4d..7609231 100644
--- a/src/naima/radiative.py
+++ b/src/naima/radiative.py
@@ -1615,7 +1615,7 @@ class PionDecayKelner06(BaseRadiative):
     def __init__(
         self, particle_distribution, nh=1.0 / u.cm**3, Etrans=0.1 * u.TeV, **kwargs
     ):
-        self.particle_distribution = particle_distribution
+        super().__init__(particle_distribution)
         self.nh = validate_scalar("nh", nh, physical_type="number density")
         self.Etrans = validate_scalar(
             "Etrans", Etrans, domain="positive", physical_type="energy"
-- 
2.43.0


From 82c54ffd041d9251c8775ac3a369c95ca5562fbb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:47:44 +0000
Subject: [PATCH 30/58] fix: proton energy limits without a unit raise
 TypeError

---
 src/naima/radiative.py | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/src/naima/radiative.py b/src/naima/radiative.py
index 7609231..1442a40 100644
--- a/src/naima/radiative.py
+++ b/src/naima/radiative.py
@@ -1031,10 +1031,12 @@ class BaseProton(BaseRadiative):
     @property
     def _Ep(self):
         """Proton energy array in GeV"""
+        Epmin = validate_scalar("Epmin", self.Epmin, physical_type="energy")
+        Epmax = validate_scalar("Epmax", self.Epmax, physical_type="energy")
         return np.logspace(
-            np.log10(self.Epmin.to("GeV").value),
-            np.log10(self.Epmax.to("GeV").value),
-            max(10, int(self.nEpd * (np.log10(self.Epmax / self.Epmin)))),
+            np.log10(Epmin.to("GeV").value),
+            np.log10(Epmax.to("GeV").value),
+            max(10, int(self.nEpd * (np.log10(Epmax / Epmin)))),
         )
 
     @property
@@ -1067,6 +1069,8 @@ class BaseProton(BaseRadiative):
                 Epmax = self.Epmax
             if Epmin is None:
                 Epmin = self.Epmin
+            Epmin = validate_scalar("Epmin", Epmin, physical_type="energy")
+            Epmax = validate_scalar("Epmax", Epmax, physical_type="energy")
 
             log10Epmin = np.log10(Epmin.to("GeV").value)
             log10Epmax = np.log10(Epmax.to("GeV").value)
-- 
2.43.0


From d06334dc0ece4e232a395ec9aec01a8136ca5e6c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:58:05 +0000
Subject: [PATCH 31/58] fix: results table with last_step uses the last step
 instead of the last walker

---
 src/naima/analysis.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/naima/analysis.py b/src/naima/analysis.py
index 70d500b..6c92058 100644
--- a/src/naima/analysis.py
+++ b/src/naima/analysis.py
@@ -239,7 +239,8 @@ def save_results_table(
     labels = sampler.labels
 
     if last_step:
-        dists = sampler.get_chain()[:, -1, :]
+        # chain has dimensions (step, walker, parameter)
+        dists = sampler.get_chain()[-1]
     else:
         dists = sampler.get_chain(flat=True)
 
-- 
2.43.0


From e6c700657344e4fa5764b94f0ab7e4f206f259e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:58:24 +0000
Subject: [PATCH 32/58] fix: labels with text before the logarithm in results
 table and chain plots

---
 src/naima/analysis.py | 6 +++---
 src/naima/plot.py     | 6 +++---
 2 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/naima/analysis.py b/src/naima/analysis.py
index 6c92058..db2362b 100644
--- a/src/naima/analysis.py
+++ b/src/naima/analysis.py
@@ -288,10 +288,10 @@ def save_results_table(
 
         if convert_log and ("log10(" in label or "log(" in label):
             nlabel = label.split("(")[-1].split(")")[0]
-            ltype = label.split("(")[0]
-            if ltype == "log10":
+            # the label might have more text before the logarithm
+            if "log10(" in label:
                 new_dist = 10**dist
-            elif ltype == "log":
+            else:
                 new_dist = np.exp(dist)
 
             quantiles = dict(zip(quant, np.percentile(new_dist, quant)))
diff --git a/src/naima/plot.py b/src/naima/plot.py
index 72c610d..c2e2e4d 100644
--- a/src/naima/plot.py
+++ b/src/naima/plot.py
@@ -243,10 +243,10 @@ def _plot_chain_func(sampler, p, last_step=False):
 
     if "log10(" in label or "log(" in label:
         nlabel = label.split("(")[-1].split(")")[0]
-        ltype = label.split("(")[0]
-        if ltype == "log10":
+        # the label might have more text before the logarithm
+        if "log10(" in label:
             new_dist = 10**dist
-        elif ltype == "log":
+        else:
             new_dist = np.exp(dist)
 
         quant = [16, 50, 84]
-- 
2.43.0


From 8dc6577e780618b12bc1efcf72f54822e42a04bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:58:24 +0000
Subject: [PATCH 33/58] fix: results table ignores outputs that are not numbers
 instead of failing

---
 src/naima/analysis.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/naima/analysis.py b/src/naima/analysis.py
index db2362b..44d05f7 100644
--- a/src/naima/analysis.py
+++ b/src/naima/analysis.py
@@ -1,5 +1,6 @@
 # Licensed under a 3-clause BSD style license - see LICENSE.rst
 import os
+from numbers import Number
 from pathlib import Path
 
 import astropy.units as u
@@ -311,7 +312,7 @@ def save_results_table(
                 if blob0.size == 1:
                     IS_SCALAR = True
                     unit = blob0.unit
-            elif np.isscalar(blob0):
+            elif isinstance(blob0, Number):
                 IS_SCALAR = True
                 unit = None
 
-- 
2.43.0


From ae3cbd5feb9e3885b71e4aa72f878e59f4fd80ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:59:43 +0000
Subject: [PATCH 34/58] fix: saved runs keep the outputs after one that cannot
 be saved, and all of several arrays

---
 src/naima/analysis.py | 74 ++++++++++++++++++-------------------------
 1 file changed, 31 insertions(+), 43 deletions(-)

diff --git a/src/naima/analysis.py b/src/naima/analysis.py
index 44d05f7..d6e1d95 100644
--- a/src/naima/analysis.py
+++ b/src/naima/analysis.py
@@ -413,7 +413,7 @@ def save_run(filename, sampler, compression=True, clobber=False):
             if isinstance(item, u.Quantity):
                 # scalar or array quantity
                 units = [item.unit.to_string()]
-            elif isinstance(item, float):
+            elif isinstance(item, Number):
                 units = [""]
             elif (isinstance(item, tuple) or isinstance(item, list)) and np.all(
                 [isinstance(x, np.ndarray) for x in item]
@@ -427,7 +427,7 @@ def save_run(filename, sampler, compression=True, clobber=False):
             else:
                 log.warning(
                     "blob number {0} has unknown format and cannot be saved "
-                    "in HDF5 file"
+                    "in HDF5 file".format(idx)
                 )
                 continue
 
@@ -442,7 +442,7 @@ def save_run(filename, sampler, compression=True, clobber=False):
             blobdataset = group.create_dataset(
                 "blob{0}".format(idx), data=blob, compression=compression
             )
-            if len(units) > 1:
+            if isinstance(item, (tuple, list)):
                 for j, unit in enumerate(units):
                     blobdataset.attrs["unit{0}".format(j)] = unit
             else:
@@ -535,53 +535,41 @@ def read_run(filename, modelfn=None):
     result.log_prob = np.array(f["mcmc/log_prob"])
 
     # blobs
-    result_blobs = []
-    nsteps, nwalkers, nblobs = result.chain.shape
-    blobs = []
-    blobrank = []
-    for i in range(100):
-        # first read each of the blobs and convert to Quantities
-        try:
-            ds = f["mcmc/blob{0}".format(i)]
-            rank = np.ndim(ds[0])
-            blobrank.append(rank)
-            if rank <= 1:
-                blobs.append(u.Quantity(ds[()], unit=ds.attrs["unit"]))
-            else:
-                blob = []
-                for j in range(np.ndim(ds[0])):
-                    blob.append(
-                        u.Quantity(ds[:, j, :], unit=ds.attrs["unit{0}".format(j)])
-                    )
-                blobs.append(blob)
-        except KeyError:
-            break
-
-    # Now organize in an awful list of lists of arrays
-    for step in range(nsteps):
-        steplist = []
-        for walker in range(nwalkers):
-            n = step * nwalkers + walker
-            walkerblob = []
-            for j in range(len(blobs)):
-                if blobrank[j] <= 1:
-                    walkerblob.append(blobs[j][n])
-                else:
-                    blob = []
-                    for k in range(blobrank[j]):
-                        blob.append(blobs[j][k][n])
-                    walkerblob.append(blob)
-            steplist.append(walkerblob)
-        result_blobs.append(steplist)
+    nsteps, nwalkers, npars = result.chain.shape
+    # the indices of outputs that could not be saved are missing
+    idxs = [
+        int(name[4:])
+        for name in f["mcmc"].keys()
+        if name.startswith("blob") and name[4:].isdigit()
+    ]
+    nblobs = max(idxs) + 1 if idxs else 0
+    blobs = np.empty((nsteps * nwalkers, nblobs), dtype=np.dtype("object"))
+    for i in idxs:
+        # read each of the blobs and convert to Quantities
+        ds = f["mcmc/blob{0}".format(i)]
+        values = ds[()]
+        if "unit" in ds.attrs:
+            unit = u.Unit(ds.attrs["unit"])
+            for n in range(nsteps * nwalkers):
+                blobs[n, i] = u.Quantity(values[n], unit=unit)
+        else:
+            # several arrays per sample, each with its unit
+            units = [
+                u.Unit(ds.attrs["unit{0}".format(k)]) for k in range(values.shape[1])
+            ]
+            for n in range(nsteps * nwalkers):
+                blobs[n, i] = [
+                    u.Quantity(v, unit=unit) for v, unit in zip(values[n], units)
+                ]
 
-    result._blobs = np.array(result_blobs, dtype=np.dtype("object"))
+    result._blobs = blobs.reshape((nsteps, nwalkers, nblobs))
 
     # run info
     result.run_info = dict(f["mcmc"].attrs)
     result.acceptance_fraction = f["mcmc"].attrs["acceptance_fraction"]
     # labels
     result.labels = []
-    for i in range(nblobs):
+    for i in range(npars):
         result.labels.append(f["mcmc"].attrs["label{0}".format(i)])
 
     # data
-- 
2.43.0


From f971895afbe6629e9e3c20fd779b3d100f141e0d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:00:39 +0000
Subject: [PATCH 35/58] fix: plot_fit uses the outputs stored in a run read
 from file

---
 src/naima/plot.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/naima/plot.py b/src/naima/plot.py
index c2e2e4d..fd42e06 100644
--- a/src/naima/plot.py
+++ b/src/naima/plot.py
@@ -840,7 +840,7 @@ def plot_fit(
 
     data = sampler.data
 
-    if e_range is None and not hasattr(sampler, "blobs"):
+    if e_range is None and sampler.get_blobs() is None:
         e_range = data["energy"][[0, -1]] * np.array((1.0 / 3.0, 3.0))
 
     if plotdata is None and len(model_ML[0]) == len(data["energy"]):
-- 
2.43.0


From 4676ad81432cf8f144cd941be0ec55173a4e78a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:03:31 +0000
Subject: [PATCH 36/58] fix: save_run of outputs with several quantities

---
 src/naima/analysis.py | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/src/naima/analysis.py b/src/naima/analysis.py
index d6e1d95..7675658 100644
--- a/src/naima/analysis.py
+++ b/src/naima/analysis.py
@@ -415,8 +415,10 @@ def save_run(filename, sampler, compression=True, clobber=False):
                 units = [item.unit.to_string()]
             elif isinstance(item, Number):
                 units = [""]
-            elif (isinstance(item, tuple) or isinstance(item, list)) and np.all(
-                [isinstance(x, np.ndarray) for x in item]
+            elif (
+                isinstance(item, (tuple, list))
+                and np.all([isinstance(x, np.ndarray) for x in item])
+                and len({x.shape for x in item}) == 1
             ):
                 units = []
                 for x in item:
@@ -437,7 +439,12 @@ def save_run(filename, sampler, compression=True, clobber=False):
             for step in sampler.get_blobs():
                 for walkerblob in step:
                     blob.append(walkerblob[idx])
-            blob = u.Quantity(blob).value
+            if isinstance(item, (tuple, list)):
+                blob = np.array(
+                    [[u.Quantity(x).to_value(n) for x, n in zip(b, units)] for b in blob]
+                )
+            else:
+                blob = u.Quantity(blob, unit=units[0]).value
 
             blobdataset = group.create_dataset(
                 "blob{0}".format(idx), data=blob, compression=compression
-- 
2.43.0


From d0746c8f1f44fbaa3c3134044e4d4a462974ddad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:04:32 +0000
Subject: [PATCH 37/58] fix: find_ML returns a copy of the parameters instead
 of a view of the chain

---
 src/naima/plot.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/naima/plot.py b/src/naima/plot.py
index fd42e06..b5988ca 100644
--- a/src/naima/plot.py
+++ b/src/naima/plot.py
@@ -671,7 +671,7 @@ def find_ML(sampler, modelidx):
     """
     lnprobability = sampler.get_log_prob()
     index = np.unravel_index(np.argmax(lnprobability), lnprobability.shape)
-    MLp = sampler.get_chain()[index]
+    MLp = sampler.get_chain()[index].copy()
     blobs = sampler.get_blobs()
     if modelidx is not None and blobs is not None:
         blob = blobs[index][modelidx]
-- 
2.43.0


From c487f22f48c1d2ed165e57d930a39418d7e15548 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:18:36 +0000
Subject: [PATCH 38/58] fix: plot_CI leaves the caller's list of confidence
 levels alone

---
 src/naima/plot.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/naima/plot.py b/src/naima/plot.py
index b5988ca..f5fba35 100644
--- a/src/naima/plot.py
+++ b/src/naima/plot.py
@@ -559,7 +559,7 @@ def plot_CI(
         Whether to only use the positions in the final step of the run (True,
         default) or the whole chain (False).
     """
-    confs.sort(reverse=True)
+    confs = sorted(confs, reverse=True)
 
     modelx, CI = _calc_CI(
         sampler,
-- 
2.43.0


From 14847734997a11757f314bcd8a27ceda4194bb4f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:18:36 +0000
Subject: [PATCH 39/58] fix: data plots do not modify the options and data
 passed in

---
 src/naima/plot.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/naima/plot.py b/src/naima/plot.py
index f5fba35..89fecfd 100644
--- a/src/naima/plot.py
+++ b/src/naima/plot.py
@@ -1034,7 +1034,9 @@ def _plot_data_to_ax(
     f_unit, sedf = sed_conversion(data_all["energy"], data_all["flux"].unit, sed)
 
     if "group" not in data_all.keys():
+        data_all = data_all.copy()
         data_all["group"] = np.zeros(len(data_all))
+    ulim_opts = dict(ulim_opts)
 
     groups = np.unique(data_all["group"])
 
@@ -1132,6 +1134,7 @@ def _plot_residuals_to_ax(
 ):
     """Function to compute and plot residuals in units of the uncertainty"""
     if "group" not in data_all.keys():
+        data_all = data_all.copy()
         data_all["group"] = np.zeros(len(data_all))
 
     groups = np.unique(data_all["group"])
-- 
2.43.0


From b38dd916165a65e5bd11988613e86f39393f235f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:18:56 +0000
Subject: [PATCH 40/58] fix: data plots with negative fluxes or with all errors
 larger than the fluxes

---
 src/naima/plot.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/naima/plot.py b/src/naima/plot.py
index 89fecfd..d6b06cb 100644
--- a/src/naima/plot.py
+++ b/src/naima/plot.py
@@ -1054,7 +1054,7 @@ def _plot_data_to_ax(
         # Hack to show y errors compatible with 0 in loglog plot
         yerr_lo = data["flux_error_lo"][notul]
         y = data["flux"][notul].to(yerr_lo.unit)
-        bad_err = np.where((y - yerr_lo) <= 0.0)
+        bad_err = np.where(((y - yerr_lo) <= 0.0) & (y > 0.0))
         yerr_lo[bad_err] = y[bad_err] * (1.0 - 1e-7)
         yerr = u.Quantity((yerr_lo, data["flux_error_hi"][notul]))
         xerr = u.Quantity((data["energy_error_lo"], data["energy_error_hi"]))
@@ -1109,8 +1109,9 @@ def _plot_data_to_ax(
             data_all["flux_error_lo"][notul] * sedf[notul]
         ).to(f_unit).value
         gooderr = np.where(data_all["flux_error_lo"][notul] < data_all["flux"][notul])
-        ymin = 10 ** np.floor(np.log10(np.min(elo[gooderr])))
-        ax1.set_ylim(bottom=ymin)
+        if np.any(elo[gooderr] > 0):
+            ymin = 10 ** np.floor(np.log10(np.min(elo[gooderr])))
+            ax1.set_ylim(bottom=ymin)
 
     if ylabel is None:
         if sed:
-- 
2.43.0


From 1f7ff3105f2b3f95cc157bcf4a1997a65cafdff3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:18:56 +0000
Subject: [PATCH 41/58] fix: residuals when data and model energies are in
 different units or small

---
 src/naima/plot.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/naima/plot.py b/src/naima/plot.py
index d6b06cb..7052ae0 100644
--- a/src/naima/plot.py
+++ b/src/naima/plot.py
@@ -1148,7 +1148,7 @@ def _plot_residuals_to_ax(
 
     interp = False
     if data_all["energy"].size != MLene.size or not np.allclose(
-        data_all["energy"].value, MLene.value
+        data_all["energy"].to(e_unit).value, MLene.value, atol=0
     ):
         interp = True
         from scipy.interpolate import interp1d
-- 
2.43.0


From 2cb04dd0342dd371822360680c4bbceaa8e56da0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:18:57 +0000
Subject: [PATCH 42/58] fix: plot_data on an existing figure uses the energy
 unit of the figure

---
 src/naima/plot.py | 17 ++++++++++++-----
 1 file changed, 12 insertions(+), 5 deletions(-)

diff --git a/src/naima/plot.py b/src/naima/plot.py
index 7052ae0..9e9b94b 100644
--- a/src/naima/plot.py
+++ b/src/naima/plot.py
@@ -1271,11 +1271,18 @@ def plot_data(
     else:
         ax1 = f.add_subplot(111)
 
-    # try to get units from previous plot in figure
-    try:
-        old_e_unit = u.Unit(ax1.get_xlabel().split("[")[-1].split("]")[0])
-    except ValueError:
-        old_e_unit = u.Unit("")
+    # try to get units from previous plot in figure, the label is written by
+    # Unit.to_string("latex_inline")
+    old_e_unit = u.Unit("")
+    for ax in f.axes:
+        label = ax.get_xlabel().split("[")[-1].split("]")[0]
+        try:
+            unit = u.Unit(label.replace(r"$\mathrm{", "").replace("}$", ""))
+        except ValueError:
+            continue
+        if unit.physical_type == "energy":
+            old_e_unit = unit
+            break
 
     if e_unit is None and old_e_unit.physical_type == "energy":
         e_unit = old_e_unit
-- 
2.43.0


From f5a1457643692f6de3751ccbfb088e56bc9f9c52 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:19:17 +0000
Subject: [PATCH 43/58] fix: plot_data accepts a dict as documented

---
 src/naima/plot.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/naima/plot.py b/src/naima/plot.py
index 9e9b94b..e364607 100644
--- a/src/naima/plot.py
+++ b/src/naima/plot.py
@@ -4,6 +4,7 @@ from multiprocessing import Pool
 import astropy.units as u
 import numpy as np
 from astropy import log
+from astropy.table import QTable
 from emcee import autocorr
 
 from .extern.validator import validate_array
@@ -1253,7 +1254,7 @@ def plot_data(
         if hasattr(input_data, "data"):
             data = input_data.data
         elif isinstance(input_data, dict) and "energy" in input_data.keys():
-            data = input_data
+            data = validate_data_table(QTable(input_data))
         else:
             log.warning(
                 "input_data format unknown, no plotting data! "
-- 
2.43.0


From 0511ba941c687cc871dd1c61dfca765929e24f0e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:19:17 +0000
Subject: [PATCH 44/58] fix: matplotlib settings are restored after plots, also
 when these fail

---
 src/naima/analysis.py | 20 ++++++++++++--------
 src/naima/core.py     |  6 ++----
 src/naima/plot.py     |  7 ++-----
 3 files changed, 16 insertions(+), 17 deletions(-)

diff --git a/src/naima/analysis.py b/src/naima/analysis.py
index 7675658..269c8b1 100644
--- a/src/naima/analysis.py
+++ b/src/naima/analysis.py
@@ -73,14 +73,21 @@ def save_diagnostic_plots(
 
     from matplotlib import pyplot as plt
 
-    from .plot import plot_blob, plot_chain, plot_corner
+    # This function should never be interactive, all settings are restored
+    with plt.rc_context({"interactive": False, "pdf.fonttype": 42}):
+        _save_diagnostic_plots(
+            outname, sampler, modelidxs, pdf, sed, blob_labels, last_step, dpi
+        )
+
+
+def _save_diagnostic_plots(
+    outname, sampler, modelidxs, pdf, sed, blob_labels, last_step, dpi
+):
+    from matplotlib import pyplot as plt
 
-    # This function should never be interactive
-    old_interactive = plt.rcParams["interactive"]
-    plt.rcParams["interactive"] = False
+    from .plot import plot_blob, plot_chain, plot_corner
 
     if pdf:
-        plt.rc("pdf", fonttype=42)
         log.info("Saving diagnostic plots in file {0}_plots.pdf".format(outname))
         from matplotlib.backends.backend_pdf import PdfPages
 
@@ -159,9 +166,6 @@ def save_diagnostic_plots(
     if pdf:
         outpdf.close()
 
-    # set interactive back to original
-    plt.rcParams["interactive"] = old_interactive
-
 
 def save_results_table(
     outname,
diff --git a/src/naima/core.py b/src/naima/core.py
index d9e7c79..a393d9e 100644
--- a/src/naima/core.py
+++ b/src/naima/core.py
@@ -437,12 +437,10 @@ def get_sampler(
 
             from .model_fitter import InteractiveModelFitter
 
-            iprev = plt.rcParams["interactive"]
-            plt.rcParams["interactive"] = False
-            imf = InteractiveModelFitter(model, p0, data, labels=labels, sed=True)
+            with plt.rc_context({"interactive": False}):
+                imf = InteractiveModelFitter(model, p0, data, labels=labels, sed=True)
             p0 = imf.pars
             P0_IS_ML = imf.P0_IS_ML
-            plt.rcParams["interactive"] = iprev
         except ImportError as e:
             log.warning(
                 "Interactive fitting is not available because"
diff --git a/src/naima/plot.py b/src/naima/plot.py
index e364607..7aedf0d 100644
--- a/src/naima/plot.py
+++ b/src/naima/plot.py
@@ -1421,8 +1421,6 @@ def plot_corner(sampler, show_ML=True, **kwargs):
     """
     import matplotlib.pyplot as plt
 
-    oldlw = plt.rcParams["lines.linewidth"]
-    plt.rcParams["lines.linewidth"] = 0.7
     try:
         from corner import corner
 
@@ -1441,11 +1439,10 @@ def plot_corner(sampler, show_ML=True, **kwargs):
 
         corner_opts.update(kwargs)
 
-        f = corner(sampler.get_chain(flat=True), **corner_opts)
+        with plt.rc_context({"lines.linewidth": 0.7}):
+            f = corner(sampler.get_chain(flat=True), **corner_opts)
     except ImportError:
         log.warning("The corner package is not installed; corner plot not available")
         f = None
 
-    plt.rcParams["lines.linewidth"] = oldlw
-
     return f
-- 
2.43.0


From 7f90e5e1eebd84bb14ce2be61a289a592961bab6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:19:17 +0000
Subject: [PATCH 45/58] fix: lists of labels passed in are not extended

---
 src/naima/analysis.py     | 4 +++-
 src/naima/model_fitter.py | 4 +++-
 2 files changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/naima/analysis.py b/src/naima/analysis.py
index 269c8b1..2ea9617 100644
--- a/src/naima/analysis.py
+++ b/src/naima/analysis.py
@@ -141,7 +141,9 @@ def _save_diagnostic_plots(
     elif len(blob_labels) < len(modelidxs):
         # Add labels
         n = len(blob_labels)
-        blob_labels += ["Model output {0}".format(idx) for idx in modelidxs[n:]]
+        blob_labels = list(blob_labels) + [
+            "Model output {0}".format(idx) for idx in modelidxs[n:]
+        ]
 
     for modelidx, plot_sed, label in zip(modelidxs, sed, blob_labels):
         try:
diff --git a/src/naima/model_fitter.py b/src/naima/model_fitter.py
index 6f96389..e86cfdb 100644
--- a/src/naima/model_fitter.py
+++ b/src/naima/model_fitter.py
@@ -74,7 +74,9 @@ class InteractiveModelFitter:
         if labels is None:
             labels = ["par{0}".format(i) for i in range(npars)]
         elif len(labels) < npars:
-            labels += ["par{0}".format(i) for i in range(len(labels), npars)]
+            labels = list(labels) + [
+                "par{0}".format(i) for i in range(len(labels), npars)
+            ]
 
         self.hasdata = data is not None
         self.data = None
-- 
2.43.0


From 5af7f8de3662a10125591d4b1513478478744222 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:29:54 +0000
Subject: [PATCH 46/58] fix: interactive fitter shows the fitted parameters
 also outside of the slider ranges or when unconverged

---
 src/naima/model_fitter.py | 18 +++++++++++++-----
 1 file changed, 13 insertions(+), 5 deletions(-)

diff --git a/src/naima/model_fitter.py b/src/naima/model_fitter.py
index e86cfdb..22d9f7e 100644
--- a/src/naima/model_fitter.py
+++ b/src/naima/model_fitter.py
@@ -68,7 +68,7 @@ class InteractiveModelFitter:
         import matplotlib.pyplot as plt
         from matplotlib.widgets import Button, CheckButtons, Slider
 
-        self.pars = p0
+        self.pars = np.array(p0, dtype=float)
         self.P0_IS_ML = False
         npars = len(p0)
         if labels is None:
@@ -203,6 +203,11 @@ class InteractiveModelFitter:
                 # only linear
                 pmin, pmax = valinit / 100, valinit * 100
 
+            # Make sure that the range is not empty and contains the value
+            pmin, pmax = min(pmin, pmax, valinit), max(pmin, pmax, valinit)
+            if pmin == pmax:
+                pmin, pmax = valinit - 1, valinit + 1
+
             slider = Slider(
                 parax, label, pmin, pmax, valinit=valinit, valfmt="%.4g", **slider_props
             )
@@ -262,10 +267,13 @@ class InteractiveModelFitter:
         self.pars, P0_IS_ML = _prefit(self.pars, self.data, self.modelfn, None)
         autoupdate = self.autoupdate
         self.autoupdate = False
-        if P0_IS_ML:
-            for slider, val in zip(self.parsliders, self.pars):
-                slider.set_val(val)
-            self.update("after_fit")
+        for slider, val in zip(self.parsliders, self.pars):
+            # The fit is not limited to the range of the sliders
+            slider.valmin = min(slider.valmin, val)
+            slider.valmax = max(slider.valmax, val)
+            slider.ax.set_xlim(slider.valmin, slider.valmax)
+            slider.set_val(val)
+        self.update("after_fit")
         self.autoupdate = autoupdate
         self.P0_IS_ML = P0_IS_ML
 
-- 
2.43.0


From 8c4d184dea748269f5b9aece489c6468109dec9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:46:43 +0000
Subject: [PATCH 47/58] fix: numpy values in the metadata of IPAC results
 tables

---
 src/naima/analysis.py | 22 +++++++++++-----------
 1 file changed, 11 insertions(+), 11 deletions(-)

diff --git a/src/naima/analysis.py b/src/naima/analysis.py
index 2ea9617..ff6623b 100644
--- a/src/naima/analysis.py
+++ b/src/naima/analysis.py
@@ -342,23 +342,23 @@ def save_results_table(
 
                 t.add_row(("blob{0}".format(idx), med, lo, hi))
 
+    # there can be no numpy types in the metadata (YAML doesn't like them and
+    # IPAC keywords would be written as e.g. np.float64(1.0))
+    for di in list(metadata.items()):
+        if type(di[1]).__module__ == np.__name__:
+            try:
+                # convert arrays
+                metadata[di[0]] = [a.item() for a in di[1]]
+            except TypeError:
+                # convert scalars
+                metadata[di[0]] = di[1].item()
+
     if format == "ascii.ipac":
         # Only keywords are written to IPAC tables
         t.meta["keywords"] = {}
         for di in metadata.items():
             t.meta["keywords"][di[0]] = {"value": di[1]}
     else:
-        if format == "ascii.ecsv":
-            # there can be no numpy arrays in the metadata (YAML doesn't like
-            # them)
-            for di in list(metadata.items()):
-                if type(di[1]).__module__ == np.__name__:
-                    try:
-                        # convert arrays
-                        metadata[di[0]] = [a.item() for a in di[1]]
-                    except TypeError:
-                        # convert scalars
-                        metadata[di[0]] = di[1].item()
         # Save it directly in meta for readability in ECSV
         t.meta.update(metadata)
 
-- 
2.43.0


From 1be6489d5b406a5b5ddf13fe860097735b9d6ee8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:51:03 +0000
Subject: [PATCH 48/58] fix: results table with labels that are not ASCII or
 longer than 72 characters

---
 src/naima/analysis.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/naima/analysis.py b/src/naima/analysis.py
index ff6623b..5929293 100644
--- a/src/naima/analysis.py
+++ b/src/naima/analysis.py
@@ -255,7 +255,7 @@ def save_results_table(
     # Do we need more info on the distributions?
     t = Table(
         names=["label", "median", "unc_lo", "unc_hi"],
-        dtype=["S72", "f8", "f8", "f8"],
+        dtype=["U{0}".format(max(72, *map(len, labels))), "f8", "f8", "f8"],
     )
     t["label"].description = "Name of the parameter"
     t["median"].description = "Median of the posterior distribution function"
-- 
2.43.0


From 7eabdec3f740af112b1345070fccf438f2e75edc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:06:24 +0000
Subject: [PATCH 49/58] fix: buttons of the interactive fitter respond after it
 has been created

---
 src/naima/model_fitter.py | 19 +++++++++++--------
 1 file changed, 11 insertions(+), 8 deletions(-)

diff --git a/src/naima/model_fitter.py b/src/naima/model_fitter.py
index 22d9f7e..690bbac 100644
--- a/src/naima/model_fitter.py
+++ b/src/naima/model_fitter.py
@@ -215,22 +215,25 @@ class InteractiveModelFitter:
             self.parsliders.append(slider)
 
         autoupdateax = plt.subplot2grid((8, 4), (4, 3), colspan=1, rowspan=1)
-        auto_update_check = CheckButtons(autoupdateax, ("Auto update",), (auto_update,))
-        auto_update_check.on_clicked(self.update_autoupdate)
+        # keep references to the widgets, they stop responding when collected
+        self.auto_update_check = CheckButtons(
+            autoupdateax, ("Auto update",), (auto_update,)
+        )
+        self.auto_update_check.on_clicked(self.update_autoupdate)
         self.autoupdate = auto_update
 
         updateax = plt.subplot2grid((8, 4), (5, 3), colspan=1, rowspan=1)
-        update_button = Button(updateax, "Update model")
-        update_button.on_clicked(self.update)
+        self.update_button = Button(updateax, "Update model")
+        self.update_button.on_clicked(self.update)
 
         if self.hasdata:
             fitax = plt.subplot2grid((8, 4), (6, 3), colspan=1, rowspan=1)
-            fit_button = Button(fitax, "Do Nelder-Mead fit")
-            fit_button.on_clicked(self.do_fit)
+            self.fit_button = Button(fitax, "Do Nelder-Mead fit")
+            self.fit_button.on_clicked(self.do_fit)
 
         closeax = plt.subplot2grid((8, 4), (7, 3), colspan=1, rowspan=1)
-        close_button = Button(closeax, "Close window")
-        close_button.on_clicked(self.close_fig)
+        self.close_button = Button(closeax, "Close window")
+        self.close_button.on_clicked(self.close_fig)
 
         self.fig.subplots_adjust(top=0.98, right=0.98, bottom=0.02, hspace=0.2)
 
-- 
2.43.0


From a69dcef1eedcb2436acd0f185a2e90ee476352a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:56:16 +0000
Subject: [PATCH 50/58] fix: plot_fit with residuals draws on the given figure
 when another one is current

---
 src/naima/plot.py | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/src/naima/plot.py b/src/naima/plot.py
index 7aedf0d..af6dcf2 100644
--- a/src/naima/plot.py
+++ b/src/naima/plot.py
@@ -873,10 +873,8 @@ def plot_fit(
         f = figure
 
     if plotdata and plotresiduals:
-        ax1 = plt.subplot2grid((4, 1), (0, 0), rowspan=3)
-        ax2 = plt.subplot2grid((4, 1), (3, 0), sharex=ax1)
-        for subp in [ax1, ax2]:
-            f.add_subplot(subp)
+        ax1 = plt.subplot2grid((4, 1), (0, 0), rowspan=3, fig=f)
+        ax2 = plt.subplot2grid((4, 1), (3, 0), sharex=ax1, fig=f)
     else:
         ax1 = f.add_subplot(111)
 
-- 
2.43.0


From 19ac73747fd5bb8401d5ecf334af60abfb745666 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:00:27 +0000
Subject: [PATCH 51/58] fix: electron-electron bremsstrahlung cross section:
 sign of a term

---
 src/naima/radiative.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/naima/radiative.py b/src/naima/radiative.py
index 1442a40..3fa2daa 100644
--- a/src/naima/radiative.py
+++ b/src/naima/radiative.py
@@ -879,13 +879,13 @@ class Bremsstrahlung(BaseElectron):
         s0 = r0**2 * alpha / (3 * eps) / mec2_unit
 
         s1_1 = 16 * (1 - eps + eps**2) * np.log(gam / eps)
-        s1_2 = -1 / eps**2 + 3 / eps - 4 - 4 * eps - 8 * eps**2
+        s1_2 = -1 / eps**2 + 3 / eps - 4 + 4 * eps - 8 * eps**2
         s1_3 = -2 * (1 - 2 * eps) * np.log(1 - 2 * eps)
         s1_4 = 1 / (4 * eps**3) - 1 / (2 * eps**2) + 3 / eps - 2 + 4 * eps
         # s1_2 and s1_3 * s1_4 cancel at low photon energies: use their expansion
         s1_234 = np.where(
             eps < 1e-3,
-            28.0 / 3.0 - 70.0 / 3.0 * eps + 128.0 / 15.0 * eps**2,
+            28.0 / 3.0 - 46.0 / 3.0 * eps + 128.0 / 15.0 * eps**2,
             s1_2 + s1_3 * s1_4,
         )
         s1 = s1_1 + s1_234
-- 
2.43.0


From f8616d89e6e5050669f451c2fb4eee9081377f42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:00:27 +0000
Subject: [PATCH 52/58] fix: proton-proton cross section is zero below the pion
 threshold

---
 src/naima/radiative.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/naima/radiative.py b/src/naima/radiative.py
index 3fa2daa..8015a96 100644
--- a/src/naima/radiative.py
+++ b/src/naima/radiative.py
@@ -1482,10 +1482,13 @@ class PionDecay(BaseProton):
         """
         Tp = Ep - self._m_p
 
-        diffsigma = self._Amax(Tp) * self._F(Tp, Egamma)
+        # no pions are produced below the threshold
+        idx = np.where(Tp > self._Tth)
+        diffsigma = np.zeros_like(Tp)
+        diffsigma[idx] = self._Amax(Tp[idx]) * self._F(Tp[idx], Egamma)
 
         if self.nuclear_enhancement:
-            diffsigma *= self._nuclear_factor(Tp)
+            diffsigma[idx] *= self._nuclear_factor(Tp[idx])
 
         return diffsigma
 
-- 
2.43.0


From b925a386ac7165ec9cb5c198152a04f70d4a9da3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:00:27 +0000
Subject: [PATCH 53/58] fix: pion decay lookup table is not extrapolated

---
 src/naima/radiative.py | 17 +++++++++++++++--
 1 file changed, 15 insertions(+), 2 deletions(-)

diff --git a/src/naima/radiative.py b/src/naima/radiative.py
index 8015a96..f4ee90b 100644
--- a/src/naima/radiative.py
+++ b/src/naima/radiative.py
@@ -1566,8 +1566,12 @@ class PionDecay(BaseProton):
 
         specpp = []
         for Eg in Egamma:
-            diffsigma = self.diffsigma(Ep.value, Eg.value) * u.Unit("cm2/GeV")
-            specpp.append(trapz_loglog(diffsigma * J, Ep))
+            diffsigma = self.diffsigma(Ep.value, Eg.value)
+            if self.useLUT:
+                # the table must not be extrapolated
+                idx = np.where(~self.diffsigma.covers(Ep.value, Eg.value))
+                diffsigma[idx] = self._diffsigma(Ep.value[idx], Eg.value)
+            specpp.append(trapz_loglog(diffsigma * u.Unit("cm2/GeV") * J, Ep))
 
         self.specpp = u.Quantity(specpp)
         # the interpolated cross section oscillates around zero where it vanishes
@@ -1834,6 +1838,15 @@ class LookupTable:
         lut = f_lut.f.lut
         self.int_lut = RectBivariateSpline(X, Y, 10**lut, kx=3, ky=3, s=0)
         self.fname = filename
+        self.limits = X.min(), X.max(), Y.min(), Y.max()
+
+    def covers(self, X, Y):
+        """Whether (x,y) is within the table, up to rounding"""
+        Xmin, Xmax, Ymin, Ymax = self.limits
+        X, Y = np.log10(X), np.log10(Y)
+        inX = (X >= Xmin - 1e-8) & (X <= Xmax + 1e-8)
+        inY = (Y >= Ymin - 1e-8) & (Y <= Ymax + 1e-8)
+        return inX & inY
 
     def __call__(self, X, Y):
         return self.int_lut(np.log10(X), np.log10(Y)).flatten()
-- 
2.43.0


From b3aa9fcfd97e3971487a5cce5a7e5b52734f0171 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:44:12 +0000
Subject: [PATCH 54/58] fix: save the chain plot of every parameter whatever
 its label

Labels containing a path separator lost their plot (the file could not be
written), and parameters with labels that are equal, or equal after
stripping log10(), overwrote the plot of each other.
---
 src/naima/analysis.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/naima/analysis.py b/src/naima/analysis.py
index 5929293..7f0a185 100644
--- a/src/naima/analysis.py
+++ b/src/naima/analysis.py
@@ -95,6 +95,7 @@ def _save_diagnostic_plots(
 
     # Chains
 
+    names = set()
     for par, label in zip(range(sampler.get_chain().shape[-1]), sampler.labels):
         try:
             log.info("Plotting chain of parameter {0}...".format(label))
@@ -104,7 +105,12 @@ def _save_diagnostic_plots(
             else:
                 if "log(" in label or "log10(" in label:
                     label = label.split("(")[-1].split(")")[0]
-                f.savefig("{0}_chain_{1}.png".format(outname, label), dpi=dpi)
+                # labels might not be valid or unique file names
+                name = label.replace(os.sep, "_")
+                while name in names:
+                    name = "{0}_par{1}".format(name, par)
+                names.add(name)
+                f.savefig("{0}_chain_{1}.png".format(outname, name), dpi=dpi)
             f.clf()
             plt.close(f)
         except Exception as e:
-- 
2.43.0


From 1b8f03d87c327934d319a96312e778dc66cc4d75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:44:12 +0000
Subject: [PATCH 55/58] fix: diagnostic plots for any iterable of outputs and a
 single label

modelidxs given as an iterator failed or lost outputs, and a single label
given as a string was split in characters when all outputs were plotted.
---
 src/naima/analysis.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/naima/analysis.py b/src/naima/analysis.py
index 7f0a185..fe18712 100644
--- a/src/naima/analysis.py
+++ b/src/naima/analysis.py
@@ -135,16 +135,18 @@ def _save_diagnostic_plots(
 
     if modelidxs is None:
         nmodels = len(sampler.get_blobs()[-1][0])
-        modelidxs = list(range(nmodels))
+        modelidxs = range(nmodels)
+    modelidxs = list(modelidxs)
 
     if isinstance(sed, bool):
         sed = [sed for idx in modelidxs]
 
     if blob_labels is None:
         blob_labels = ["Model output {0}".format(idx) for idx in modelidxs]
-    elif len(modelidxs) == 1 and isinstance(blob_labels, str):
+    elif isinstance(blob_labels, str):
         blob_labels = [blob_labels]
-    elif len(blob_labels) < len(modelidxs):
+
+    if len(blob_labels) < len(modelidxs):
         # Add labels
         n = len(blob_labels)
         blob_labels = list(blob_labels) + [
-- 
2.43.0


From 5f972746cd3dcd987cbfd9e7d578d28f8dca13c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:17:59 +0000
Subject: [PATCH 56/58] fix: accept any iterable of seed photon fields

The documentation allows a string or an iterable, but anything else than a
list was taken for a string and failed with AttributeError.
---
 src/naima/radiative.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/naima/radiative.py b/src/naima/radiative.py
index f4ee90b..7c0a69f 100644
--- a/src/naima/radiative.py
+++ b/src/naima/radiative.py
@@ -450,7 +450,7 @@ class InverseCompton(BaseElectron):
 
         # Allow for seed_photon_fields definitions of the type 'CMB-NIR-FIR' or
         # 'CMB'
-        if type(seed_photon_fields) is not list:
+        if isinstance(seed_photon_fields, str):
             seed_photon_fields = seed_photon_fields.split("-")
 
         result = OrderedDict()
-- 
2.43.0


From 3bad45b92a9145389d8e10cc65dd39908be5e242 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:17:59 +0000
Subject: [PATCH 57/58] fix: accept numpy integers as the number of a seed
 photon field

---
 src/naima/radiative.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/naima/radiative.py b/src/naima/radiative.py
index 7c0a69f..4ee4498 100644
--- a/src/naima/radiative.py
+++ b/src/naima/radiative.py
@@ -742,7 +742,7 @@ class InverseCompton(BaseElectron):
             model = super().flux(photon_energy, distance=distance)
         else:
             # Test seed argument
-            if not isinstance(seed, int):
+            if not isinstance(seed, (int, np.integer)):
                 if seed not in self.seed_photon_fields:
                     raise ValueError(
                         "Provided seed photon field name is not in"
-- 
2.43.0


From 0b234a6a536afc7fb5904128520309912ab30c17 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:17:59 +0000
Subject: [PATCH 58/58] fix: tabulated seed photon fields in any order of their
 energies

The integration over the field needs ascending energies: with descending
ones the emission was negative. Densities and energies of different
lengths are rejected when the field is defined.
---
 src/naima/radiative.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/naima/radiative.py b/src/naima/radiative.py
index 4ee4498..d100ccf 100644
--- a/src/naima/radiative.py
+++ b/src/naima/radiative.py
@@ -545,7 +545,12 @@ class InverseCompton(BaseElectron):
                             uu,
                             domain="positive",
                             physical_type="differential number density",
+                            shape=seed["energy"].shape,
                         )
+                        # integration over the field needs ascending energies
+                        order = np.argsort(seed["energy"])
+                        seed["energy"] = seed["energy"][order]
+                        seed["photon_density"] = seed["photon_density"][order]
             else:
                 raise TypeError(
                     "Unable to process seed photon field: {0}".format(inseed)
-- 
2.43.0

