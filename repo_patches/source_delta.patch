From 394e477e10a7810e8505906cc6b38af1e30fd7b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:20:24 +0000
Subject: [PATCH 01/45] fix: the upper bound of an axis belongs to its last bin

SpectraParameter.get_bin accepts the upper bound but returned the number of
bins, which is not a bin of the axis.
---
 echidna/core/parameter.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/echidna/core/parameter.py b/echidna/core/parameter.py
index 2695d42..a3db589 100644
--- a/echidna/core/parameter.py
+++ b/echidna/core/parameter.py
@@ -1071,7 +1071,8 @@ class SpectraParameter(Parameter):
         if x > self._high:
             raise ValueError("%s is above parameter upper bound %s"
                              % (x, self._high))
-        return int((x - self._low) / self.get_width())
+        # The upper bound itself belongs to the last bin
+        return min(int((x - self._low) / self.get_width()), self._bins - 1)
 
     def get_bin_boundaries(self):
         """ Returns the bin boundaries for the parameter
-- 
2.43.0


From 0dda6b53fe00a31e7349b0effe9d95ad0e2e5ed5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:20:24 +0000
Subject: [PATCH 02/45] fix: round values to the bin edges of axes whose low
 bound is not a multiple of the width

SpectraParameter.round measured edges from zero instead of from the low
bound of the axis.
---
 echidna/core/parameter.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/echidna/core/parameter.py b/echidna/core/parameter.py
index a3db589..0e15922 100644
--- a/echidna/core/parameter.py
+++ b/echidna/core/parameter.py
@@ -1138,7 +1138,8 @@ class SpectraParameter(Parameter):
         Returns:
           float: The value of the closest bin edge to x
         """
-        return round(x/self.get_width())*self.get_width()
+        return (self._low + round((x - self._low) / self.get_width()) *
+                self.get_width())
 
     def set_par(self, **kwargs):
         """Set a limit / binning parameter after initialisation.
-- 
2.43.0


From 48f71aef120a29703da2b18d25eb06e95d342a11 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:22:38 +0000
Subject: [PATCH 03/45] fix: shrink with an integer upper bin

numpy.ceil returns a float, which is not accepted as a slice index, so that
every shrink, cut and shrink_to_roi failed with TypeError (after some axes
of the configuration had already been changed).
---
 echidna/core/spectra.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/echidna/core/spectra.py b/echidna/core/spectra.py
index 258c0e1..6edfd9b 100644
--- a/echidna/core/spectra.py
+++ b/echidna/core/spectra.py
@@ -487,8 +487,8 @@ class Spectra(object):
             # Round down the low bin
             low_bin = int((kwargs[kw_low] - par._low) / par.get_width())
             # Round up the high bin
-            high_bin = numpy.ceil((kwargs[kw_high] - par._low) /
-                                  par.get_width())
+            high_bin = int(numpy.ceil((kwargs[kw_high] - par._low) /
+                                      par.get_width()))
             # new_low is the new lower first bin edge
             new_low = par.round(par._low + low_bin * par.get_width())
             # new_high is the new upper last bin edge
-- 
2.43.0


From 9d0e4397c4f61610b2841d5658b8f24ce650bde3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:22:38 +0000
Subject: [PATCH 04/45] fix: shrink never extends an axis beyond its bounds

A bound within the floating point tolerance of, but outside, the existing one
was used as it is; for bins narrower than the tolerance the axis was extended
beyond the data.
---
 echidna/core/spectra.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/echidna/core/spectra.py b/echidna/core/spectra.py
index 6edfd9b..18bcb14 100644
--- a/echidna/core/spectra.py
+++ b/echidna/core/spectra.py
@@ -457,7 +457,10 @@ class Spectra(object):
                 raise IndexError("%s is not a parameter in the config" % par)
             if high_low == "low":
                 if numpy.allclose(kwargs[arg], self._config.get_par(par)._low):
-                    continue  # To avoid floating point errors
+                    # To avoid floating point errors
+                    kwargs[arg] = max(kwargs[arg],
+                                      self._config.get_par(par)._low)
+                    continue
                 if kwargs[arg] < self._config.get_par(par)._low:
                     raise ValueError("%s is below existing bound for %s (%s)"
                                      % (kwargs[arg], par,
@@ -465,7 +468,10 @@ class Spectra(object):
             elif high_low == "high":
                 if numpy.allclose(kwargs[arg],
                                   self._config.get_par(par)._high):
-                    continue  # To avoid floating point errors
+                    # To avoid floating point errors
+                    kwargs[arg] = min(kwargs[arg],
+                                      self._config.get_par(par)._high)
+                    continue
                 if kwargs[arg] > self._config.get_par(par)._high:
                     raise ValueError("%s is above existing bound for %s (%s)"
                                      % (kwargs[arg], par,
-- 
2.43.0


From a9a6c0d99418d0dab3900a02174cf40da261ede9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:23:17 +0000
Subject: [PATCH 05/45] fix: shrink refuses a lower bound above the upper bound

A lower bound above the existing (or the requested) upper bound was accepted
and left a spectrum without data and with a negative number of bins.
---
 echidna/core/spectra.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/echidna/core/spectra.py b/echidna/core/spectra.py
index 18bcb14..c511310 100644
--- a/echidna/core/spectra.py
+++ b/echidna/core/spectra.py
@@ -480,6 +480,12 @@ class Spectra(object):
                 raise IndexError("%s index invalid. Index must be of the form"
                                  "[dimension name]_high or"
                                  "[dimension name]_low" % arg)
+        for par in self._config.get_pars():
+            low = kwargs.get(par+"_low", self._config.get_par(par)._low)
+            high = kwargs.get(par+"_high", self._config.get_par(par)._high)
+            if low > high:
+                raise ValueError("Lower bound %s is above upper bound %s "
+                                 "for %s" % (low, high, par))
         slices_low = []
         slices_high = []
         for par_name in self._config.get_pars():
-- 
2.43.0


From 6ba37749d56986f3be5867debe47b4b03c54ffc0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:23:17 +0000
Subject: [PATCH 06/45] fix: sum over the requested axes when several are
 projected out

Each sum removes an axis and renumbers the following ones, so that removing
more than one axis summed over the wrong axes or failed.
---
 echidna/core/spectra.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/echidna/core/spectra.py b/echidna/core/spectra.py
index c511310..5bca45a 100644
--- a/echidna/core/spectra.py
+++ b/echidna/core/spectra.py
@@ -314,7 +314,8 @@ class Spectra(object):
         if len(axes) == len(self._config.get_pars()):
             return copy.copy(self._data)
         projection = copy.copy(self._data)
-        for i_axis in range(len(self._config.get_pars())):
+        # Sum over the last axes first, so that axis numbers stay valid
+        for i_axis in reversed(range(len(self._config.get_pars()))):
             if i_axis not in axes:
                 projection = projection.sum(i_axis)
         return projection
@@ -605,7 +606,8 @@ class Spectra(object):
         if axis2 < 0 or axis2 > len(self._config.get_pars()):
             raise IndexError("Axis index %s out of range" % axis2)
         projection = copy.copy(self._data)
-        for i_axis in range(len(self._config.get_pars())):
+        # Sum over the last axes first, so that axis numbers stay valid
+        for i_axis in reversed(range(len(self._config.get_pars()))):
             if i_axis != axis1 and i_axis != axis2:
                 projection = projection.sum(i_axis)
         return projection
-- 
2.43.0


From e7e9d7413ce6b866d4511d82ce80ab64ec726445 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:23:18 +0000
Subject: [PATCH 07/45] fix: a refused rebin leaves the configuration unchanged

Rebin changed the number of bins of the first axes before it found that the
request for a later axis is not possible.
---
 echidna/core/spectra.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/echidna/core/spectra.py b/echidna/core/spectra.py
index 5bca45a..9840cf3 100644
--- a/echidna/core/spectra.py
+++ b/echidna/core/spectra.py
@@ -360,13 +360,15 @@ class Spectra(object):
         if len(new_bins) != len(self._config.get_pars()):
             raise ValueError('Incorrect number of dimensions; need %s'
                              % len(self._config.get_pars()))
-        # Now do the rebinning
+        # Check the request for all axes before changing any of them
         for i, v in enumerate(self._config.get_pars()):
             if self._config.get_par(v)._bins % new_bins[i] != 0:
                 raise ValueError("Old bins/New bins must be integer old: %s"
                                  " new: %s for parameter %s"
                                  % (self._config.get_par(v)._bins,
                                     new_bins[i], v))
+        # Now do the rebinning
+        for i, v in enumerate(self._config.get_pars()):
             self._config.get_par(v)._bins = new_bins[i]
 
         compression_pairs = [(d, c//d) for d, c in zip(new_bins,
-- 
2.43.0


From 4a3472b824561b64d2275d2e29f5779a87114114 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:23:18 +0000
Subject: [PATCH 08/45] fix: refuse to add spectra with their dimensions in a
 different order

Adding is by position, so that the content of different axes was mixed up.
---
 echidna/core/spectra.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/echidna/core/spectra.py b/echidna/core/spectra.py
index 9840cf3..722e8ce 100644
--- a/echidna/core/spectra.py
+++ b/echidna/core/spectra.py
@@ -92,6 +92,12 @@ class Spectra(object):
         for v in spectrum.get_config().get_dims():
             if v not in self._config.get_dims():
                 raise IndexError("%s not present in this spectrum" % v)
+        # Bins are added by position, so the dimensions must be in the same order
+        dims = [self._config.get_dim(v) for v in self._config.get_pars()]
+        if dims != [spectrum.get_config().get_dim(v)
+                    for v in spectrum.get_config().get_pars()]:
+            raise IndexError("Dimensions are not in the same order in the "
+                             "new spectrum")
         # Dictionary containing dimensions which have different types in the
         # two spectra. The type of the dimension of spectrum is the value
         types = {}
-- 
2.43.0


From 7ad836701c9173d1ebb4c49ea2654c7e9827b7de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:12:56 +0000
Subject: [PATCH 09/45] fix: recognise whole-bin shifts whose floating point
 remainder is one width

For a shift of 0.3 and a width of 0.1 the remainder is 0.0999..., so that the
bin-wise shift was refused and shift() interpolated.
---
 echidna/core/shift.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/echidna/core/shift.py b/echidna/core/shift.py
index 4aceee4..9ffbb5b 100644
--- a/echidna/core/shift.py
+++ b/echidna/core/shift.py
@@ -44,7 +44,8 @@ class Shift(object):
         """
         shift = self.get_shift()
         step = spectrum.get_config().get_par(dimension).get_width()
-        if numpy.isclose(shift % step, 0.):
+        if (numpy.isclose(shift % step, 0.) or
+                numpy.isclose(shift % step, step)):
             # shift size multiple of step size. Interpolation not required.
             return self.shift_by_bin(spectrum, dimension)
         preshift_sum = spectrum.sum()
@@ -181,7 +182,8 @@ class Shift(object):
         """
         shift = self.get_shift()
         step = spectrum.get_config().get_par(dimension).get_width()
-        if not numpy.isclose(shift % step, 0.):
+        if not (numpy.isclose(shift % step, 0.) or
+                numpy.isclose(shift % step, step)):
             raise ValueError("Shift (%s) must be a multiple of bin width (%s)"
                              % (shift, step))
         shifted_spec = copy.copy(spectrum)
-- 
2.43.0


From 390deebed7e4df4aff747113432f04ed55e63c33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:12:56 +0000
Subject: [PATCH 10/45] fix: bin-wise shift keeps slices whose content does not
 add up to more than zero

Slices with negative entries (e.g. from negative weights) were dropped.
---
 echidna/core/shift.py | 7 ++-----
 1 file changed, 2 insertions(+), 5 deletions(-)

diff --git a/echidna/core/shift.py b/echidna/core/shift.py
index 9ffbb5b..c4526e9 100644
--- a/echidna/core/shift.py
+++ b/echidna/core/shift.py
@@ -220,9 +220,6 @@ class Shift(object):
             cur_slice = cur_slice[:-1] + "]"
             old_slice = old_slice[:-1] + "]"
             old_data = eval("spectrum._data"+old_slice)
-            unshifted_sum = float(old_data.sum())
-            # Check to see if there is data
-            if unshifted_sum > 0.:
-                fill_cmd = "shifted_spec._data" + cur_slice + "+= old_data"
-                exec(fill_cmd)
+            fill_cmd = "shifted_spec._data" + cur_slice + "+= old_data"
+            exec(fill_cmd)
         return shifted_spec
-- 
2.43.0


From 97e6a50b5c8f1d6d26061838c4ef4e2b8698bfeb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:40:43 +0000
Subject: [PATCH 11/45] fix: a fit parameter's dictionary holds its penalty
 term

---
 echidna/core/parameter.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/echidna/core/parameter.py b/echidna/core/parameter.py
index 0e15922..ef5b435 100644
--- a/echidna/core/parameter.py
+++ b/echidna/core/parameter.py
@@ -630,7 +630,7 @@ class FitParameter(Parameter):
         # Add non-basic attributes
         parameter_dict["current_value"] = self._current_value
         parameter_dict["best_fit"] = self._best_fit
-        parameter_dict["penalty_term"] = self._best_fit
+        parameter_dict["penalty_term"] = self._penalty_term
         return parameter_dict
 
 
-- 
2.43.0


From 0744f7d923771e17ed884934c5c4761289acccba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:40:43 +0000
Subject: [PATCH 12/45] fix: loading a global fit configuration keeps the given
 name

---
 echidna/core/config.py | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/echidna/core/config.py b/echidna/core/config.py
index c1cbadf..faffbf6 100644
--- a/echidna/core/config.py
+++ b/echidna/core/config.py
@@ -440,23 +440,23 @@ class GlobalFitConfig(Config):
                            "Please check it has the correct form")
         for dim in global_config[main_key]:
             for syst in global_config[main_key][dim]:
-                name = dim + "_" + syst
+                par_name = dim + "_" + syst
                 if syst == 'resolution' or syst == 'resolution_ly':
-                    parameters[name] = {
+                    parameters[par_name] = {
                         'par': ResolutionParameter(
-                            name, dimension=dim,
+                            par_name, dimension=dim,
                             **global_config[main_key][dim][syst]),
                         'type': 'global'}
                 elif syst == 'shift':
-                    parameters[name] = {
+                    parameters[par_name] = {
                         'par': ShiftParameter(
-                            name, dimension=dim,
+                            par_name, dimension=dim,
                             **global_config[main_key][dim][syst]),
                         'type': 'global'}
                 elif syst == 'scale':
-                    parameters[name] = {
+                    parameters[par_name] = {
                         'par': ScaleParameter(
-                            name, dimension=dim,
+                            par_name, dimension=dim,
                             **global_config[main_key][dim][syst]),
                         'type': 'global'}
                 else:
-- 
2.43.0


From f81526a5a52cf6fc24289d9ba668440a72c2eae4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:40:43 +0000
Subject: [PATCH 13/45] fix: reload global fit configurations without
 per-spectrum parameters

---
 echidna/core/config.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/echidna/core/config.py b/echidna/core/config.py
index faffbf6..baba092 100644
--- a/echidna/core/config.py
+++ b/echidna/core/config.py
@@ -467,7 +467,7 @@ class GlobalFitConfig(Config):
 
         # Add spectral fit parameters:
         main_key = "spectral_fit_parameters"
-        if not spectral_config.get(main_key):
+        if main_key not in spectral_config.keys():
             logging.getLogger("extra").debug("\n\n%s\n" % str(spectral_config))
             raise KeyError("Cannot read spectra fit config dictionary. "
                            "Please check it has the correct form")
-- 
2.43.0


From 55b91e94822e0771b7ec2dfe4996356cff113e2c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:44:38 +0000
Subject: [PATCH 14/45] fix: explicit zeros given to DBIsotope are not replaced
 by defaults

---
 echidna/calc/decay.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/echidna/calc/decay.py b/echidna/calc/decay.py
index 5a4b045..4814f49 100644
--- a/echidna/calc/decay.py
+++ b/echidna/calc/decay.py
@@ -62,20 +62,20 @@ class DBIsotope(object):
         self._abundance = abundance
         self._phase_space = phase_space
         self._matrix_element = matrix_element
-        if loading:
+        if loading is not None:
             if loading < 0. or loading > 1.:
                 raise ValueError("Loading ranges from 0 to 1")
             self._loading = loading
         else:
             # Default SNO+ Loading
             self._loading = const._loading
-        if outer_radius:
+        if outer_radius is not None:
             if outer_radius <= 0.:
                 raise ValueError("Outer radius must be positive and non-zero")
             self._outer_radius = outer_radius
         else:
             self._outer_radius = const._av_radius
-        if scint_density:
+        if scint_density is not None:
             self._scint_density = scint_density
         else:
             self._scint_density = const._scint_density
-- 
2.43.0


From 6c974998d9ff6d3cd4c2bd7e60bdf0c3b2ce366f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:47:13 +0000
Subject: [PATCH 15/45] fix: an explicit current resolution of zero is not
 replaced by the smearer's own

---
 echidna/core/smear.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/echidna/core/smear.py b/echidna/core/smear.py
index a8bcdb7..5fb167b 100644
--- a/echidna/core/smear.py
+++ b/echidna/core/smear.py
@@ -164,7 +164,7 @@ class EnergySmearLY(Smear):
           float: The value of light yield needed to smear the current
             PDF to obtain a new light yield: new_ly.
         """
-        if not cur_ly:
+        if cur_ly is None:
             cur_ly = self.get_resolution()
         if new_ly > cur_ly:
             raise ValueError("New light yield must be smaller than the"
@@ -408,7 +408,7 @@ class EnergySmearRes(Smear):
           float: The value of resolution needed to smear the current
             PDF to obtain a new resolution with sigma value new_res.
         """
-        if not cur_res:
+        if cur_res is None:
             cur_res = self.get_resolution()
         if new_res < cur_res:
             raise ValueError("New resolution must be larger than the"
@@ -631,7 +631,7 @@ class RadialSmear(Smear):
           float: The value of resolution needed to smear the current
             PDF to obtain a new resolution: new_res.
         """
-        if not cur_res:
+        if cur_res is None:
             cur_res = self.get_resolution()
         if new_res < cur_res:
             raise ValueError("New resolution must be larger than the"
-- 
2.43.0


From 6a9192e7ce4b22476647b677281582091215c808 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:47:13 +0000
Subject: [PATCH 16/45] fix: Poisson smearing by energy resolution uses the
 resolution that was set

---
 echidna/core/smear.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/echidna/core/smear.py b/echidna/core/smear.py
index 5fb167b..a60c83f 100644
--- a/echidna/core/smear.py
+++ b/echidna/core/smear.py
@@ -450,6 +450,8 @@ class EnergySmearRes(Smear):
         """
         if (resolution > 0. and resolution < 1.):
             self._resolution = resolution
+            # Light yield with the same width, for poisson smearing
+            self._light_yield = 1. / resolution ** 2
         else:
             raise ValueError("%s is an invalid energy resolution. Value "
                              "must be between 0. and 1." % resolution)
-- 
2.43.0


From b75aaefe02887ac4056dd82d5eaa5b0265d3b81f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:47:13 +0000
Subject: [PATCH 17/45] fix: weighted smearing reaches the last bin of the axis

---
 echidna/core/smear.py | 9 +++------
 1 file changed, 3 insertions(+), 6 deletions(-)

diff --git a/echidna/core/smear.py b/echidna/core/smear.py
index a60c83f..d37baa2 100644
--- a/echidna/core/smear.py
+++ b/echidna/core/smear.py
@@ -260,8 +260,7 @@ class EnergySmearLY(Smear):
                             low = spectrum.get_config().get_par(par)._low + \
                                 0.5 * widths[i]
                         if high > spectrum.get_config().get_par(par)._high:
-                            high = spectrum.get_config().get_par(par)._high - \
-                                0.5 * widths[i]
+                            high = spectrum.get_config().get_par(par)._high
                         weights = []
                         for energy in numpy.arange(low, high, widths[i]):
                             if self._poisson_smear is True:
@@ -510,8 +509,7 @@ class EnergySmearRes(Smear):
                             low = spectrum.get_config().get_par(par)._low + \
                                 0.5 * widths[i]
                         if high > spectrum.get_config().get_par(par)._high:
-                            high = spectrum.get_config().get_par(par)._high - \
-                                0.5 * widths[i]
+                            high = spectrum.get_config().get_par(par)._high
                         weights = []
                         for energy in numpy.arange(low, high, widths[i]):
                             if self._poisson_smear is True:
@@ -728,8 +726,7 @@ class RadialSmear(Smear):
                             low = spectrum.get_config().get_par(par)._low + \
                                 0.5 * widths[i]
                         if high > spectrum.get_config().get_par(par)._high:
-                            high = spectrum.get_config().get_par(par)._high - \
-                                0.5 * widths[i]
+                            high = spectrum.get_config().get_par(par)._high
                         weights = []
                         for radius in numpy.arange(low, high, widths[i]):
                             weights.append(self.calc_gaussian(radius,
-- 
2.43.0


From 9d8130cc14c3dad55a9a10001d7234878b08949b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:51:39 +0000
Subject: [PATCH 18/45] fix: names of pre-convolved spectra keep zeros that are
 part of the value

---
 echidna/core/parameter.py | 15 +++++++++------
 1 file changed, 9 insertions(+), 6 deletions(-)

diff --git a/echidna/core/parameter.py b/echidna/core/parameter.py
index ef5b435..fc6df33 100644
--- a/echidna/core/parameter.py
+++ b/echidna/core/parameter.py
@@ -785,9 +785,10 @@ class ResolutionParameter(FitParameter):
             ext = 'ly'
         else:
             ext = 'rs'
-        value_string = str(self._current_value)
+        value_string = str(float(self._current_value))
         # Strip trailling zero in filename
-        value_string = value_string.rstrip('0').rstrip('.')
+        if value_string.endswith('.0'):
+            value_string = value_string[:-2]
         filename_list = filename.split('_')
         temp_fname = ''
         subbed = False
@@ -899,9 +900,10 @@ class ScaleParameter(FitParameter):
                 directory += 'scale/'
         else:
             directory += 'scale/'
-        value_string = str(self._current_value)
+        value_string = str(float(self._current_value))
         # Strip trailling zero in filename
-        value_string = value_string.rstrip('0').rstrip('.')
+        if value_string.endswith('.0'):
+            value_string = value_string[:-2]
         filename_list = filename.split('_')
         temp_fname = ''
         subbed = False
@@ -1013,9 +1015,10 @@ class ShiftParameter(FitParameter):
                 directory += 'shift/'
         else:
             directory += 'shift/'
-        value_string = str(self._current_value)
+        value_string = str(float(self._current_value))
         # Strip trailling zero in filename
-        value_string = value_string.rstrip('0').rstrip('.')
+        if value_string.endswith('.0'):
+            value_string = value_string[:-2]
         filename_list = filename.split('_')
         temp_fname = ''
         subbed = False
-- 
2.43.0


From 1b0f4c8598f97a467b0b50925c00fe7cb36adb91 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:09:44 +0000
Subject: [PATCH 19/45] fix: find the minimum of arrays with three or more
 dimensions

---
 echidna/fit/minimise.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/echidna/fit/minimise.py b/echidna/fit/minimise.py
index 36307ec..9892ba2 100644
--- a/echidna/fit/minimise.py
+++ b/echidna/fit/minimise.py
@@ -582,7 +582,7 @@ class GridSearch(FitResults, Minimiser):
         product = 1  # product of dimensions
         for dim in new_coords.shape:
             product *= dim
-            multiplier += len(coords) / product
+            multiplier += len(coords) // product
 
         # Calculate indices
         indices = [i * multiplier + j for i, j in enumerate(new_coords)]
-- 
2.43.0


From 1611f25cd0d7f4b7fb12a259300d26edd3727515 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:09:44 +0000
Subject: [PATCH 20/45] fix: grid search indices are integers

---
 echidna/fit/minimise.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/echidna/fit/minimise.py b/echidna/fit/minimise.py
index 9892ba2..898fa62 100644
--- a/echidna/fit/minimise.py
+++ b/echidna/fit/minimise.py
@@ -668,7 +668,7 @@ class GridSearch(FitResults, Minimiser):
         """
         index = 0
         values = numpy.zeros((len(self._fit_config.get_pars())))
-        indices = numpy.zeros((len(self._fit_config.get_pars())))
+        indices = numpy.zeros((len(self._fit_config.get_pars())), dtype=int)
         for values, indices in self._get_values(index, values, indices):
             yield values, indices
 
-- 
2.43.0


From d4cdf182e94806eac912bc2a5edd9c8b8280a25a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:09:44 +0000
Subject: [PATCH 21/45] fix: keep the default name of a grid search

---
 echidna/fit/minimise.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/echidna/fit/minimise.py b/echidna/fit/minimise.py
index 898fa62..7ffb3f0 100644
--- a/echidna/fit/minimise.py
+++ b/echidna/fit/minimise.py
@@ -90,7 +90,7 @@ class GridSearch(FitResults, Minimiser):
     def __init__(self, fit_config, spectra_config,
                  name=None, per_bin=False, use_numpy=True):
         super(GridSearch, self).__init__(fit_config, spectra_config, name=name)
-        Minimiser.__init__(self, name, GridSearch, per_bin)
+        Minimiser.__init__(self, self._name, GridSearch, per_bin)
         if per_bin:
             stats_shape = fit_config.get_shape() + spectra_config.get_shape()
         else:
-- 
2.43.0


From 4d5906b0b974a376cb32cb1c427bca011e4b5051 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:09:44 +0000
Subject: [PATCH 22/45] fix: reset grids to the shape for the mode of the grid
 search

---
 echidna/fit/minimise.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/echidna/fit/minimise.py b/echidna/fit/minimise.py
index 7ffb3f0..4c334fb 100644
--- a/echidna/fit/minimise.py
+++ b/echidna/fit/minimise.py
@@ -472,8 +472,11 @@ class GridSearch(FitResults, Minimiser):
                 new_name += "_" + part
             self._resets += 1
             self._name = new_name + "_" + str(self._resets)
-        stats_shape = (self._fit_config.get_shape() +
-                       self._spectra_config.get_shape())
+        if self._per_bin:
+            stats_shape = (self._fit_config.get_shape() +
+                           self._spectra_config.get_shape())
+        else:
+            stats_shape = self._fit_config.get_shape()
         self._stats = numpy.zeros(stats_shape)
         self._penalty_terms = numpy.zeros(self._fit_config.get_shape())
 
-- 
2.43.0


From 66ab5c13d71ef79adc0440e922902d6574c7541f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:09:44 +0000
Subject: [PATCH 23/45] fix: raw statistics at given parameter values

---
 echidna/fit/minimise.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/echidna/fit/minimise.py b/echidna/fit/minimise.py
index 4c334fb..1e35c7e 100644
--- a/echidna/fit/minimise.py
+++ b/echidna/fit/minimise.py
@@ -193,7 +193,8 @@ class GridSearch(FitResults, Minimiser):
             cmd = "stats["
             for par in self._fit_config.get_pars():
                 if par in kwargs:
-                    idx = par.get_bin(kwargs[par])
+                    idx = self._fit_config.get_par(par).get_bin(
+                        kwargs[par])
                     cmd += str(idx)+","
                 else:
                     cmd += ":,"
-- 
2.43.0


From 1ed93ba2590e044bd3fa091c4f973571c466fea1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:09:44 +0000
Subject: [PATCH 24/45] fix: raw statistic at given parameter values when not
 per bin

---
 echidna/fit/minimise.py | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/echidna/fit/minimise.py b/echidna/fit/minimise.py
index 1e35c7e..4081135 100644
--- a/echidna/fit/minimise.py
+++ b/echidna/fit/minimise.py
@@ -216,11 +216,9 @@ class GridSearch(FitResults, Minimiser):
             par = self._fit_config.get_par(par_name)
             bins.append(par.get_bin(kwargs[par_name]))
         stats = copy.copy(self._stats[tuple(bins)])
-        while stats.shape[0] == 1:
+        while stats.shape and stats.shape[0] == 1:
             stats = stats.sum(0)
-        if type(stats) is float:
-            return stats
-        while stats.shape[-1] == 1:
+        while stats.shape and stats.shape[-1] == 1:
             stats = stats.sum(-1)
         return stats
 
-- 
2.43.0


From b1c849514b36df4589b205ea06880274474915f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:09:44 +0000
Subject: [PATCH 25/45] fix: check the shape of per-bin results of the
 minimised function

---
 echidna/fit/minimise.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/echidna/fit/minimise.py b/echidna/fit/minimise.py
index 4081135..d9e4e7f 100644
--- a/echidna/fit/minimise.py
+++ b/echidna/fit/minimise.py
@@ -327,12 +327,12 @@ class GridSearch(FitResults, Minimiser):
                     raise TypeError("Expecting result of type numpy.ndarray "
                                     "(not %s), for per_bin enabled" %
                                     type(result))
-                    expected_shape = self._spectra_config.get_shape()
-                    if result.shape != expected_shape:
-                        raise ValueError(
-                            "Expecting result to be numpy array with shape "
-                            "%s (not %s), for per_bin enabled" %
-                            (str(expected_shape), str(result.shape)))
+                expected_shape = self._spectra_config.get_shape()
+                if result.shape != expected_shape:
+                    raise ValueError(
+                        "Expecting result to be numpy array with shape "
+                        "%s (not %s), for per_bin enabled" %
+                        (str(expected_shape), str(result.shape)))
             else:
                 result = numpy.array(result)
             self.set_stat(result, tuple(indices))
-- 
2.43.0


From c5c3c9e8b2471a64db91a9e107bbcabb930e3748 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:48:28 +0000
Subject: [PATCH 26/45] fix: statistic of one signal scale is read from the
 stored statistics

---
 echidna/fit/fit_results.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/echidna/fit/fit_results.py b/echidna/fit/fit_results.py
index 9f35a0d..c8cfa04 100644
--- a/echidna/fit/fit_results.py
+++ b/echidna/fit/fit_results.py
@@ -210,7 +210,7 @@ class LimitResults(FitResults):
         Returns:
           float: The test statistic without the penalty contribution.
         """
-        return self._limit_stat[i]
+        return self._stats[i]
 
     def get_stats(self):
         """Gets the test statistics without the penalty contribution.
-- 
2.43.0


From 209ab2594cc7a033a96f4416f97603231535f4b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:48:29 +0000
Subject: [PATCH 27/45] fix: one full statistic per signal scale when
 statistics are per bin

---
 echidna/fit/fit_results.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/echidna/fit/fit_results.py b/echidna/fit/fit_results.py
index c8cfa04..4090036 100644
--- a/echidna/fit/fit_results.py
+++ b/echidna/fit/fit_results.py
@@ -192,7 +192,7 @@ class LimitResults(FitResults):
         Returns:
           numpy.ndarray: The test statistics array with penalty terms addded.
         """
-        stats = numpy.zeros(self._stats.shape)
+        stats = numpy.zeros(len(self._stats))
         for i, stat in enumerate(self._stats):
             stat = numpy.sum(stat)
             for penalty in self._penalty_terms[i]:
-- 
2.43.0


From 9742555c13220bca2e6b23ee66c825d16a29817b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:53:27 +0000
Subject: [PATCH 28/45] fix: a value absent from the parameter values raises
 ValueError

---
 echidna/core/parameter.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/echidna/core/parameter.py b/echidna/core/parameter.py
index fc6df33..f42f2bc 100644
--- a/echidna/core/parameter.py
+++ b/echidna/core/parameter.py
@@ -513,7 +513,7 @@ class FitParameter(Parameter):
         """
         indices = numpy.where(self.get_values() == value)[0]
         if len(indices) == 0:
-            raise ValueError("No value %.2g found in parameter values " +
+            raise ValueError("No value %.2g found in parameter values "
                              "for parameter %s." % (value, self._name))
         return int(indices[0])
 
-- 
2.43.0


From b4328090223a0b248719d4ec4af679d319a03522 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:53:27 +0000
Subject: [PATCH 29/45] fix: FitParameter.set_par accepts settings that are
 None or not numbers

---
 echidna/core/parameter.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/echidna/core/parameter.py b/echidna/core/parameter.py
index f42f2bc..ec40028 100644
--- a/echidna/core/parameter.py
+++ b/echidna/core/parameter.py
@@ -557,8 +557,8 @@ class FitParameter(Parameter):
           TypeError: Unknown variable type passed as a kwarg.
         """
         for kw in kwargs:
-            self._logger.warning("Updating value for %s (%.4g --> %.4g)" %
-                                 (kw, self.__dict__["_"+kw], kwargs[kw]))
+            self._logger.warning("Updating value for %s (%s --> %s)" %
+                                 (kw, self.__dict__.get("_"+kw), kwargs[kw]))
             if kw == "prior":
                 self._prior = float(kwargs[kw])
             elif kw == "sigma":
-- 
2.43.0


From ce7b431588e71cedb0ab7c9390cdb351d5da008f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:53:27 +0000
Subject: [PATCH 30/45] fix: number of bins of a fit parameter stays an integer

---
 echidna/core/parameter.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/echidna/core/parameter.py b/echidna/core/parameter.py
index ec40028..f97d86e 100644
--- a/echidna/core/parameter.py
+++ b/echidna/core/parameter.py
@@ -571,7 +571,7 @@ class FitParameter(Parameter):
             elif kw == "high":
                 self._high = float(kwargs[kw])
             elif kw == "bins":
-                self._bins = float(kwargs[kw])
+                self._bins = int(kwargs[kw])
             elif kw == "logscale":
                 self._logscale = bool(kwargs[kw])
             elif kw == "base":
-- 
2.43.0


From 30a256d62a7f6142319b89087ca65b0c21eb42ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:53:27 +0000
Subject: [PATCH 31/45] fix: logscale_deviation gives the requested number of
 values

---
 echidna/core/parameter.py | 22 +++++++++++++++-------
 1 file changed, 15 insertions(+), 7 deletions(-)

diff --git a/echidna/core/parameter.py b/echidna/core/parameter.py
index f97d86e..c1d102e 100644
--- a/echidna/core/parameter.py
+++ b/echidna/core/parameter.py
@@ -459,17 +459,25 @@ class FitParameter(Parameter):
                 delta_low = numpy.absolute(self._low - self._prior)
                 delta_high = numpy.absolute(self._high - self._prior)
 
-                # Calculate bins above and below, distributing evenly
-                bins_low = numpy.rint(
-                    (delta_low) / (delta_low + delta_high) * (self._bins + 1))
-                bins_high = numpy.rint(
-                    (delta_high) / (delta_low + delta_high) * (self._bins + 1))
+                # Calculate steps above and below, distributing evenly. With
+                # the prior itself there are bins values in total
+                steps = self._bins - 1
+                steps_low = int(numpy.rint(
+                    delta_low / (delta_low + delta_high) * (steps + 2))) - 1
+                if delta_high > 0.:  # At least one step, to reach the limit
+                    steps_low = min(steps_low, steps - 1)
+                else:
+                    steps_low = steps
+                if delta_low > 0.:
+                    steps_low = max(steps_low, 1)
+                else:
+                    steps_low = 0
 
                 # Calculate arrays of deviation, linear in logspace
                 deltas_low = numpy.linspace(
-                    0., numpy.log(delta_low + 1.), bins_low)
+                    0., numpy.log(delta_low + 1.), steps_low + 1)
                 deltas_high = numpy.linspace(
-                    0., numpy.log(delta_high + 1.), bins_high)
+                    0., numpy.log(delta_high + 1.), steps - steps_low + 1)
 
                 # Create positive and negative arrays of values
                 # [::-1] reverses array
-- 
2.43.0


From 1b874f37094437634878f60ea47a8f350eb9de7e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:14:58 +0000
Subject: [PATCH 32/45] fix: store imported a module that does not exist

---
 echidna/output/store.py | 1 -
 1 file changed, 1 deletion(-)

diff --git a/echidna/output/store.py b/echidna/output/store.py
index 9a94df9..905a0de 100644
--- a/echidna/output/store.py
+++ b/echidna/output/store.py
@@ -3,7 +3,6 @@ import numpy
 from echidna.core.spectra import Spectra
 from echidna.core.config import (SpectraConfig, SpectraParameter,
                                  SpectraFitConfig, GlobalFitConfig)
-from echidna.limit.summary import Summary, ReducedSummary
 from echidna.fit.fit_results import FitResults, LimitResults
 from echidna.fit.minimise import GridSearch
 
-- 
2.43.0


From 29af4262db4dfb1d7a999a2aa454305ef9e45fe5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:14:58 +0000
Subject: [PATCH 33/45] fix: a supplied minimum statistic of zero (or an array)
 is used

---
 echidna/limit/limit.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/echidna/limit/limit.py b/echidna/limit/limit.py
index aa33dcc..e8b7808 100644
--- a/echidna/limit/limit.py
+++ b/echidna/limit/limit.py
@@ -120,7 +120,7 @@ class Limit(object):
         """
         par = self._signal.get_fit_config().get_par("rate")
 
-        if min_stat:  # If supplied specific stat_zero use this
+        if min_stat is not None:  # If supplied specific stat_zero use this
             self._logger.warning("Overriding min_stat with supplied value")
             logging.getLogger("extra").warning(" --> %s" % min_stat)
         else:  # check zero signal stat in case its not in self._stats
-- 
2.43.0


From 1f8a34403bd6e334aa541677bcd77662740cce58 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:15:06 +0000
Subject: [PATCH 34/45] fix: a limit can be set with a parameter that has no
 sigma

---
 echidna/limit/limit.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/echidna/limit/limit.py b/echidna/limit/limit.py
index e8b7808..734f7e5 100644
--- a/echidna/limit/limit.py
+++ b/echidna/limit/limit.py
@@ -202,8 +202,7 @@ class Limit(object):
                                                               parameter))
                 log_text += ("Prior: %.4g\n" %
                              cur_par.get_prior())
-                log_text += ("Sigma: %.4g\n" %
-                             cur_par.get_sigma())
+                log_text += "Sigma: %s\n" % cur_par.get_sigma()
                 log_text += ("Penalty term: %.4g\n" %
                              self._limit_results.get_penalty_term(i_limit,
                                                                   parameter))
@@ -263,7 +262,7 @@ class Limit(object):
                              self._limit_results.get_best_fit(i_limit,
                                                               parameter))
                 log_text += ("Prior: %.4g\n" % cur_par.get_prior())
-                log_text += ("Sigma: %.4g\n" % cur_par.get_sigma())
+                log_text += "Sigma: %s\n" % cur_par.get_sigma()
                 log_text += ("Penalty term: %.4g\n" %
                              self._limit_results.get_penalty_term(i_limit,
                                                                   parameter))
-- 
2.43.0


From 88ab95271774a939b61b8d8a7f03853918983ac3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:15:06 +0000
Subject: [PATCH 35/45] fix: limit search starts at the scale of the minimum
 full statistic

---
 echidna/limit/limit.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/echidna/limit/limit.py b/echidna/limit/limit.py
index 734f7e5..105920d 100644
--- a/echidna/limit/limit.py
+++ b/echidna/limit/limit.py
@@ -181,12 +181,12 @@ class Limit(object):
         # Convert stats to delta - subtracting minimum
         stats -= min_stat
 
-        # Also want to know index of minimum
-        min_bin = numpy.argmin(stats)
-
         self._limit_results._stats = stats
         stats = self._limit_results.get_full_stats()
 
+        # Also want to know index of minimum
+        min_bin = numpy.argmin(stats)
+
         try:
             # Slice from min_bin upwards
             log_text = ""
-- 
2.43.0


From 5091df0151cd789bf915a92c5aecf5fe44629dab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:46:35 +0000
Subject: [PATCH 36/45] fix: shrinking or rebinning a spectrum leaves configs
 shared with others alone

---
 echidna/core/config.py  | 13 +++++++++++++
 echidna/core/spectra.py |  5 ++++-
 2 files changed, 17 insertions(+), 1 deletion(-)

diff --git a/echidna/core/config.py b/echidna/core/config.py
index baba092..87e4631 100644
--- a/echidna/core/config.py
+++ b/echidna/core/config.py
@@ -9,6 +9,7 @@ import echidna.util.yaml_loader as yaml_loader
 
 import logging
 import abc
+import copy
 from collections import OrderedDict
 
 
@@ -673,6 +674,18 @@ class SpectraConfig(Config):
         super(SpectraConfig, self).__init__(config_name, parameters)
         self._type = "spectra"
 
+    def copy(self):
+        """ Copies the config.
+
+        Returns:
+          :class:`SpectraConfig`: Config with the same name and its own
+            copy of each parameter.
+        """
+        parameters = OrderedDict()
+        for parameter in self.get_pars():
+            parameters[parameter] = copy.copy(self.get_par(parameter))
+        return SpectraConfig(self._name, parameters)
+
     def dump(self):
         """ Dumps the spectra config to a config dictionary, containing
         all spectra parameters. The dictionary has the form specified
diff --git a/echidna/core/spectra.py b/echidna/core/spectra.py
index 722e8ce..7e80152 100644
--- a/echidna/core/spectra.py
+++ b/echidna/core/spectra.py
@@ -373,7 +373,8 @@ class Spectra(object):
                                  " new: %s for parameter %s"
                                  % (self._config.get_par(v)._bins,
                                     new_bins[i], v))
-        # Now do the rebinning
+        # Now do the rebinning, the config may be shared with other spectra
+        self._config = self._config.copy()
         for i, v in enumerate(self._config.get_pars()):
             self._config.get_par(v)._bins = new_bins[i]
 
@@ -495,6 +496,8 @@ class Spectra(object):
             if low > high:
                 raise ValueError("Lower bound %s is above upper bound %s "
                                  "for %s" % (low, high, par))
+        # The config may be shared with other spectra, so change a copy
+        self._config = self._config.copy()
         slices_low = []
         slices_high = []
         for par_name in self._config.get_pars():
-- 
2.43.0


From d8614f5121bde2d38535b46c777add42d2f378a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:46:52 +0000
Subject: [PATCH 37/45] fix: applying a rate keeps the scaling of the given
 spectrum

---
 echidna/core/parameter.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/echidna/core/parameter.py b/echidna/core/parameter.py
index c1d102e..76d85e8 100644
--- a/echidna/core/parameter.py
+++ b/echidna/core/parameter.py
@@ -5,6 +5,7 @@ Contains :class:`Parameter` and all classes that inherit from it.
 import numpy
 
 import abc
+import copy
 import logging
 import warnings
 
@@ -688,6 +689,7 @@ class RateParameter(FitParameter):
         if self._current_value is None:
             raise ValueError("Current value of rate parameter %s "
                              "has not been set" % self._name)
+        spectrum = copy.copy(spectrum)  # the given spectrum keeps its scaling
         spectrum.scale(self._current_value)
         return spectrum
 
-- 
2.43.0


From 718cd9fb53899b58740ce580db641094584b376a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:46:52 +0000
Subject: [PATCH 38/45] fix: every global parameter is applied to the signal

---
 echidna/fit/fit.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/echidna/fit/fit.py b/echidna/fit/fit.py
index 9809817..fdeea2e 100644
--- a/echidna/fit/fit.py
+++ b/echidna/fit/fit.py
@@ -539,8 +539,9 @@ class Fit(object):
                         signal = self.load_pre_made(self._signal,
                                                     global_pars)
                     else:
+                        signal = self._signal
                         for parameter in global_pars:
-                            signal = parameter.apply_to(self._signal)
+                            signal = parameter.apply_to(signal)
                     signal._fit_config = fit_config
                     self._global_dict[background_name][cur_val] = signal
                 else:
-- 
2.43.0


From 3e0e41132c6ae640b5d897eeb9a21d4e0115a807 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:47:30 +0000
Subject: [PATCH 39/45] fix: convolved spectra are remembered for each spectrum

---
 echidna/fit/fit.py | 23 +++++++++++------------
 1 file changed, 11 insertions(+), 12 deletions(-)

diff --git a/echidna/fit/fit.py b/echidna/fit/fit.py
index fdeea2e..4d3394f 100644
--- a/echidna/fit/fit.py
+++ b/echidna/fit/fit.py
@@ -494,10 +494,10 @@ class Fit(object):
                                            self._floating_pars):
             # Apply global parameters first
             if global_pars:
-                background_name = spectrum.get_background_name()
-                if background_name not in self._global_dict:
-                    self._global_dict[background_name] = {}
-                if cur_val not in self._global_dict[background_name]:
+                original = spectrum  # backgrounds may share a name
+                if original not in self._global_dict:
+                    self._global_dict[original] = {}
+                if cur_val not in self._global_dict[original]:
                     fit_config = spectrum._fit_config
                     if self._use_pre_made:  # Load pre-made spectrum from file
                         spectrum = self.load_pre_made(spectrum, global_pars)
@@ -505,9 +505,9 @@ class Fit(object):
                         for parameter in global_pars:
                             spectrum = parameter.apply_to(spectrum)
                     spectrum._fit_config = fit_config
-                    self._global_dict[background_name][cur_val] = spectrum
+                    self._global_dict[original][cur_val] = spectrum
                 else:
-                    spectrum = self._global_dict[background_name][cur_val]
+                    spectrum = self._global_dict[original][cur_val]
 
             # Apply spectrum-specific parameters
             if spectrum._fit_config:
@@ -530,10 +530,9 @@ class Fit(object):
         if self._signal:
             if global_pars:
                 num_decays = self._signal._num_decays
-                background_name = self._signal.get_background_name()
-                if background_name not in self._global_dict:
-                    self._global_dict[background_name] = {}
-                if cur_val not in self._global_dict[background_name]:
+                if self._signal not in self._global_dict:
+                    self._global_dict[self._signal] = {}
+                if cur_val not in self._global_dict[self._signal]:
                     fit_config = self._signal._fit_config
                     if self._use_pre_made:  # Load pre-made spectrum from file
                         signal = self.load_pre_made(self._signal,
@@ -543,9 +542,9 @@ class Fit(object):
                         for parameter in global_pars:
                             signal = parameter.apply_to(signal)
                     signal._fit_config = fit_config
-                    self._global_dict[background_name][cur_val] = signal
+                    self._global_dict[self._signal][cur_val] = signal
                 else:
-                    signal = self._global_dict[background_name][cur_val]
+                    signal = self._global_dict[self._signal][cur_val]
                 self.shrink_to_data(signal)
                 signal.rebin(self._data._data.shape)
                 signal.scale(num_decays)
-- 
2.43.0


From 96c061587e19462b98dc754e5237381e1cb3b2a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:47:30 +0000
Subject: [PATCH 40/45] fix: close trial values have convolved spectra of their
 own

---
 echidna/fit/fit.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/echidna/fit/fit.py b/echidna/fit/fit.py
index 4d3394f..6f64cb5 100644
--- a/echidna/fit/fit.py
+++ b/echidna/fit/fit.py
@@ -489,7 +489,8 @@ class Fit(object):
         global_pars = self._fit_config.get_global_pars()
         cur_val = ""
         for parameter in global_pars:
-            cur_val += parameter._name + str(parameter._current_value) + "_"
+            cur_val += (parameter._name + repr(parameter._current_value) +
+                        "_")
         for spectrum, floating_pars in zip(self._floating_backgrounds,
                                            self._floating_pars):
             # Apply global parameters first
-- 
2.43.0


From 4cf631a1eca4883cb1c4e4f468675ce9b33a1292 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:05:12 +0000
Subject: [PATCH 41/45] fix: extractors count triggers and particles instead of
 comparing methods

ds.GetEVCount == 0 and mc.GetMCParticleCount > 0 compared the bound methods
with numbers (never equal, always greater), so events without a trigger or
without Monte Carlo particles were not rejected.
---
 echidna/core/dsextract.py | 24 ++++++++++++------------
 1 file changed, 12 insertions(+), 12 deletions(-)

diff --git a/echidna/core/dsextract.py b/echidna/core/dsextract.py
index 83c01b4..0b13006 100644
--- a/echidna/core/dsextract.py
+++ b/echidna/core/dsextract.py
@@ -148,7 +148,7 @@ class EnergyExtractMC(Extractor):
             if mc.GetMCParticle(0).GetPosition().Mag() < self._fv_radius:
                 return True  # Passes fiducial volume cut
             return False  # Fails fiducial volume cut
-        if ds.GetEVCount == 0:
+        if ds.GetEVCount() == 0:
             return False  # Failed reconstruction
         # Reco cut on MC value requires 1 ev else which position to use?
         if ds.GetEVCount() != 1:
@@ -170,9 +170,9 @@ class EnergyExtractMC(Extractor):
           bool: Validity boolean
         '''
         if self._external:
-            if ds.GetEVCount == 0:
+            if ds.GetEVCount() == 0:
                 return False  # Failed reconstruction
-        if mc.GetMCParticleCount > 0:
+        if mc.GetMCParticleCount() > 0:
             if self._fv_radius:
                 return self.fv_cut_root(mc, ds)
             return True  # Passes particle count and no fid v cut
@@ -422,7 +422,7 @@ class EnergyExtractTruth(Extractor):
             if mc.GetMCParticle(0).GetPosition().Mag() < self._fv_radius:
                 return True  # Passes fiducial volume cut
             return False  # Fails fiducial volume cut
-        if ds.GetEVCount == 0:
+        if ds.GetEVCount() == 0:
             return False  # Failed reconstruction
         # Reco cut on MC value requires 1 ev else which position to use?
         if ds.GetEVCount() != 1:
@@ -444,9 +444,9 @@ class EnergyExtractTruth(Extractor):
           bool: Validity boolean
         '''
         if self._external:
-            if ds.GetEVCount == 0:
+            if ds.GetEVCount() == 0:
                 return False  # Failed reconstruction
-        if mc.GetMCParticleCount > 0:
+        if mc.GetMCParticleCount() > 0:
             if self._fv_radius:
                 return self.fv_cut_root(mc, ds)
             return True  # Passes particle count and no fid v cut
@@ -566,7 +566,7 @@ class RadialExtractMC(Extractor):
             if mc.GetMCParticle(0).GetPosition().Mag() < self._fv_radius:
                 return True  # Passes fiducial volume cut
             return False  # Fails fiducial volume cut
-        if ds.GetEVCount == 0:
+        if ds.GetEVCount() == 0:
             return False  # Failed reconstruction
         # Reco cut on MC value requires 1 ev else which position to use?
         if ds.GetEVCount() != 1:
@@ -587,7 +587,7 @@ class RadialExtractMC(Extractor):
         Returns:
           bool: Validity boolean
         '''
-        if mc.GetMCParticleCount > 0:
+        if mc.GetMCParticleCount() > 0:
             if self._fv_radius:
                 return self.fv_cut_root(mc, ds)
             return True  # Passes particle count and no fid v cut
@@ -853,7 +853,7 @@ class Radial3ExtractMC(Extractor):
             if mc.GetMCParticle(0).GetPosition().Mag() < self._fv_radius:
                 return True  # Passes fiducial volume cut
             return False  # Fails fiducial volume cut
-        if ds.GetEVCount == 0:
+        if ds.GetEVCount() == 0:
             return False  # Failed reconstruction
         # Reco cut on MC value requires 1 ev else which position to use?
         if ds.GetEVCount() != 1:
@@ -874,7 +874,7 @@ class Radial3ExtractMC(Extractor):
         Returns:
           bool: Validity boolean
         '''
-        if mc.GetMCParticleCount > 0:
+        if mc.GetMCParticleCount() > 0:
             if self._fv_radius:
                 return self.fv_cut_root(mc, ds)
             return True  # Passes particle count and no fid v cut
@@ -1143,7 +1143,7 @@ class ZRadial3ExtractMC(Extractor):
             if mc.GetMCParticle(0).GetPosition().Mag() < self._fv_radius:
                 return True  # Passes fiducial volume cut
             return False  # Fails fiducial volume cut
-        if ds.GetEVCount == 0:
+        if ds.GetEVCount() == 0:
             return False  # Failed reconstruction
         # Reco cut on MC value requires 1 ev else which position to use?
         if ds.GetEVCount() != 1:
@@ -1164,7 +1164,7 @@ class ZRadial3ExtractMC(Extractor):
         Returns:
           bool: Validity boolean
         '''
-        if mc.GetMCParticleCount > 0:
+        if mc.GetMCParticleCount() > 0:
             if self._fv_radius:
                 return self.fv_cut_root(mc, ds)
             return True  # Passes particle count and no fid v cut
-- 
2.43.0


From 93d830a96e54e00914e0c6c2902bdc664dc4b35b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:05:35 +0000
Subject: [PATCH 42/45] fix: reconstructed signed radius of a RAT event

Two method names were misspelt and the value of events below the equator was
not negative, unlike the ntuple and Monte Carlo counterparts.
---
 echidna/core/dsextract.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/echidna/core/dsextract.py b/echidna/core/dsextract.py
index 0b13006..553ae1f 100644
--- a/echidna/core/dsextract.py
+++ b/echidna/core/dsextract.py
@@ -1332,9 +1332,9 @@ class ZRadial3ExtractReco(Extractor):
           float: Reconstructed
             :math:``(z/\lvert z \rvert)(radius/outer\_radius)^3`
         '''
-        if ev.GetDefaultFitVertec().GetPositon()[2] < 0.:
-            return 1. * (ev.GetDefaultFitVertex().GetPosition().Mag() /
-                         self._outer_radius) ** 3
+        if ev.GetDefaultFitVertex().GetPosition()[2] < 0.:
+            return -1. * (ev.GetDefaultFitVertex().GetPosition().Mag() /
+                          self._outer_radius) ** 3
         else:
             return (ev.GetDefaultFitVertex().GetPosition().Mag() /
                     self._outer_radius) ** 3
-- 
2.43.0


From 3be8a63d161198c74802bdb3601da120acd55fd4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:06:01 +0000
Subject: [PATCH 43/45] fix: the signed radius extractors can be created

Their constructors left out the base class's external argument, which failed
for every call, and did not accept the external flag the factory passes on.
---
 echidna/core/dsextract.py | 31 +++++++++++++++++++++++++++----
 1 file changed, 27 insertions(+), 4 deletions(-)

diff --git a/echidna/core/dsextract.py b/echidna/core/dsextract.py
index 553ae1f..d328180 100644
--- a/echidna/core/dsextract.py
+++ b/echidna/core/dsextract.py
@@ -1084,22 +1084,33 @@ class ZRadial3ExtractMC(Extractor):
         :math:``(z/\lvert z \rvert)(radius/outer\_radius)^3`. If None then
         the av_radius in :class:`echidna.calc.constants` is used in the
         calculation.
+      external (bool, optional): Set to True for external backgrounds.
+        Default is False.
 
     Attributes:
       _outer_radius (float): The fixed radius used in calculating
         :math:``(z/\lvert z \rvert)(radius/outer\_radius)^3`.
       _reco_pos (bool): If true then position cuts will be made on
       reconstructed position. If False then MC position is used for cuts.
+
+    Raises:
+      ValueError: If external is True. Cant have MC Positions info for
+        externals. These are original isotope positions
+        (outside active volume).
     '''
 
-    def __init__(self, fv_radius=None, outer_radius=None, reco_pos=False):
+    def __init__(self, fv_radius=None, outer_radius=None, external=False,
+                 reco_pos=False):
         '''Initialise the class
         '''
-        super(ZRadial3ExtractMC, self).__init__("zradial3_mc", fv_radius)
+        super(ZRadial3ExtractMC, self).__init__("zradial3_mc", fv_radius,
+                                                external)
         if outer_radius:
             self._outer_radius = outer_radius
         else:
             self._outer_radius = const._av_radius
+        if external:
+            raise ValueError("External is True. No mc pos info for externals")
         self._reco_pos = reco_pos
 
     def fv_cut_ntuple(self, entry):
@@ -1237,6 +1248,8 @@ class ZRadial3ExtractReco(Extractor):
         :math:``(z/\lvert z \rvert)(radius/outer\_radius)^3`. If None then
         the av_radius in :class:`echidna.calc.constants` is used in the
         calculation.
+      external (bool, optional): Set to True for external backgrounds.
+        Default is False.
       mc_pos (bool, optional): If true then  MC position is used for cuts.
         If False (default) then position cuts will be made on reconstructed
         position.
@@ -1246,16 +1259,26 @@ class ZRadial3ExtractReco(Extractor):
         :math:``(z/\lvert z \rvert)(radius/outer\_radius)^3`.
       _mc_pos (bool): If true then MC position is used for cuts.
         If False then position cuts will be made on reconstructed position.
+
+    Raises:
+      ValueError: If external and mc_pos is True. Cant have MC Positions info
+        for externals. These are original isotope positions
+        (outside active volume).
     '''
 
-    def __init__(self, fv_radius=None, outer_radius=None, mc_pos=False):
+    def __init__(self, fv_radius=None, outer_radius=None, external=False,
+                 mc_pos=False):
         '''Initialise the class
         '''
-        super(ZRadial3ExtractReco, self).__init__("zradial3_reco", fv_radius)
+        super(ZRadial3ExtractReco, self).__init__("zradial3_reco", fv_radius,
+                                                  external)
         if outer_radius:
             self._outer_radius = outer_radius
         else:
             self._outer_radius = const._av_radius
+        if external and mc_pos:
+            raise ValueError("External and mc_pos are True. Can't have mc_pos "
+                             "for externals.")
         self._mc_pos = mc_pos
 
     def fv_cut_ntuple(self, entry):
-- 
2.43.0


From 0558001d86b54ec6d6d45c86d0d72edf00599aeb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:06:01 +0000
Subject: [PATCH 44/45] fix: the last ntuple event is filled when bipo cuts are
 applied

An event was filled when the following entry was read, so the last entry of
the chain was always lost.
---
 echidna/core/fill_spectrum.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/echidna/core/fill_spectrum.py b/echidna/core/fill_spectrum.py
index ca3860a..aba566d 100644
--- a/echidna/core/fill_spectrum.py
+++ b/echidna/core/fill_spectrum.py
@@ -51,6 +51,12 @@ def _bipo_ntuple(spectrum, chain, extractors):
             else:
                 check_next = False
                 break
+    if check_next:  # No event follows the last one
+        try:
+            spectrum.fill(**fill_kwargs)
+            spectrum._raw_events += 1
+        except ValueError:
+            pass
     return spectrum
 
 
-- 
2.43.0


From f91979fd04004a57080a8c708910dd3be2821426 Mon Sep 17 00:00:00 2001
From: x <x@x>
Date: Thu, 19 Nov 2026 07:00:40 +0000
Subject: [PATCH 45/45] fix: an empty plotting style survives saving and
 loading a spectrum

---
 echidna/output/store.py | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/echidna/output/store.py b/echidna/output/store.py
index 905a0de..5ee473a 100644
--- a/echidna/output/store.py
+++ b/echidna/output/store.py
@@ -107,10 +107,7 @@ def dump(file_path, spectrum, append=False, overwrite=False):
         group.attrs["num_decays"] = spectrum.get_num_decays()
         group.attrs["raw_events"] = spectrum._raw_events
         group.attrs["bipo"] = spectrum.get_bipo()
-        if len(spectrum.get_style()) == 0:
-            group.attrs["style"] = ""
-        else:
-            group.attrs["style"] = json.dumps(spectrum.get_style())
+        group.attrs["style"] = json.dumps(spectrum.get_style())
         if len(spectrum._rois) == 0:
             group.attrs["rois"] = ""
         else:
-- 
2.43.0

