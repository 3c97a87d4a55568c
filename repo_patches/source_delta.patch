From a197a704c4fb4d894ee8bbece3b94c360550c91c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:00 +0000
Subject: [PATCH 01/84] fix: accept the documented energy unit names 'hartree'
 and 'rydberg'

---
 quantas/utils/physics/units.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/quantas/utils/physics/units.py b/quantas/utils/physics/units.py
index 54e92ea..5a5415d 100644
--- a/quantas/utils/physics/units.py
+++ b/quantas/utils/physics/units.py
@@ -149,11 +149,11 @@ def convert_energy(val, old_scale, new_scale):
 
     """
     # Convert from `old_scale` to Hartree
-    if old_scale.lower() in ['Hartree', 'Ha', 'ha']:
+    if old_scale.lower() in ['hartree', 'ha']:
         energy = np.asanyarray(val)
     elif old_scale.lower() in ['electron volt', 'eV', 'ev']:
         energy = np.asanyarray(val) * (eV / Ha)
-    elif old_scale.lower() in ['Rydberg', 'Ry', 'ry']:
+    elif old_scale.lower() in ['rydberg', 'ry']:
         energy = np.asanyarray(val) * (Ry / Ha)
     elif old_scale.lower() in ['kJ/mol', 'kj/mol', 'kjmol']:
         energy = np.asanyarray(val) * (1000. / Ha / N)
@@ -162,11 +162,11 @@ def convert_energy(val, old_scale, new_scale):
                                   'are Hartree, eV, Rydberg and kJ/mol'
                                   % old_scale)
     # and from Hartree to `new_scale`.
-    if new_scale.lower() in ['Hartree', 'Ha', 'ha']:
+    if new_scale.lower() in ['hartree', 'ha']:
         res = energy
     elif new_scale.lower() in ['electron volt', 'eV', 'ev']:
         res = energy * (Ha / eV)
-    elif new_scale.lower() in ['Rydberg', 'Ry', 'ry']:
+    elif new_scale.lower() in ['rydberg', 'ry']:
         res = energy * (Ha / Ry)
     elif new_scale.lower() in ['kJ/mol', 'kj/mol', 'kjmol']:
         res = energy * (Ha * N / 1000.)
-- 
2.43.0


From 8d6f55003b0e84127e2c756495fc236b34d2f830 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:00 +0000
Subject: [PATCH 02/84] fix: energy_to_pressure and pressure_to_energy no
 longer modify their argument

---
 quantas/utils/physics/units.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/quantas/utils/physics/units.py b/quantas/utils/physics/units.py
index 5a5415d..a98a940 100644
--- a/quantas/utils/physics/units.py
+++ b/quantas/utils/physics/units.py
@@ -311,7 +311,7 @@ def energy_to_pressure(val, energy_scale, volume_scale, pressure_scale):
     [  1.60210478 320.42095571]
 
     """
-    res = np.asarray(val)
+    res = np.array(val, dtype=float)
     # Convert energy in J
     if energy_scale.lower() in ['hartree', 'ha']:
         res *= Ha
@@ -406,7 +406,7 @@ def pressure_to_energy(val, energy_scale, volume_scale, pressure_scale):
     [0.00022938 0.00045876]
 
     """
-    res = np.asarray(val)
+    res = np.array(val, dtype=float)
     # Convert pressures in Pascals
     if pressure_scale.lower() in ['gpa']:
         res *= giga
-- 
2.43.0


From 033fbbac6f4f4631040919c4c06dafd05d4e525a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:39:50 +0000
Subject: [PATCH 03/84] fix: temperature and pressure ranges never exceed the
 requested maximum

---
 quantas/core/calculator.py   | 13 +++++++++++++
 quantas/harmonic/harmonic.py |  2 +-
 quantas/qha/qha.py           |  4 ++--
 3 files changed, 16 insertions(+), 3 deletions(-)

diff --git a/quantas/core/calculator.py b/quantas/core/calculator.py
index 2d35f01..caac088 100644
--- a/quantas/core/calculator.py
+++ b/quantas/core/calculator.py
@@ -13,6 +13,8 @@ This module contains a basic class that can be used as a base for other more
 sophisticated classes.
 """
 
+import numpy as np
+
 from quantas.cmdline.utils.messages import echo
 from quantas.cmdline.utils.messages import echo_warning
 from quantas.cmdline.utils.messages import echo_error
@@ -95,6 +97,17 @@ class BasicCalculator(object):
         'var2': 'var2 description',
         }
 
+    @staticmethod
+    def set_range(minimum, maximum, step):
+        """
+        Return the values minimum, minimum + step, minimum + 2*step, ... that
+        do not exceed the maximum value (a value that equals the maximum, up
+        to rounding errors, is included).
+
+        """
+        n = int(np.floor((maximum - minimum) / step + 1.e-8)) + 1
+        return minimum + step * np.arange(n, dtype=np.float64)
+
     def echo(self, msg):
         echo(msg, self.log, silent=self.silent)
         return
diff --git a/quantas/harmonic/harmonic.py b/quantas/harmonic/harmonic.py
index 9cc4f4d..ef084ec 100644
--- a/quantas/harmonic/harmonic.py
+++ b/quantas/harmonic/harmonic.py
@@ -133,7 +133,7 @@ class HACalculator(BasicCalculator):
             values with float type.
 
         '''
-        self._temperature = np.arange(temp[0], temp[1]+temp[2], temp[2])
+        self._temperature = self.set_range(temp[0], temp[1], temp[2])
         return
 
     def read_input(self, filename):
diff --git a/quantas/qha/qha.py b/quantas/qha/qha.py
index 80cedf1..f188a88 100644
--- a/quantas/qha/qha.py
+++ b/quantas/qha/qha.py
@@ -284,7 +284,7 @@ class QHACalculator(BasicCalculator):
             values with float type.
 
         """
-        self._pressure = np.arange(press[0], press[1]+press[2], press[2])
+        self._pressure = self.set_range(press[0], press[1], press[2])
         return
 
     @property
@@ -310,7 +310,7 @@ class QHACalculator(BasicCalculator):
             values with float type.
 
         """
-        self._temperature = np.arange(temp[0], temp[1]+temp[2], temp[2])
+        self._temperature = self.set_range(temp[0], temp[1], temp[2])
         return
 
     def read_input(self, filename):
-- 
2.43.0


From 8607f605ec236253cf1722f6f284d447cb29f730 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:58:10 +0000
Subject: [PATCH 04/84] fix: report an error when the quasi-harmonic model has
 no minimum volume

---
 quantas/qha/qha.py | 29 +++++++++++++++++++----------
 1 file changed, 19 insertions(+), 10 deletions(-)

diff --git a/quantas/qha/qha.py b/quantas/qha/qha.py
index f188a88..743fcdf 100644
--- a/quantas/qha/qha.py
+++ b/quantas/qha/qha.py
@@ -461,14 +461,19 @@ class QHACalculator(BasicCalculator):
             acoustic = convert_frequency(self.acoustic, self._funit, 'Hz')
         else:
             acoustic = None
-        if self.frequency_interpolation.is_on():
-            self.echo_debug('Switch to frequency interpolation mode')
-            self.run_frequency_interpolation(T, phonons, grid, idx, acoustic)
-        if self.thermodynamic_interpolation.is_on():
-            self.echo_debug('Switch to thermodynamics interpolation mode')
-            self.run_thermodynamics_interpolation(T, phonons,grid, idx,
-                                                  acoustic
-                                                  )
+        try:
+            if self.frequency_interpolation.is_on():
+                self.echo_debug('Switch to frequency interpolation mode')
+                self.run_frequency_interpolation(T, phonons, grid, idx,
+                                                 acoustic)
+            if self.thermodynamic_interpolation.is_on():
+                self.echo_debug('Switch to thermodynamics interpolation mode')
+                self.run_thermodynamics_interpolation(T, phonons,grid, idx,
+                                                      acoustic
+                                                      )
+        except RuntimeError as exc:
+            self.error = 'Volume minimization failed: {}'.format(exc)
+            return
         self._finalize_run()
         
         self.echo('')
@@ -1051,10 +1056,14 @@ class QHACalculator(BasicCalculator):
             if isinstance(parameters, type(None)):
                 parameters = polyfit(volume, free_energy, self._edeg)
             pressure = self.set_target_pressure(pressure)
-            volume_PT = find_polynomial_minimum(parameters, pressure)[0]
-            return volume_PT, 0., 0.
+            minima = find_polynomial_minimum(parameters, pressure)
+            if len(minima) == 0:
+                raise RuntimeError('the fitted polynomial has no minimum')
+            return minima[0], 0., 0.
         elif self.eos_minimization.is_on():
             eos_pars, _ = self.find_eos_minimum(volume, free_energy, pressure)
+            if not (np.all(np.isfinite(eos_pars)) and eos_pars[1] > 0.):
+                raise RuntimeError('the fitted EoS has no minimum')
             eos_pars[1] = energy_to_pressure(eos_pars[1], self._eunit,
                                              self._vunit, self._punit)
             volume_PT = eos_pars[3]
-- 
2.43.0


From dbca3b32a57d1a1d2e0862e61cbb4049dbffbbef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:58:10 +0000
Subject: [PATCH 05/84] fix: missing acoustic frequencies are reported as an
 error instead of a crash

---
 quantas/qha/qha.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/quantas/qha/qha.py b/quantas/qha/qha.py
index 743fcdf..d669e61 100644
--- a/quantas/qha/qha.py
+++ b/quantas/qha/qha.py
@@ -259,7 +259,7 @@ class QHACalculator(BasicCalculator):
         ndarray(dtype=float, ndim=2)
             Array containing the acoustic frequency values at each volume.
         """
-        return self.input.acoustic_kieffer
+        return getattr(self.input, 'acoustic_kieffer', None)
 
     @property
     def pressure(self):
-- 
2.43.0


From 5f51d7e29b271077a52279ac99a74c945e86b3db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:58:10 +0000
Subject: [PATCH 06/84] fix: unit of Cp datasets and job title in the QHA
 result file

---
 quantas/qha/qha.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/quantas/qha/qha.py b/quantas/qha/qha.py
index d669e61..0ac2dcf 100644
--- a/quantas/qha/qha.py
+++ b/quantas/qha/qha.py
@@ -1253,7 +1253,7 @@ calculations performed with the following settings:
 
 Thermodynamics and mechanical properties were calculated as a function of
 pressure and temperature.
-""".format(self.input.job if hasattr(self.input, 'job') else 'Unknown',
+""".format(self.input.jobname,
            self._eunit, self._vunit, self._funit, self._tunit, self._punit,
            'frequency' if self.frequency_interpolation.is_on() else 'thermodynamic',
            'polynomial' if self.polynomial_minimization.is_on() else 'EoS'
@@ -1289,7 +1289,7 @@ pressure and temperature.
             for prop in properties:
                 dset = f.create_dataset(prop, data=self.results[prop])
                 dset.attrs['desc'] = self.descriptions[prop]
-                if prop == 'Cv' or prop == 'S':
+                if prop in ('Cv', 'S', 'Cp', 'Cp-Cv'):
                     dset.attrs['unit'] = 'm'+self._eunit
                 elif prop == 'VT':
                     dset.attrs['unit'] = self._vunit
-- 
2.43.0


From e4f557c4550c2d3eb181ab6a7fcdeac8d188631b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:58:10 +0000
Subject: [PATCH 07/84] fix: the QHA report labels volumes with the selected
 unit

---
 quantas/qha/qha.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/quantas/qha/qha.py b/quantas/qha/qha.py
index 0ac2dcf..7f54f71 100644
--- a/quantas/qha/qha.py
+++ b/quantas/qha/qha.py
@@ -1214,7 +1214,7 @@ class QHACalculator(BasicCalculator):
             self.echo(
                 '{0: ^7} {1: ^14} {2: ^16} {3: ^9} {4: ^9} {5: ^16}'.format(
                     'T ({})'.format(self._tunit),
-                    'V(T) (A^3)',
+                    'V(T) ({}^3)'.format(self._vunit),
                     'a_V (K^-1)',
                     'KT ({})'.format(self._punit),
                     'KS ({})'.format(self._punit),
-- 
2.43.0


From 584a694d9006bb42f499632cfc48e4e6aced3ed4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:59:08 +0000
Subject: [PATCH 08/84] fix: a polynomial minimum at a non-positive volume is
 not a quasi-harmonic volume

---
 quantas/qha/qha.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/quantas/qha/qha.py b/quantas/qha/qha.py
index 7f54f71..f9d8c37 100644
--- a/quantas/qha/qha.py
+++ b/quantas/qha/qha.py
@@ -1057,6 +1057,7 @@ class QHACalculator(BasicCalculator):
                 parameters = polyfit(volume, free_energy, self._edeg)
             pressure = self.set_target_pressure(pressure)
             minima = find_polynomial_minimum(parameters, pressure)
+            minima = minima[minima > 0.]
             if len(minima) == 0:
                 raise RuntimeError('the fitted polynomial has no minimum')
             return minima[0], 0., 0.
-- 
2.43.0


From 463462ccbc74087e4ddac7541b1ae20435347727 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:59:08 +0000
Subject: [PATCH 09/84] fix: a failed EoS fit of the static energy does not
 crash the QHA input report

---
 quantas/qha/qha.py | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/quantas/qha/qha.py b/quantas/qha/qha.py
index f9d8c37..d307bbc 100644
--- a/quantas/qha/qha.py
+++ b/quantas/qha/qha.py
@@ -368,9 +368,15 @@ class QHACalculator(BasicCalculator):
             )
         self.echo('')
         self.echo('Volume and energy values:\n')
+        eos_pars = None
         if self.eos_minimization.is_on():
-            eos_pars, eos_errs = self.find_eos_minimum(
-                self.volume, self.static_energy, 0.)
+            try:
+                eos_pars, eos_errs = self.find_eos_minimum(
+                    self.volume, self.static_energy, 0.)
+            except RuntimeError as exc:
+                self.echo_warning(
+                    'WARNING! EoS fit of static energy failed: {}'.format(exc))
+        if eos_pars is not None:
             eos = EnergyEOS()
             eos_pars[1] = energy_to_pressure(
                 eos_pars[1], self._eunit, self._vunit, self._punit)
@@ -388,7 +394,7 @@ class QHACalculator(BasicCalculator):
             self.echo(' {: 15.3f} {: ^15.6f} {: ^30.12e}'.format(
                 pressures[i], self.volume[i], self.static_energy[i]))
 
-        if self.eos_minimization.is_on():
+        if eos_pars is not None:
             self.echo('')
             self.echo('EoS fitting parameters for static energy vs volume data:')
             for i in range(len(eos_pars)):
@@ -418,7 +424,7 @@ class QHACalculator(BasicCalculator):
                         red_val = int(np.round(val, magnitude))
                     red_err = int(np.round(red_err,0))
                     self.echo('{} = {}({})'.format(label, red_val, red_err))
-                except OverflowError:
+                except (OverflowError, ValueError):
                     self.echo('{} = {}({})'.format(label, val, err))
         self.echo('')
         # Check if Kieffer's approach was requested, even in the case of
-- 
2.43.0


From 8a64c031e4bc0318897eef125a7d10dadbe58a56 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:06:37 +0000
Subject: [PATCH 10/84] fix: undetermined EoS parameter errors do not crash the
 QHA input report

---
 quantas/qha/qha.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/quantas/qha/qha.py b/quantas/qha/qha.py
index d307bbc..12e8c97 100644
--- a/quantas/qha/qha.py
+++ b/quantas/qha/qha.py
@@ -424,7 +424,7 @@ class QHACalculator(BasicCalculator):
                         red_val = int(np.round(val, magnitude))
                     red_err = int(np.round(red_err,0))
                     self.echo('{} = {}({})'.format(label, red_val, red_err))
-                except (OverflowError, ValueError):
+                except (OverflowError, TypeError, ValueError):
                     self.echo('{} = {}({})'.format(label, val, err))
         self.echo('')
         # Check if Kieffer's approach was requested, even in the case of
-- 
2.43.0


From 360dc86930e6c9e7792244ef144f1e98e5a32079 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:28:06 +0000
Subject: [PATCH 11/84] fix: entropy of the Kieffer model (Bose factor and
 upper integration limit)

---
 quantas/qha/utils/kieffer.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/quantas/qha/utils/kieffer.py b/quantas/qha/utils/kieffer.py
index c4c38fe..b967d09 100644
--- a/quantas/qha/utils/kieffer.py
+++ b/quantas/qha/utils/kieffer.py
@@ -211,7 +211,7 @@ class Kieffer(object):
             # Calculate the first addendum
             num = np.power(np.arcsin(x/xi), 2.) *x
             den = np.power((np.power(xi, 2.) - np.power(x, 2.)), 0.5)
-            den *= np.power(np.exp(x) - 1., 2.)
+            den *= np.exp(x) - 1.
             first_term = num / den
 
             # Calculate the second addendum
@@ -227,7 +227,7 @@ class Kieffer(object):
         wmin = 1.e-6
         wmax = xnti/temperature
         function  = lambda x: entropy_function(x, temperature, xnti)
-        integral, err = quad(function, wmin, 0.999*wmax, epsrel=self.cutoff)
+        integral, err = quad(function, wmin, wmax, epsrel=self.cutoff)
 
         return integral * 3 * NA * kb * np.power(2./np.pi, 3.)
 
-- 
2.43.0


From 52922181509cf181568594e9b279c778510046e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:28:06 +0000
Subject: [PATCH 12/84] fix: Kieffer heat capacity is no longer NaN at very low
 temperature

---
 quantas/qha/utils/kieffer.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/quantas/qha/utils/kieffer.py b/quantas/qha/utils/kieffer.py
index b967d09..e5adbf3 100644
--- a/quantas/qha/utils/kieffer.py
+++ b/quantas/qha/utils/kieffer.py
@@ -149,9 +149,9 @@ class Kieffer(object):
             """
             xi = xnti / temperature
             num = np.power(np.arcsin(x/xi), 2.) * np.power(x, 2.)
-            num *= np.exp(x)
+            num *= np.exp(-x)
             den = np.power((np.power(xi, 2.) - np.power(x, 2.)), 0.5)
-            den *= np.power(np.exp(x) - 1., 2.)
+            den *= np.power(1. - np.exp(-x), 2.)
             value = num / den
             return value
 
-- 
2.43.0


From 37fbe7eb32fd7af9cb4c9feeb6ad52100e385ca9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:28:06 +0000
Subject: [PATCH 13/84] fix: the acoustic (Kieffer) free energy and thermal
 energy enter the QHA totals

---
 quantas/qha/qha.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/quantas/qha/qha.py b/quantas/qha/qha.py
index 12e8c97..b04ccb5 100644
--- a/quantas/qha/qha.py
+++ b/quantas/qha/qha.py
@@ -724,10 +724,16 @@ class QHACalculator(BasicCalculator):
                                                 'kjmol', self._eunit)
                         S_aco = convert_energy(kieffer.entropy(T[i]),
                                                'kjmol', self._eunit)
+                        F_aco = convert_energy(kieffer.helmholtz(T[i]),
+                                               'kjmol', self._eunit)
+                        F_aco *= np.power(10., -3.)
+                        U_aco = F_aco + T[i] * S_aco * np.power(10., -3.)
                         Cv_ha[i, j] += Cv_aco
                         S_ha[i, j] += S_aco
-                        Fvib_ha[i, j] -= T[i] * S_aco * np.power(10., -3.)
-                        F_ha[i, j] -= T[i] * S_aco * np.power(10., -3.)
+                        Uth_ha[i, j] += U_aco
+                        U_ha[i, j] += U_aco
+                        Fvib_ha[i, j] += F_aco
+                        F_ha[i, j] += F_aco
                     i += 1
             self.echo_time(t0, clock())
 
-- 
2.43.0


From a97777e66059ebd29fdfb3841a0f6133fca281d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:58:51 +0000
Subject: [PATCH 14/84] fix: pressures of an energy equation of state include
 the implied K''

---
 quantas/qha/utils/ev_eos.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/quantas/qha/utils/ev_eos.py b/quantas/qha/utils/ev_eos.py
index 67f1681..88313ac 100644
--- a/quantas/qha/utils/ev_eos.py
+++ b/quantas/qha/utils/ev_eos.py
@@ -362,7 +362,7 @@ class EnergyEOS(object):
         # Set P-V EoS parameters according to:
         #  - p[0] = K0
         #  - p[1] = K'
-        #  - p[2] = K'' (usually set to zero)
+        #  - p[2] = K'' (implied by the third-order truncation)
         #  - p[3] = V0
         #
         pv_pars = np.zeros(4, dtype=float)
@@ -370,5 +370,5 @@ class EnergyEOS(object):
         pv_pars[1] = ev_pars[2]
         pv_pars[3] = ev_pars[3]
         # Calculate pressures
-        pressures = eos.eos(pv_pars, V, order=3)
+        pressures = eos.eos(pv_pars, V, order=3, dofit=True)
         return pressures
-- 
2.43.0


From 62a59a24909ff88db9ce2c6a8fbfe0ab21074380 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:03:21 +0000
Subject: [PATCH 15/84] fix: implied K'' of the Vinet equation of state

---
 quantas/eosfit/utils/pv_eos.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/quantas/eosfit/utils/pv_eos.py b/quantas/eosfit/utils/pv_eos.py
index cfddc50..f739887 100644
--- a/quantas/eosfit/utils/pv_eos.py
+++ b/quantas/eosfit/utils/pv_eos.py
@@ -732,7 +732,7 @@ class Vinet(EOS):
                 p[1] = 3.
 
         # Kpp is always implied
-        p[2] = (-1./p[0])*(np.power(p[1]/2.,2.)+(p[1]/2.)-(19./46.))
+        p[2] = (-1./p[0])*(np.power(p[1]/2.,2.)+(p[1]/2.)-(19./36.))
             
         fV = 1. - (V/p[3])**(1./3.)
         eta = (1.5) * (p[1] - 1.)
-- 
2.43.0


From caeafb15c676bca7c6b7ab190b0c4af81404357c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:03:28 +0000
Subject: [PATCH 16/84] fix: a fit of axial data does not change the starting
 values

---
 quantas/eosfit/utils/pv_eos.py | 4 ----
 1 file changed, 4 deletions(-)

diff --git a/quantas/eosfit/utils/pv_eos.py b/quantas/eosfit/utils/pv_eos.py
index f739887..d238cad 100644
--- a/quantas/eosfit/utils/pv_eos.py
+++ b/quantas/eosfit/utils/pv_eos.py
@@ -143,10 +143,6 @@ class EOS(object):
             #
             # Perform a guess on the parameters
             p0 = self.guess(V, P)
-        #
-        # Check if we're going to perform a linearized fit
-        if linear == True:
-            p0[0] = p0[0]*3.
         model = Model(self.eos, extra_args=[order, linear, True])
         # Set the data for ODR
         data = RealData(V, P, sigmaV, sigmaP)
-- 
2.43.0


From 197f0a8dabc85cf593a0fccc07bd3fbdfdbb4954 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:03:35 +0000
Subject: [PATCH 17/84] fix: interactive EoS session with current numpy

---
 quantas/eosfit/utils/interactive.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/quantas/eosfit/utils/interactive.py b/quantas/eosfit/utils/interactive.py
index 0d41299..a8ad538 100644
--- a/quantas/eosfit/utils/interactive.py
+++ b/quantas/eosfit/utils/interactive.py
@@ -183,7 +183,7 @@ def set_eos_order(eos_key, default=2):
     if default not in choices:
         default = choices[0]
     echo('EOS ORDER')
-    selection = np.int(choose('Select the order of the EoS', EOS_ORDERS[eos_key],
+    selection = int(choose('Select the order of the EoS', EOS_ORDERS[eos_key],
                        default=default))
     echo('')
     return selection
@@ -314,7 +314,7 @@ def set_parameters(parameters, labels):
     echo('')
     if confirm('Would you like to modify any of the EoS parameters?'):
         for i in range(len(parameters)):
-            parameters[i] = np.float(prompt("  {: <8}".format(
+            parameters[i] = float(prompt("  {: <8}".format(
                 labels[i]), np.round(parameters[i], 5)))
     echo('')
     return parameters
-- 
2.43.0


From 58e2d7d70b7f9317bd1307f13d99dd19bb8fa5c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:03:41 +0000
Subject: [PATCH 18/84] fix: eosfit option -o

---
 quantas/eosfit/commands/cmd_eosfit.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/quantas/eosfit/commands/cmd_eosfit.py b/quantas/eosfit/commands/cmd_eosfit.py
index 5b248f3..8ef4da9 100644
--- a/quantas/eosfit/commands/cmd_eosfit.py
+++ b/quantas/eosfit/commands/cmd_eosfit.py
@@ -53,7 +53,7 @@ def eos_calculation(filename, outfile, punit, vunit):
     if isinstance(outfile, type(None)):
         logfile = outbase + '.log'
     else:
-        logfile += '.log'
+        logfile = outfile + '.log'
     init_logfile(logfile)
 
     echo_highlight(quantas_title(), logfile)
-- 
2.43.0


From daa8691f799a211f79e870be51760e61ddbd4288 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:06:40 +0000
Subject: [PATCH 19/84] fix: an EoS fit does not modify the starting values of
 the caller

---
 quantas/eosfit/utils/pv_eos.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/quantas/eosfit/utils/pv_eos.py b/quantas/eosfit/utils/pv_eos.py
index d238cad..1f26561 100644
--- a/quantas/eosfit/utils/pv_eos.py
+++ b/quantas/eosfit/utils/pv_eos.py
@@ -138,7 +138,7 @@ class EOS(object):
         # Check if there is a guess
         try:
             len(guess)
-            p0 = guess
+            p0 = np.array(guess, dtype=float)
         except TypeError:
             #
             # Perform a guess on the parameters
-- 
2.43.0


From 71a60f63fc841d3750dd21e6dd1871fe7a851e29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:15:35 +0000
Subject: [PATCH 20/84] fix: each EoS input reader has its own data

---
 quantas/IO/eos_reader.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/quantas/IO/eos_reader.py b/quantas/IO/eos_reader.py
index 85b29da..ae635be 100644
--- a/quantas/IO/eos_reader.py
+++ b/quantas/IO/eos_reader.py
@@ -79,6 +79,9 @@ class EoSInputFileReader(BasicReader):
             Path of the input file.
 
         """
+        # Each instance has its own data
+        self._data = dict(self._data)
+        self._format = {}
         BasicReader.__init__(self, eos_input)
         return
 
-- 
2.43.0


From af753873a4d51ecb8866afde3a59995abeb2061c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:15:41 +0000
Subject: [PATCH 21/84] fix: abbreviated names of the uncertainties in EoS
 input files

---
 quantas/IO/eos_reader.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/quantas/IO/eos_reader.py b/quantas/IO/eos_reader.py
index ae635be..201ab2f 100644
--- a/quantas/IO/eos_reader.py
+++ b/quantas/IO/eos_reader.py
@@ -242,7 +242,7 @@ class EoSInputFileReader(BasicReader):
                 for i in range(len(dformat)):
                     for key, items in self._formats.items():
                         if dformat[i].lower() in items:
-                            self._format[dformat[i].lower()] = i
+                            self._format[key] = i
         return
 
     def set_data(self, inpdata, idx):
-- 
2.43.0


From dc28be958db5c6cc9f17497ce6863df102c2a1b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:15:46 +0000
Subject: [PATCH 22/84] fix: EoS input without pressure is reported as an error

---
 quantas/IO/eos_reader.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/quantas/IO/eos_reader.py b/quantas/IO/eos_reader.py
index 201ab2f..4def6d7 100644
--- a/quantas/IO/eos_reader.py
+++ b/quantas/IO/eos_reader.py
@@ -263,7 +263,7 @@ class EoSInputFileReader(BasicReader):
             self.error = 'Data format (FORMAT keyword) not provided'
             return
 
-        if self._format['p'] == None:
+        if 'p' not in self._format:
             self.error = 'No pressure data provided in input file'
             return
 
-- 
2.43.0


From db901feaccce00803463544e4d7741d396cbde53 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:15:51 +0000
Subject: [PATCH 23/84] fix: blank lines after the JOB keyword of EoS inputs

---
 quantas/IO/eos_reader.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/quantas/IO/eos_reader.py b/quantas/IO/eos_reader.py
index 4def6d7..9ef8389 100644
--- a/quantas/IO/eos_reader.py
+++ b/quantas/IO/eos_reader.py
@@ -207,9 +207,9 @@ class EoSInputFileReader(BasicReader):
             Index of the line where the name of the job is supposed to be.
 
         """
-        while self._data['job'] == 'Unknown':
+        while self._data['job'] == 'Unknown' and idx < len(inpdata):
             line = inpdata[idx].rstrip('\n')
-            if (len(line) == 0 or line.strip()[0] == '#'):
+            if self.is_comment(line):
                 idx += 1
             else:
                 self._data['job'] = line
-- 
2.43.0


From 1610862abf25ac13a6c332064664efcd2cdb06e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:16:08 +0000
Subject: [PATCH 24/84] fix: EoS job titles that start with a keyword

---
 quantas/IO/eos_reader.py | 23 +++++++++++++++++------
 1 file changed, 17 insertions(+), 6 deletions(-)

diff --git a/quantas/IO/eos_reader.py b/quantas/IO/eos_reader.py
index 9ef8389..fc46d7a 100644
--- a/quantas/IO/eos_reader.py
+++ b/quantas/IO/eos_reader.py
@@ -173,15 +173,20 @@ class EoSInputFileReader(BasicReader):
         with open(eos_input, 'r') as f:
             data = f.readlines()
 
+        title = None
         for i in range(len(data)):
             line = data[i]
             # If empty or commented (#) lines are found, skip them
             if self.is_comment(line):
                 continue
 
+            # The title may start with any word, also with a keyword
+            if i == title:
+                continue
+
             keyword = line.split()[0]
             if keyword.lower() == 'job':
-                self.set_job_name(data, i+1)
+                title = self.set_job_name(data, i+1)
             if keyword.lower() == 'format':
                 self.set_data_format(data, i+1)
             if keyword.lower() == 'data':
@@ -206,14 +211,20 @@ class EoSInputFileReader(BasicReader):
         idx: int
             Index of the line where the name of the job is supposed to be.
 
+        Returns
+        -------
+
+        int
+            Index of the line that contains the name of the job.
+
         """
-        while self._data['job'] == 'Unknown' and idx < len(inpdata):
+        while idx < len(inpdata):
             line = inpdata[idx].rstrip('\n')
-            if self.is_comment(line):
-                idx += 1
-            else:
+            if not self.is_comment(line):
                 self._data['job'] = line
-        return
+                return idx
+            idx += 1
+        return None
 
     def set_data_format(self, inpdata, idx):
         """
-- 
2.43.0


From c9b00bb4f0de08e2dfb3d6791c322761e26ca10f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:23:19 +0000
Subject: [PATCH 25/84] fix: an EoS fit needs at least one free parameter

---
 quantas/eosfit/utils/interactive.py | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/quantas/eosfit/utils/interactive.py b/quantas/eosfit/utils/interactive.py
index a8ad538..07960cc 100644
--- a/quantas/eosfit/utils/interactive.py
+++ b/quantas/eosfit/utils/interactive.py
@@ -339,11 +339,13 @@ def set_fixed_parameters(labels):
         values.
 
     """
-    if confirm('Would you like to fix any of the EoS parameters?'):
-        return [0 if confirm('  Fix {: <6}'.format(label)) else 1
-                for label in labels]
-    else:
-        return [1, 1, 1, 1]
+    while confirm('Would you like to fix any of the EoS parameters?'):
+        fix = [0 if confirm('  Fix {: <6}'.format(label)) else 1
+               for label in labels]
+        if any(fix):
+            return fix
+        echo_error('Error: at least one parameter must be free')
+    return [1, 1, 1, 1]
 
 
 def set_weights(q, data):
-- 
2.43.0


From 9d7a5d1e8f62d27fc6ef71c87ef41e98293b0c67 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:05 +0000
Subject: [PATCH 26/84] fix: a mistyped EoS parameter value is asked again

---
 quantas/eosfit/utils/interactive.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/quantas/eosfit/utils/interactive.py b/quantas/eosfit/utils/interactive.py
index 07960cc..e1af84b 100644
--- a/quantas/eosfit/utils/interactive.py
+++ b/quantas/eosfit/utils/interactive.py
@@ -314,8 +314,8 @@ def set_parameters(parameters, labels):
     echo('')
     if confirm('Would you like to modify any of the EoS parameters?'):
         for i in range(len(parameters)):
-            parameters[i] = float(prompt("  {: <8}".format(
-                labels[i]), np.round(parameters[i], 5)))
+            parameters[i] = prompt("  {: <8}".format(labels[i]),
+                                   float(np.round(parameters[i], 5)), float)
     echo('')
     return parameters
 
-- 
2.43.0


From 1ac902d45903e42fe159c715c797cc7f919bb586 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:58 +0000
Subject: [PATCH 27/84] fix: each SOEC input reader has its own data

---
 quantas/IO/soec_reader.py | 11 +++++------
 1 file changed, 5 insertions(+), 6 deletions(-)

diff --git a/quantas/IO/soec_reader.py b/quantas/IO/soec_reader.py
index 580b39b..2da51eb 100644
--- a/quantas/IO/soec_reader.py
+++ b/quantas/IO/soec_reader.py
@@ -31,12 +31,6 @@ class SOECInputFileReader(BasicReader):
         Text explaining the error encountered in the input file.
     """
 
-    _data ={
-        'job': 'Unknown',
-        'stiffness': None,
-        'density': 0.
-        }
-
     def __init__(self, soec_input):
         """ Class constructor.
 
@@ -45,6 +39,11 @@ class SOECInputFileReader(BasicReader):
         soec_input: str
             Path of the SOEC input file.
         """
+        self._data = {
+            'job': 'Unknown',
+            'stiffness': None,
+            'density': 0.
+            }
         BasicReader.__init__(self, soec_input)
         return
 
-- 
2.43.0


From 4dc48076b7c0cf7ee06a6912653b388e93e25941 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:03 +0000
Subject: [PATCH 28/84] fix: lower triangular SOEC matrices

---
 quantas/IO/soec_reader.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/quantas/IO/soec_reader.py b/quantas/IO/soec_reader.py
index 2da51eb..a4b1531 100644
--- a/quantas/IO/soec_reader.py
+++ b/quantas/IO/soec_reader.py
@@ -126,11 +126,14 @@ class SOECInputFileReader(BasicReader):
         # ... and convert it to float numbers
         matrix = np.zeros((6,6), dtype=np.float64)
         try:
+            # Rows of an upper triangle end at the last column
+            upper = len(matstr[0].split()) == 6
             for i in range(6):
                 line = matstr[i].split()
                 n = len(line)
+                shift = 6 - n if upper else 0
                 for j in range(n):
-                    matrix[i][j+(6-n)] = line[j]
+                    matrix[i][j+shift] = line[j]
         except ValueError:
             self.error = 'SOEC components should be float numbers'
             return
@@ -143,7 +146,7 @@ class SOECInputFileReader(BasicReader):
             if form == [6,5,4,3,2,1]:  # upper triangular
                 matrix = matrix + np.triu(matrix, 1).transpose()
             if form == [1,2,3,4,5,6]:  # lower triangular
-                matrix = matrix + np.tril(matrix, 1).transpose()
+                matrix = matrix + np.tril(matrix, -1).transpose()
             if linalg.norm(matrix - matrix.transpose()) > 1e-3:
                 self.error = 'The SOEC matrix should be symmetric '
                 self.error += 'or triangular'
-- 
2.43.0


From d159f0fdca9755d2145874bd243f5ba70e742133 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:18 +0000
Subject: [PATCH 29/84] fix: shape of the SOEC matrix is checked

---
 quantas/IO/soec_reader.py | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/quantas/IO/soec_reader.py b/quantas/IO/soec_reader.py
index a4b1531..2aa4662 100644
--- a/quantas/IO/soec_reader.py
+++ b/quantas/IO/soec_reader.py
@@ -123,6 +123,13 @@ class SOECInputFileReader(BasicReader):
             self.error += 'shape.\nPlease, check the input file and retry.'
             return
 
+        # ... check its form (complete, upper or lower triangular)...
+        form = [ len(row.split()) for row in matstr ]
+        if form not in ([6]*6, [6,5,4,3,2,1], [1,2,3,4,5,6]):
+            self.error = 'The SOEC matrix does not have the expected (6, 6) '
+            self.error += 'shape.\nPlease, check the input file and retry.'
+            return
+
         # ... and convert it to float numbers
         matrix = np.zeros((6,6), dtype=np.float64)
         try:
@@ -138,10 +145,6 @@ class SOECInputFileReader(BasicReader):
             self.error = 'SOEC components should be float numbers'
             return
         else:
-            # Take its form from the string matrix
-            form = []
-            for i in range(6):
-                form.append(len(matstr[i].split()))
             # Check matrix symmetry and make it 6x6
             if form == [6,5,4,3,2,1]:  # upper triangular
                 matrix = matrix + np.triu(matrix, 1).transpose()
-- 
2.43.0


From dcb3aecc0e031c33e5ce10632bfe2bdea36c4f98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:22 +0000
Subject: [PATCH 30/84] fix: SOEC titles that start with a digit, matrices that
 start with a sign

---
 quantas/IO/soec_reader.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/quantas/IO/soec_reader.py b/quantas/IO/soec_reader.py
index 2aa4662..1026bc9 100644
--- a/quantas/IO/soec_reader.py
+++ b/quantas/IO/soec_reader.py
@@ -108,8 +108,10 @@ class SOECInputFileReader(BasicReader):
 
         # Does the first line contain the job name?
         line = data[0]
+        words = line.split()
         try:
-            np.float64(line.strip()[0])
+            np.float64(words[0])
+            np.array(words, dtype=np.float64)
             start = 0
         except ValueError:
             self._data['job'] = line.rstrip()
-- 
2.43.0


From d2581a8ecbc8caa41ffca02c03635205af6111c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:49 +0000
Subject: [PATCH 31/84] fix: SOEC matrices with NaN entries are rejected

---
 quantas/IO/soec_reader.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/quantas/IO/soec_reader.py b/quantas/IO/soec_reader.py
index 1026bc9..eb373b2 100644
--- a/quantas/IO/soec_reader.py
+++ b/quantas/IO/soec_reader.py
@@ -152,7 +152,7 @@ class SOECInputFileReader(BasicReader):
                 matrix = matrix + np.triu(matrix, 1).transpose()
             if form == [1,2,3,4,5,6]:  # lower triangular
                 matrix = matrix + np.tril(matrix, -1).transpose()
-            if linalg.norm(matrix - matrix.transpose()) > 1e-3:
+            if not linalg.norm(matrix - matrix.transpose()) <= 1e-3:
                 self.error = 'The SOEC matrix should be symmetric '
                 self.error += 'or triangular'
                 return
-- 
2.43.0


From 3ec0c8c6c18df71fa6d0ccc85263b633291304f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:30 +0000
Subject: [PATCH 32/84] fix: empty phonon inputs are reported as errors

---
 quantas/IO/qha_reader.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/quantas/IO/qha_reader.py b/quantas/IO/qha_reader.py
index 67eaf38..9058085 100644
--- a/quantas/IO/qha_reader.py
+++ b/quantas/IO/qha_reader.py
@@ -69,7 +69,9 @@ class QHAInputFileReader(BasicReader):
         return
 
     def _check(self):
-        if isinstance(self._data, type(None)):
+        if not isinstance(self._data, dict):
+            if self.error is None:
+                self.error = 'The input file does not contain phonon data'
             return
         if not 'volume' in self._data:
             self.error = 'No volume values in input file'
-- 
2.43.0


From 9843d94dbd5059423545a88921d19566ac2e9b2b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:35 +0000
Subject: [PATCH 33/84] fix: phonon inputs without one of the mandatory
 keywords are errors

---
 quantas/IO/qha_reader.py | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/quantas/IO/qha_reader.py b/quantas/IO/qha_reader.py
index 9058085..8f9e527 100644
--- a/quantas/IO/qha_reader.py
+++ b/quantas/IO/qha_reader.py
@@ -73,15 +73,19 @@ class QHAInputFileReader(BasicReader):
             if self.error is None:
                 self.error = 'The input file does not contain phonon data'
             return
-        if not 'volume' in self._data:
+        if self._data.get('volume') is None:
             self.error = 'No volume values in input file'
             return
-        if not 'energy' in self._data:
+        if self._data.get('energy') is None:
             self.error = 'No energy values in input file'
             return
-        if not 'phonon' in self._data:
+        if not self._data.get('phonon'):
             self.error = 'No phonon data in input file'
             return
+        for key in ['natom', 'supercell', 'qpoints']:
+            if self._data.get(key) is None:
+                self.error = 'No {} keyword in input file'.format(key)
+                return
         self.completed = True
         return
 
-- 
2.43.0


From 5b9d8dc38c3902c9b674b2e8ec68efd197cf91d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:40 +0000
Subject: [PATCH 34/84] fix: numeric titles of phonon inputs

---
 quantas/IO/qha_reader.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/quantas/IO/qha_reader.py b/quantas/IO/qha_reader.py
index 8f9e527..875e39e 100644
--- a/quantas/IO/qha_reader.py
+++ b/quantas/IO/qha_reader.py
@@ -105,7 +105,7 @@ class QHAInputFileReader(BasicReader):
 
     @staticmethod
     def _get_string(item):
-        return item.rstrip()
+        return str(item).rstrip()
 
     @property
     def data(self):
-- 
2.43.0


From c15895154ed72e41a85c21aec03dbad2eff1ea9f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:45 +0000
Subject: [PATCH 35/84] fix: single volume given without brackets

---
 quantas/IO/qha_reader.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/quantas/IO/qha_reader.py b/quantas/IO/qha_reader.py
index 875e39e..64090d9 100644
--- a/quantas/IO/qha_reader.py
+++ b/quantas/IO/qha_reader.py
@@ -140,11 +140,11 @@ class QHAInputFileReader(BasicReader):
 
     @property
     def volume(self):
-        return self._get_float(self._data['volume'])
+        return np.atleast_1d(self._get_float(self._data['volume']))
 
     @property
     def energy(self):
-        return self._get_float(self._data['energy'])
+        return np.atleast_1d(self._get_float(self._data['energy']))
 
     @property
     def frequencies(self):
-- 
2.43.0


From 86c2933528279e716a6eaaebc3f29af5d9c2a1b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:04 +0000
Subject: [PATCH 36/84] fix: phonon inputs with empty lists of volumes or
 energies are errors

---
 quantas/IO/qha_reader.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/quantas/IO/qha_reader.py b/quantas/IO/qha_reader.py
index 64090d9..3bbd864 100644
--- a/quantas/IO/qha_reader.py
+++ b/quantas/IO/qha_reader.py
@@ -73,10 +73,10 @@ class QHAInputFileReader(BasicReader):
             if self.error is None:
                 self.error = 'The input file does not contain phonon data'
             return
-        if self._data.get('volume') is None:
+        if self._data.get('volume') in (None, []):
             self.error = 'No volume values in input file'
             return
-        if self._data.get('energy') is None:
+        if self._data.get('energy') in (None, []):
             self.error = 'No energy values in input file'
             return
         if not self._data.get('phonon'):
-- 
2.43.0


From ea359e0cf2e73561575b1bc228061e44d0c208f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:27 +0000
Subject: [PATCH 37/84] fix: mechanically unstable crystals are recognised

---
 quantas/soec/soec.py | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/quantas/soec/soec.py b/quantas/soec/soec.py
index 6f49d0e..8bfef6c 100644
--- a/quantas/soec/soec.py
+++ b/quantas/soec/soec.py
@@ -245,11 +245,10 @@ class SOECCalculator(BasicCalculator):
         self._results['avg_wave_velocities'] = awv
         #
         # Check SOEC eigenvalues consistency
-        if any(eigv) <= 0:
-            msg = 'SOEC matrix is not definite positive, '+\
-            'crystal is mechanically unstable'
-            self.echo(msg)
-            self.echo('No further analysis will be performed.')
+        if eigv[0] <= 0:
+            self.error = 'SOEC matrix is not definite positive, '+\
+            'crystal is mechanically unstable\n'
+            self.error += 'No further analysis will be performed.'
             return
         #
         # Calculate variations of the mechanical properties
-- 
2.43.0


From 80b7538e7a31fb537be2e55ddfbdbdc58e0d871e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:36 +0000
Subject: [PATCH 38/84] fix: the SOEC result file gives the compliance in
 TPa^-1

---
 quantas/soec/soec.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/quantas/soec/soec.py b/quantas/soec/soec.py
index 8bfef6c..cb89d2c 100644
--- a/quantas/soec/soec.py
+++ b/quantas/soec/soec.py
@@ -540,7 +540,7 @@ It contains the results of the analysis of the second-order elastic constants
             f.attrs['info'] = info
             dset = f.create_dataset('stiffness', data=self.soec.stiffness)
             dset.attrs['unit'] = self._punit
-            dset = f.create_dataset('compliance', data=self.soec.compliance)
+            dset = f.create_dataset('compliance', data=self.soec.compliance*1000)
             dset.attrs['unit'] = 'TPa^-1'
             dset = f.create_dataset('averages', data=self.results['avgs'])
             dset.attrs['unit'] = self._punit
-- 
2.43.0


From 9b4d23d35c63e96cd51a7412ec056a3866472f61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:46 +0000
Subject: [PATCH 39/84] fix: no average wave velocities without density

---
 quantas/soec/soec.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/quantas/soec/soec.py b/quantas/soec/soec.py
index cb89d2c..23740a4 100644
--- a/quantas/soec/soec.py
+++ b/quantas/soec/soec.py
@@ -393,7 +393,7 @@ class SOECCalculator(BasicCalculator):
         for i in range(3):
             self.echo(sv.format(avgnames[i], *tuple(avg[i])))
         self.echo('')
-        if awv[0] != np.nan:
+        if not np.isnan(awv[0]):
             self.echo('Average (VRH) wave velocities')
             self.echo('  - Transversal  (Vs): {: 10.5f} km/s'.format(awv[0]))
             self.echo('  - Longitudinal (Vp): {: 10.5f} km/s'.format(awv[2]))
-- 
2.43.0


From e57c203100ef179008844129d4c5f0ae6ae87c28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:57 +0000
Subject: [PATCH 40/84] fix: first axis of the extremes of shear modulus and
 Poisson ratio

---
 quantas/soec/soec.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/quantas/soec/soec.py b/quantas/soec/soec.py
index 23740a4..4bb7aa0 100644
--- a/quantas/soec/soec.py
+++ b/quantas/soec/soec.py
@@ -419,8 +419,8 @@ class SOECCalculator(BasicCalculator):
             anisotropy = np.inf
         #
         # First (or Only) axis
-        minax1 = vector(*minval[0])
-        maxax1 = vector(*maxval[0])
+        minax1 = vector(*minval[0][:2])
+        maxax1 = vector(*maxval[0][:2])
         if dim == 2:
             minax2 = None
             maxax2 = None
-- 
2.43.0


From e94768c251d8f80b7bf7f37235b7378afce91367 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:22:24 +0000
Subject: [PATCH 41/84] fix: extremes of shear modulus and Poisson ratio over
 the transverse direction

---
 quantas/soec/utils/soec_obj.py | 66 ++++++++++++++++++++++++++--------
 1 file changed, 51 insertions(+), 15 deletions(-)

diff --git a/quantas/soec/utils/soec_obj.py b/quantas/soec/utils/soec_obj.py
index 237b58b..f0c22c0 100644
--- a/quantas/soec/utils/soec_obj.py
+++ b/quantas/soec/utils/soec_obj.py
@@ -11,7 +11,6 @@
 import math
 import numpy as np
 from numpy import linalg
-from scipy import optimize
 import itertools as it
 from click import progressbar
 
@@ -338,23 +337,60 @@ class SOEC(object):
         Vs = np.sqrt(1000.0*G/self.density)
         return np.array([Vs, Vs, Vp])
 
+    def transverse_extremes(self, func, x):
+        """
+        Extremes, over the third angle :math:`\\chi`, of a quantity that is a
+        quadratic form of the measurement vector, i.e. that varies as
+        :math:`a + b\\cos 2\\chi + c\\sin 2\\chi`.
+
+        Parameters
+        ----------
+
+        func: callable
+            Function of the three angles.
+
+        x: tuple
+            Tuple containing the :math:`\\theta` and :math:`\\phi`
+            angular values.
+
+        Returns
+        -------
+
+        tuple
+            Angle and value of the minimum, angle and value of the maximum.
+        """
+        f = [func([x[0], x[1], chi]) for chi in (0., np.pi/4., np.pi/2.)]
+        a = 0.5*(f[0] + f[2])
+        b = 0.5*(f[0] - f[2])
+        c = f[1] - a
+        chi = 0.5*np.arctan2(c, b)
+        r = np.hypot(b, c)
+        return (chi + 0.5*np.pi, a - r), (chi, a + r)
+
+    def shear_extremes(self, x):
+        """
+        Angles and values of the minimum and maximum of the shear modulus over
+        the directions perpendicular to the given one.
+        """
+        rmin, rmax = self.transverse_extremes(
+            lambda z: 1./self.shear_modulus(z), x)
+        return (rmax[0], 1./rmax[1]), (rmin[0], 1./rmin[1])
+
+    def poisson_extremes(self, x):
+        """
+        Angles and values of the minimum and maximum of the Poisson's ratio
+        over the directions perpendicular to the given one.
+        """
+        return self.transverse_extremes(self.poisson_ratio, x)
+
     def shear_2d(self, x):
-        ftol = 0.001
-        xtol = 0.01
-        def func1(z): return self.shear_modulus([x[0], x[1], z])
-        r1 = optimize.minimize(func1, np.pi/2.0, args=(), method = 'Powell', options={'xtol':xtol, 'ftol':ftol})#, bounds=[(0.0,np.pi)])
-        def func2(z): return -self.shear_modulus([x[0], x[1], z])
-        r2 = optimize.minimize(func2, np.pi/2.0, args=(), method = 'Powell', options={'xtol':xtol, 'ftol':ftol})#, bounds=[(0.0,np.pi)])
-        return (float(r1.fun), -float(r2.fun))
+        gmin, gmax = self.shear_extremes(x)
+        return (float(gmin[1]), float(gmax[1]))
 
     def poisson_2d(self, x):
-        ftol = 0.001
-        xtol = 0.01
-        def func1(z): return self.poisson_ratio([x[0], x[1], z])
-        r1 = optimize.minimize(func1, np.pi/2.0, args=(), method = 'Powell', options={'xtol':xtol, 'ftol':ftol})#, bounds=[(0.0,np.pi)])
-        def func2(z): return -self.poisson_ratio([x[0], x[1], z])
-        r2 = optimize.minimize(func2, np.pi/2.0, args=(), method = 'Powell', options={'xtol':xtol, 'ftol':ftol})#, bounds=[(0.0,np.pi)])
-        return (min(0,float(r1.fun)), max(0,float(r1.fun)), -float(r2.fun))
+        numin, numax = self.poisson_extremes(x)
+        return (min(0, float(numin[1])), max(0, float(numin[1])),
+                float(numax[1]))
 
     def phase_velocity(self, angles):
         """
-- 
2.43.0


From 1e650055deeef40434d0ec310cec95be4d3b548f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:43:24 +0000
Subject: [PATCH 42/84] fix: global extremes of the directional elastic
 properties

---
 quantas/soec/soec.py | 91 ++++++++++++++++++++++++++++++++------------
 1 file changed, 67 insertions(+), 24 deletions(-)

diff --git a/quantas/soec/soec.py b/quantas/soec/soec.py
index 4bb7aa0..f35ebfa 100644
--- a/quantas/soec/soec.py
+++ b/quantas/soec/soec.py
@@ -15,6 +15,7 @@ except ImportError:
     from time import clock
 
 import numpy as np
+from scipy import ndimage
 from scipy import optimize
 import h5py
 try:
@@ -52,25 +53,42 @@ tv = '    {:10}' + 3*' | {: ^22.4f}'                # Triple value
 hh = '    {:10}' + 3*' | {: ^10}  {: ^10}'          # Hexa header
 hv = '    {:10}' + 3*' | {: ^10.4f}  {: ^10.4f}'    # Hexa values
 
-def minimize(func, dim, method='fmin'):
-    if dim == 2:
-        r = ((0, np.pi), (0, np.pi))
-        n = 25
-        x0 = [1., 1.]
-    elif dim == 3:
-        r = ((0, np.pi), (0, np.pi), (0, np.pi))
-        n = 10
-        x0 = [1., 1., 1.]
-    if method == 'fmin':
-        return optimize.brute(func, r, Ns = n, full_output = True,
-                              finish = optimize.fmin)[0:2]
-    elif method == 'bh':
-        res = optimize.basinhopping(func, x0, niter=200)
-        return [ res.x, res.fun ]
-
-
-def maximize(func, dim):
-    res = minimize(lambda x: -func(x), dim)
+def minimize(func, n=37):
+    """
+    Find the global minimum of a function of the two angles of a direction:
+    the lowest local minima on a grid of n x n angles are refined.
+
+    Parameters
+    ----------
+
+    func: callable
+        Function of the two angles.
+
+    n: int, optional
+        Number of values of each angle.
+
+    Returns
+    -------
+
+    tuple
+        Angles and value of the minimum.
+    """
+    _, _, grid, values = optimize.brute(
+        func, ((0, np.pi), (0, np.pi)), Ns=n, full_output=True, finish=None)
+    lowest = ndimage.minimum_filter(values, size=3, mode='nearest')
+    starts = np.flatnonzero(values == lowest)
+    # Equal values: grid points at a pole, or directions related by symmetry
+    starts = starts[np.unique(np.round(values.flat[starts], 9),
+                              return_index=True)[1]][:12]
+    minima = [
+        optimize.fmin(func, [grid[0].flat[i], grid[1].flat[i]], xtol=1.e-6,
+                      ftol=1.e-8, full_output=True, disp=False)[0:2]
+        for i in starts]
+    return min(minima, key=lambda x: x[1])
+
+
+def maximize(func, n=37):
+    res = minimize(lambda x: -func(x), n)
     return (res[0], -res[1])
 
 
@@ -404,13 +422,36 @@ class SOECCalculator(BasicCalculator):
         self.echo('')
         return
 
-    def directional_variation(self, func, dim):
+    def directional_variation(self, func, dim, extremes=None):
         """
+        Extremes of a property and the directions where they are found.
+
+        Parameters
+        ----------
+
+        func: callable
+            Property as a function of dim angles.
+
+        dim: int
+            Number of angles.
+
+        extremes: callable, optional
+            If the property depends on three angles, function of the first two
+            that returns the third angle and the value of the minimum and of
+            the maximum of the property.
         """
         #
         # Minimum and maximum value
-        minval = minimize(func, dim)
-        maxval = maximize(func, dim)
+        if dim == 2:
+            minval = minimize(func)
+            maxval = maximize(func)
+        else:
+            x = minimize(lambda x: extremes(x)[0][1])[0]
+            x = [x[0], x[1], extremes(x)[0][0]]
+            minval = (x, func(x))
+            x = maximize(lambda x: extremes(x)[1][1])[0]
+            x = [x[0], x[1], extremes(x)[1][0]]
+            maxval = (x, func(x))
         #
         # Anisotropy
         if minval[1] > 0.:
@@ -441,8 +482,10 @@ class SOECCalculator(BasicCalculator):
     def dual_vector_variation(self):
         """
         """
-        G_var = self.directional_variation(self.soec.shear_modulus, 3)
-        Nu_var = self.directional_variation(self.soec.poisson_ratio, 3)
+        G_var = self.directional_variation(
+            self.soec.shear_modulus, 3, self.soec.shear_extremes)
+        Nu_var = self.directional_variation(
+            self.soec.poisson_ratio, 3, self.soec.poisson_extremes)
         return G_var, Nu_var
 
     def phase_velocity_variation(self):
-- 
2.43.0


From 03b2eb45cb131f42bd0d1034f538800f95e19c54 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:43:50 +0000
Subject: [PATCH 43/84] fix: the SOEC result file holds polar data only when
 they were calculated

---
 quantas/soec/soec.py         | 7 ++++---
 quantas/soec/utils/export.py | 4 ++++
 2 files changed, 8 insertions(+), 3 deletions(-)

diff --git a/quantas/soec/soec.py b/quantas/soec/soec.py
index f35ebfa..49736fe 100644
--- a/quantas/soec/soec.py
+++ b/quantas/soec/soec.py
@@ -589,11 +589,12 @@ It contains the results of the analysis of the second-order elastic constants
             dset.attrs['unit'] = self._punit
             dset = f.create_dataset('eigenvals', data=self.results['eigv'])
             dset.attrs['unit'] = self._punit
-            for key in self.results['polar']:
-                for var in self.results['polar'][key]:
+            polar = self.results['polar'] if self.polar else {}
+            for key in polar:
+                for var in polar[key]:
                     dsetname = 'polar_'+var+'_'+key
                     dset = f.create_dataset(
-                        dsetname, data=self.results['polar'][key][var])
+                        dsetname, data=polar[key][var])
                     if var in ['E', 'G']:
                         dset.attrs['unit'] = self._punit
                     # TO-DO: add support for more units
diff --git a/quantas/soec/utils/export.py b/quantas/soec/utils/export.py
index 0d4498a..c94a234 100644
--- a/quantas/soec/utils/export.py
+++ b/quantas/soec/utils/export.py
@@ -26,6 +26,7 @@ class QuantasSOECExport(object):
 
     def __init__(self):
         """ Constructor method """
+        self.data = {}
         return
 
     def load(self, filename):
@@ -56,6 +57,9 @@ class QuantasSOECExport(object):
                     self.data[key] = {}
                     self.data[key]['values'] = f[key][:]
                     self.data[key]['unit'] = f[key].attrs['unit']
+            if not self.data:
+                self.error = 'The Quantas SOEC output file does not contain '
+                self.error += 'polar data'
         return
 
     def run(self):
-- 
2.43.0


From 6076e43d2ed7e8e324a5a61f664870d0e64d16fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:44:26 +0000
Subject: [PATCH 44/84] fix: symmetry of trigonal and hexagonal stiffness
 matrices

---
 quantas/soec/utils/symmetry.py | 26 ++++++++++++++------------
 1 file changed, 14 insertions(+), 12 deletions(-)

diff --git a/quantas/soec/utils/symmetry.py b/quantas/soec/utils/symmetry.py
index c57ab32..b201b8c 100644
--- a/quantas/soec/utils/symmetry.py
+++ b/quantas/soec/utils/symmetry.py
@@ -19,19 +19,19 @@ Cij_symmetry = {
                       [0, 0, 0, 0, 4, 0],
                       [0, 0, 0, 0, 0, 4]]),
 
-   'hexagonal': np.array([[1, 7, 8, 9, 10, 0],
-                          [7, 1, 8, 0,-9, 0],
+   'hexagonal': np.array([[1, 7, 8, 0, 0, 0],
+                          [7, 1, 8, 0, 0, 0],
                           [8, 8, 3, 0, 0, 0],
-                          [9, -9, 0, 4, 0, 0],
-                          [10, 0, 0, 0, 4, 0],
+                          [0, 0, 0, 4, 0, 0],
+                          [0, 0, 0, 0, 4, 0],
                           [0, 0, 0, 0, 0, 6]]),
 
-   'trigonal_high': np.array([[1, 7, 8, 9, 10, 0],
-                              [7, 1, 8, 0,-9, 0],
+   'trigonal_high': np.array([[1, 7, 8, 9, 0, 0],
+                              [7, 1, 8, -9, 0, 0],
                               [8, 8, 3, 0, 0, 0],
                               [9, -9, 0, 4, 0, 0],
-                              [10, 0, 0, 0, 4, 0],
-                              [0, 0, 0, 0, 0, 6]]),
+                              [0, 0, 0, 0, 4, 9],
+                              [0, 0, 0, 0, 9, 6]]),
 
    'trigonal_low': np.array([[1,  7,  8,  9,  10,  0 ],
                              [7,  1,  8, -9, -10,  0 ],
@@ -118,7 +118,7 @@ def run_check(m, symmetry):
         l = []
         for key in Cij_map.keys():
             # Collect the combinations
-            if Cij_map[key] == i:
+            if abs(Cij_map[key]) == i:
                 l.append(key)
         if len(l) != 0:
             if i == 0:
@@ -129,13 +129,15 @@ def run_check(m, symmetry):
                         continue
             else:
                 for k in it.combinations(l, 2):
-                    if abs(m[k[0]] - m[k[1]]) > tol:
+                    # Equal or, when the signs in the map differ, opposite
+                    sign = np.sign(Cij_map[k[0]]*Cij_map[k[1]])
+                    if abs(m[k[0]] - sign*m[k[1]]) > tol:
                         return False
                     else:
                         continue
 
-    # Additional check for hexagonal system
-    if symmetry == 'hexagonal':
+    # Additional check for hexagonal and trigonal systems
+    if symmetry in ['hexagonal', 'trigonal_high', 'trigonal_low']:
         if abs(m[5][5]-((m[0][0]-m[0][1])/2.)) > tol:
             return False
     return True
-- 
2.43.0


From 51abcd57d1a7e1fd59f2c48fd6aa5de77bbd2b09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:00:37 +0000
Subject: [PATCH 45/84] fix: azimuth of directions given by Cartesian
 components

---
 quantas/seismic/utils/seismic_obj.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/quantas/seismic/utils/seismic_obj.py b/quantas/seismic/utils/seismic_obj.py
index 6f444dc..36d7cc5 100644
--- a/quantas/seismic/utils/seismic_obj.py
+++ b/quantas/seismic/utils/seismic_obj.py
@@ -434,7 +434,7 @@ class Seismic(object):
         x = self.direction[0]
         y = self.direction[1]
         z = self.direction[2]
-        self.phi = np.arctan2(x, y)
+        self.phi = np.arctan2(y, x)
         self.theta = np.arctan2(np.sqrt(y ** 2 + x ** 2), z)
 
         # Set the new Christoffel matrix
@@ -553,7 +553,7 @@ class Seismic(object):
             x = gdir[i][0]
             y = gdir[i][1]
             z = gdir[i][2]
-            gphi[i] = np.arctan2(x, y)
+            gphi[i] = np.arctan2(y, x)
             gtheta[i] = np.arctan2(np.sqrt(y**2 + x**2), z)
 
         # Calculate the powerflow angle
-- 
2.43.0


From c955fa18a73268e4539cc14b58d860c2b9458a5e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:06:47 +0000
Subject: [PATCH 46/84] fix: every local extreme of the directional elastic
 properties is refined

---
 quantas/soec/soec.py | 21 ++++++++++++++-------
 1 file changed, 14 insertions(+), 7 deletions(-)

diff --git a/quantas/soec/soec.py b/quantas/soec/soec.py
index 49736fe..b238755 100644
--- a/quantas/soec/soec.py
+++ b/quantas/soec/soec.py
@@ -77,13 +77,20 @@ def minimize(func, n=37):
         func, ((0, np.pi), (0, np.pi)), Ns=n, full_output=True, finish=None)
     lowest = ndimage.minimum_filter(values, size=3, mode='nearest')
     starts = np.flatnonzero(values == lowest)
-    # Equal values: grid points at a pole, or directions related by symmetry
-    starts = starts[np.unique(np.round(values.flat[starts], 9),
-                              return_index=True)[1]][:12]
-    minima = [
-        optimize.fmin(func, [grid[0].flat[i], grid[1].flat[i]], xtol=1.e-6,
-                      ftol=1.e-8, full_output=True, disp=False)[0:2]
-        for i in starts]
+    starts = starts[np.argsort(values.flat[starts], kind='stable')]
+    # Each direction once: grid points at a pole, and opposite directions
+    axes = np.round(np.transpose(
+        vector(grid[0].flat[starts], grid[1].flat[starts])), 6)
+    axes *= np.sign(axes[:, 0:1] + 1.e-3*axes[:, 1:2] + 1.e-8*axes[:, 2:3])
+    first = np.unique(axes + 0., axis=0, return_index=True)[1]
+    starts = starts[np.sort(first)][:12]
+    step = 0.5*np.pi/(n - 1)
+    minima = []
+    for i in starts:
+        x = np.array([grid[0].flat[i], grid[1].flat[i]])
+        minima.append(optimize.fmin(
+            func, x, xtol=1.e-6, ftol=1.e-8, full_output=True, disp=False,
+            initial_simplex=[x, x + [step, 0.], x + [0., step]])[0:2])
     return min(minima, key=lambda x: x[1])
 
 
-- 
2.43.0


From 239ee2062e61a25ac85abfc712e04af796bd30df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:32:23 +0000
Subject: [PATCH 47/84] fix: order of the elastic moduli read from VASP

---
 quantas/interfaces/vasp.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/quantas/interfaces/vasp.py b/quantas/interfaces/vasp.py
index de57fb1..b036f09 100644
--- a/quantas/interfaces/vasp.py
+++ b/quantas/interfaces/vasp.py
@@ -56,8 +56,9 @@ class VASPSOECReader(BasicReader):
                     self.error += 'Please, check the OUTCAR file'
                     return
 
-        self._data['stiffness'][[3, 5]] = self._data['stiffness'][[5, 3]]
-        self._data['stiffness'][:, [3, 5]] = self._data['stiffness'][:, [5, 3]]
+        # VASP order (XX YY ZZ XY YZ ZX) to Voigt order (XX YY ZZ YZ ZX XY)
+        order = [0, 1, 2, 4, 5, 3]
+        self._data['stiffness'] = self._data['stiffness'][np.ix_(order, order)]
 
         self.completed = True
         return
-- 
2.43.0


From fc8dc5ff5fd851339861b35c4feb783224d1cfae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:32:31 +0000
Subject: [PATCH 48/84] fix: elastic moduli of one output do not depend on
 those read before

---
 quantas/interfaces/crystal.py | 10 +++++-----
 quantas/interfaces/vasp.py    | 10 +++++-----
 2 files changed, 10 insertions(+), 10 deletions(-)

diff --git a/quantas/interfaces/crystal.py b/quantas/interfaces/crystal.py
index 2027ef0..4850bb6 100644
--- a/quantas/interfaces/crystal.py
+++ b/quantas/interfaces/crystal.py
@@ -1420,11 +1420,6 @@ class CrystalSOECReader(BasicReader):
     """
     """
 
-    _data = {
-        'stiffness': np.zeros((6,6), dtype=float),
-        'density': 0.
-        }
-
     def __init__(self, crystal_soec_output):
         """
         """
@@ -1434,6 +1429,11 @@ class CrystalSOECReader(BasicReader):
     def load(self, file):
         """
         """
+        self._data = {
+            'stiffness': np.zeros((6,6), dtype=float),
+            'density': 0.
+            }
+
         if not self.is_soec_output(file):
             self.error = 'This does not appear to be a CRYSTAL14/17 '
             self.error += 'output \nrelated to elastic constants calculations'
diff --git a/quantas/interfaces/vasp.py b/quantas/interfaces/vasp.py
index b036f09..a666287 100644
--- a/quantas/interfaces/vasp.py
+++ b/quantas/interfaces/vasp.py
@@ -20,11 +20,6 @@ class VASPSOECReader(BasicReader):
     """
     """
 
-    _data = {
-        'stiffness': np.zeros((6,6), dtype=float),
-        'density': 0.
-        }
-
     def __init__(self, vasp_outcar):
         """
         """
@@ -34,6 +29,11 @@ class VASPSOECReader(BasicReader):
     def load(self, file):
         """
         """
+        self._data = {
+            'stiffness': np.zeros((6,6), dtype=float),
+            'density': 0.
+            }
+
         if not self.is_soec_output(file):
             self.error = "'{}' does not appear to be a VASP output\n".format(
                 file)
-- 
2.43.0


From 7f5a486c105923a96ebfed3cc066459c747a9e30 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:32:39 +0000
Subject: [PATCH 49/84] fix: outputs with an incomplete table of elastic moduli
 are reported

---
 quantas/interfaces/crystal.py | 7 +++++--
 quantas/interfaces/vasp.py    | 4 ++--
 2 files changed, 7 insertions(+), 4 deletions(-)

diff --git a/quantas/interfaces/crystal.py b/quantas/interfaces/crystal.py
index 4850bb6..b906a2e 100644
--- a/quantas/interfaces/crystal.py
+++ b/quantas/interfaces/crystal.py
@@ -1452,11 +1452,14 @@ class CrystalSOECReader(BasicReader):
             data = f.readlines()
 
         for i in range(6):
-            line = data[i+sline].replace('|','').split()
+            if i + sline < len(data):
+                line = data[i+sline].replace('|','').split()
+            else:
+                line = []
             for j in range(6-i):
                 try:
                     self._data['stiffness'][i, j+i] = float(line[j])
-                except ValueError:
+                except (IndexError, ValueError):
                     self.error = 'Problem in collecting the SOEC matrix '
                     self.error += 'element {} {}\n'.format(i+1, j+i+1)
                     self.error += 'Please, check the CRYSTAL output file'
diff --git a/quantas/interfaces/vasp.py b/quantas/interfaces/vasp.py
index a666287..49ae3ff 100644
--- a/quantas/interfaces/vasp.py
+++ b/quantas/interfaces/vasp.py
@@ -46,11 +46,11 @@ class VASPSOECReader(BasicReader):
             data = f.readlines()
 
         for i in range(6):
-            line = data[i+sline].split()
+            line = data[i+sline].split() if i + sline < len(data) else []
             for j in range(6):
                 try:
                     self._data['stiffness'][i, j] = float(line[j+1]) / 10.
-                except ValueError:
+                except (IndexError, ValueError):
                     self.error = 'Problem in collecting the SOEC matrix '
                     self.error += 'element {} {}\n'.format(i+1, j+1)
                     self.error += 'Please, check the OUTCAR file'
-- 
2.43.0


From ec9508a28323c54d7e49fdf416ad401230e95cae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:40:45 +0000
Subject: [PATCH 50/84] fix: inputs generated in one session do not share the
 outputs read

---
 quantas/IO/qha_writer.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/quantas/IO/qha_writer.py b/quantas/IO/qha_writer.py
index e715339..98f42d0 100644
--- a/quantas/IO/qha_writer.py
+++ b/quantas/IO/qha_writer.py
@@ -38,6 +38,7 @@ class QHAInputCreator(object):
         """
         """
         self.interface_flag = interface
+        self.phondata = []
         return
 
     def read(self, filename, is_list, reference=0, use_symm=False):
@@ -48,6 +49,7 @@ class QHAInputCreator(object):
             return False, error
 
         c = 0
+        self.phondata = []
 
         if is_list:
             file_list = self.get_files_from_list(filename)
-- 
2.43.0


From 2a2e6099de7e916f69037b5a4fc3e59681955c1b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:40:52 +0000
Subject: [PATCH 51/84] fix: any description can be given to a generated input
 file

---
 quantas/IO/qha_writer.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/quantas/IO/qha_writer.py b/quantas/IO/qha_writer.py
index 98f42d0..4776e4a 100644
--- a/quantas/IO/qha_writer.py
+++ b/quantas/IO/qha_writer.py
@@ -9,6 +9,7 @@
 ##############################################################################
 
 import os
+import json
 import numpy as np
 from copy import deepcopy
 
@@ -111,7 +112,7 @@ class QHAInputCreator(object):
         reference = self.phondata[ref]
         data = []
         
-        data.append('job: {}'.format(jobname))
+        data.append('job: {}'.format(json.dumps(jobname)))
         data.append('natom:   %-7d' % reference.natom)
         data.append('supercell:')
         for i in range(3):
@@ -163,7 +164,7 @@ class QHAInputCreator(object):
         """
         n = self.phondata.points
         data = []
-        data.append('job: {}'.format(jobname))
+        data.append('job: {}'.format(json.dumps(jobname)))
         data.append('natom:   %-7d' % self.phondata.natom)
         data.append('supercell:')
         for i in range(3):
-- 
2.43.0


From 307328f7200c6cefa059a3b9cfb8311188f9b324 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:41:00 +0000
Subject: [PATCH 52/84] fix: reference outside of the list of files is an error

---
 quantas/harmonic/commands/cmd_inpgen.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/quantas/harmonic/commands/cmd_inpgen.py b/quantas/harmonic/commands/cmd_inpgen.py
index 78b49c3..7547251 100644
--- a/quantas/harmonic/commands/cmd_inpgen.py
+++ b/quantas/harmonic/commands/cmd_inpgen.py
@@ -91,7 +91,7 @@ def ha_inpgen(filename, outfile, is_list, ref, interface):
 
     echo("Preparing the input file for Quantas: '{}'".format(outfile))
     if interface != 'crystal-qha':
-        if ref > len(generator.phondata):
+        if not 0 <= ref < len(generator.phondata):
             echo_error(quantas_error(), bold=True)
             echo_error('Invalid reference provided')
             return
-- 
2.43.0


From b41373e2a1681e6cc21391dd4ad34487ba7e8d66 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:41:07 +0000
Subject: [PATCH 53/84] fix: volume of cells with a left-handed set of lattice
 vectors

---
 quantas/interfaces/crystal.py | 11 ++++++-----
 quantas/interfaces/phonopy.py |  2 +-
 2 files changed, 7 insertions(+), 6 deletions(-)

diff --git a/quantas/interfaces/crystal.py b/quantas/interfaces/crystal.py
index b906a2e..79ae493 100644
--- a/quantas/interfaces/crystal.py
+++ b/quantas/interfaces/crystal.py
@@ -301,11 +301,11 @@ class CrystalPhononReader(BasicReader):
         """
         if self.supercell_on:
             if self.scelphono_on:
-                return np.linalg.det(self._data['unitcell']['lattice'])
+                return abs(np.linalg.det(self._data['unitcell']['lattice']))
             else:
-                return np.linalg.det(self._data['supercell']['lattice'])
+                return abs(np.linalg.det(self._data['supercell']['lattice']))
         else:
-            return np.linalg.det(self._data['unitcell']['lattice'])
+            return abs(np.linalg.det(self._data['unitcell']['lattice']))
 
     @property
     def energy(self):
@@ -1029,7 +1029,8 @@ class CrystalQHAReader(BasicReader):
         """
         volumes = np.zeros(self.points, dtype=float)
         for i in range(self.points):
-            volumes[i] = np.linalg.det(self._data['unitcell'][i]['lattice'])
+            volumes[i] = abs(
+                np.linalg.det(self._data['unitcell'][i]['lattice']))
         return volumes / self.kpoints
 
     @property
@@ -1305,7 +1306,7 @@ class CrystalQHAReader(BasicReader):
         """
         indexes = []
         for i in range(len(cells)):
-            volume = np.linalg.det(cells[i]['lattice'])
+            volume = abs(np.linalg.det(cells[i]['lattice']))
             for j in range(len(cells)):
                 if np.isclose(volume, ordered_volumes[j]):
                     indexes.append(j)
diff --git a/quantas/interfaces/phonopy.py b/quantas/interfaces/phonopy.py
index 30d130e..8c237ec 100644
--- a/quantas/interfaces/phonopy.py
+++ b/quantas/interfaces/phonopy.py
@@ -168,7 +168,7 @@ class PhonopyReader(BasicReader):
 
     @property
     def volume(self):
-        return np.linalg.det(self._data['unitcell']['lattice'])
+        return abs(np.linalg.det(self._data['unitcell']['lattice']))
 
     @property
     def energy(self):
-- 
2.43.0


From d8116a74932f0c5292e5de645e43805de62ec949 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:41:32 +0000
Subject: [PATCH 54/84] fix: frequencies of a CRYSTAL supercell without
 SCELPHONO can be read

---
 quantas/interfaces/crystal.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/quantas/interfaces/crystal.py b/quantas/interfaces/crystal.py
index 79ae493..c6eb468 100644
--- a/quantas/interfaces/crystal.py
+++ b/quantas/interfaces/crystal.py
@@ -101,13 +101,15 @@ class CrystalPhononReader(BasicReader):
             self.dim = self.set_expansion(file)
             self._data['unitcell']['lattice'] = np.dot(
                 self._data['supercell']['lattice'], np.linalg.inv(self.dim))
-            self.qpoints, self.qcoords, self.weights, self.shrinkf = \
-                          self.set_q_mesh(file)
-
         else:
             self.unitcell = self.set_wf_cell(file)
             self.supercell = self.set_wf_cell(file)
-            self.qcoords = [[0., 0., 0.]]
+        # Without SCELPHONO, frequencies are calculated only at Gamma
+        if self.supercell_on and self.scelphono_on:
+            self.qpoints, self.qcoords, self.weights, self.shrinkf = \
+                          self.set_q_mesh(file)
+        else:
+            self.qcoords = [np.zeros(3, dtype=float)]
             self.weights = [1]
         # Collect energy values and phonons
         self._data['energy'] = self.set_energy(file)
-- 
2.43.0


From fee7ee0057d10134caadf9095486812df14ad212 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:42:26 +0000
Subject: [PATCH 55/84] fix: incomplete CRYSTAL outputs of frequency
 calculations are reported

---
 quantas/interfaces/crystal.py | 56 +++++++++++++++++++++--------------
 1 file changed, 34 insertions(+), 22 deletions(-)

diff --git a/quantas/interfaces/crystal.py b/quantas/interfaces/crystal.py
index c6eb468..f56fef3 100644
--- a/quantas/interfaces/crystal.py
+++ b/quantas/interfaces/crystal.py
@@ -8,6 +8,7 @@
 # For further information on the license, see the LICENSE file               #
 ##############################################################################
 
+import re
 import numpy as np
 
 from quantas.core.reader import BasicReader
@@ -91,6 +92,27 @@ class CrystalPhononReader(BasicReader):
             self.error += 'output \nrelated to phonon calculations'
             return
 
+        try:
+            self._collect(file)
+        except (IndexError, KeyError, TypeError, ValueError,
+                np.linalg.LinAlgError):
+            self.error = 'Incomplete or unreadable data in {0}'.format(file)
+            return
+        #
+        self._check(file)
+        return
+
+    def _collect(self, file):
+        """
+        Collect the data printed in the CRYSTAL output file.
+
+        Parameters
+        ----------
+
+        file: str
+            Path to the CRYSTAL output file.
+
+        """
         self.supercell_on = self.is_supercell(file)
         self.scelphono_on = self.is_phonon_dispersion(file)
         #
@@ -114,8 +136,6 @@ class CrystalPhononReader(BasicReader):
         # Collect energy values and phonons
         self._data['energy'] = self.set_energy(file)
         self.phonons = self.set_phonons(file)
-        #
-        self._check(file)
         return
 
     def _check(self, file):
@@ -127,7 +147,7 @@ class CrystalPhononReader(BasicReader):
         if not np.any(self.lattice):
             self.error = 'No unit cell lattice in {0}'.format(file)
             return
-        if not bool(self.phonons):
+        if len(self.phonons) < self.qpoints:
             self.error = 'No phonon data in {0}'.format(file)
             return
         self.completed = True
@@ -729,28 +749,20 @@ class CrystalPhononReader(BasicReader):
 
             if frequency_header in data[i]:
 
-                finished = False
-                band = np.zeros(self.nphonon, dtype=float)
-                line_counter = 0
-                freq_counter = 0
+                band = []
 
-                while not finished or freq_counter != self.nphonon:
-                    line = data[i + line_counter + 2].split()
-
-                    if len(line) == 0:
-                        finished = True
-                        continue
-
-                    mode_n1 = int(line[0][:-1])
-                    mode_n2 = int(line[1])
-
-                    for j in range(mode_n2 - mode_n1 + 1):
-                        band[freq_counter] = float(line[3])
-                        freq_counter += 1
+                for line in data[i+2:]:
+                    modes = re.match(r'\s*(\d+)\s*-\s*(\d+)\s', line)
+                    if modes is None:
+                        break
+                    frequency = float(line[modes.end():].split()[1])
+                    n = int(modes.group(2)) - int(modes.group(1)) + 1
+                    band.extend([frequency] * n)
 
-                    line_counter += 1
+                if len(band) != self.nphonon:
+                    raise ValueError('incomplete table of frequencies')
 
-                phonons[band_counter] = band
+                phonons[band_counter] = np.asarray(band, dtype=float)
                 band_counter +=1
 
                 if band_counter == self.qpoints:
-- 
2.43.0


From 446bb646a9ef78dbe9272b6203f9ca60052d6ad0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:42:33 +0000
Subject: [PATCH 56/84] fix: outputs that do not match the reference are
 reported

---
 quantas/IO/qha_writer.py | 21 +++++++++++++++++++++
 1 file changed, 21 insertions(+)

diff --git a/quantas/IO/qha_writer.py b/quantas/IO/qha_writer.py
index 4776e4a..d4ddb94 100644
--- a/quantas/IO/qha_writer.py
+++ b/quantas/IO/qha_writer.py
@@ -82,8 +82,29 @@ class QHAInputCreator(object):
 
             c += 1
 
+        if self.interface_flag != 'crystal-qha':
+            if not 0 <= reference < len(self.phondata):
+                return False, 'Invalid reference provided'
+            error = self.compare_with_reference(file_list, reference)
+            if error is not None:
+                return False, error
+
         return True, None
 
+    def compare_with_reference(self, file_list, reference=0):
+        """
+        All the files should be related to the same crystal and the same
+        **q**-points.
+        """
+        ref = self.phondata[reference]
+        for file, data in zip(file_list, self.phondata):
+            if (data.natom != ref.natom or data.qpoints != ref.qpoints or
+                    not np.array_equal(data.dim, ref.dim)):
+                error = 'File {} differs from the reference in the number '
+                error += 'of atoms, the\nsupercell or the number of q-points'
+                return error.format(file)
+        return None
+
     def get_files_from_list(self, file_list):
         """
         """
-- 
2.43.0


From 1b9cdf7c6e5df569b8c4c0623f2b30e6ff0f9770 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:42:39 +0000
Subject: [PATCH 57/84] fix: data read from a CRYSTAL QHA output do not depend
 on those read before

---
 quantas/interfaces/crystal.py | 30 +++++++++++++++---------------
 1 file changed, 15 insertions(+), 15 deletions(-)

diff --git a/quantas/interfaces/crystal.py b/quantas/interfaces/crystal.py
index f56fef3..7c2f5ff 100644
--- a/quantas/interfaces/crystal.py
+++ b/quantas/interfaces/crystal.py
@@ -805,21 +805,6 @@ class CrystalQHAReader(BasicReader):
     _is_supercell = False
     _is_restarted = False
 
-    _data = {
-        'points': 0.,
-        'unitcell': [],
-        'supercell': [],
-        'expansion': np.identity(3, dtype=int),
-        'energy': 0.,
-        'kpoints': 1,
-        'qpoints': 1,
-        'qcoords': {},
-        'nphonon': 0,
-        'phonons': {},
-        'weights': {},
-        'shrinkf': np.ones(3, dtype=int)
-        }
-
     def __init__(self, crystal_output):
         BasicReader.__init__(self, crystal_output)
         return
@@ -828,6 +813,21 @@ class CrystalQHAReader(BasicReader):
         """
 
         """
+        self._data = {
+            'points': 0.,
+            'unitcell': [],
+            'supercell': [],
+            'expansion': np.identity(3, dtype=int),
+            'energy': 0.,
+            'kpoints': 1,
+            'qpoints': 1,
+            'qcoords': {},
+            'nphonon': 0,
+            'phonons': {},
+            'weights': {},
+            'shrinkf': np.ones(3, dtype=int)
+            }
+
         if not self.is_qha(file):
             self.error = 'This does not appear to be a CRYSTAL14/17 '
             self.error += 'output \nrelated to QHA calculations'
-- 
2.43.0


From 68b883bfad4f8f22fa3b44f5614f771a5b018ae5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:43:10 +0000
Subject: [PATCH 58/84] fix: incomplete CRYSTAL QHA outputs are reported

---
 quantas/interfaces/crystal.py | 23 +++++++++++++++++++++--
 1 file changed, 21 insertions(+), 2 deletions(-)

diff --git a/quantas/interfaces/crystal.py b/quantas/interfaces/crystal.py
index 7c2f5ff..10efd97 100644
--- a/quantas/interfaces/crystal.py
+++ b/quantas/interfaces/crystal.py
@@ -833,6 +833,27 @@ class CrystalQHAReader(BasicReader):
             self.error += 'output \nrelated to QHA calculations'
             return
 
+        try:
+            self._collect(file)
+        except (IndexError, KeyError, TypeError, ValueError,
+                np.linalg.LinAlgError):
+            self.error = 'Incomplete or unreadable data in {0}'.format(file)
+            return
+
+        self.completed = self.error is None
+        return
+
+    def _collect(self, file):
+        """
+        Collect the data printed in the CRYSTAL output file.
+
+        Parameters
+        ----------
+
+        file: str
+            Path to the CRYSTAL output file.
+
+        """
         self.points = self.set_qha_points(file)
         if self.points < 1:
             self.error = 'This QHA file seems to not contain any volume'
@@ -863,8 +884,6 @@ class CrystalQHAReader(BasicReader):
         self._data['energy'] = self.set_energy(file)
 
         self.phonons = self.set_phonons(file)
-
-        self.completed = True
         return
 
     def is_qha(self, file):
-- 
2.43.0


From e85acd3c49d32146426bb2af7f95da59b86d0561 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:43:44 +0000
Subject: [PATCH 59/84] fix: unreadable phonopy and VASP files are reported

---
 quantas/interfaces/phonopy.py | 38 ++++++++++++++++++++++++++---------
 1 file changed, 28 insertions(+), 10 deletions(-)

diff --git a/quantas/interfaces/phonopy.py b/quantas/interfaces/phonopy.py
index 8c237ec..68d660c 100644
--- a/quantas/interfaces/phonopy.py
+++ b/quantas/interfaces/phonopy.py
@@ -92,11 +92,13 @@ class PhonopyReader(BasicReader):
         #
         vasprun = os.path.splitext(file)[0] + '.xml'
         if os.path.exists(vasprun):
-            root = ET.parse(vasprun).getroot()
-            energy_results = root.findall('calculation/energy/i')
-            for energy_elem in energy_results:
-                if energy_elem.attrib['name'] == 'e_wo_entrp':
-                    self._data['energy'] = float(energy_elem.text)
+            try:
+                self._data['energy'] = self.set_energy(vasprun)
+            except (ET.ParseError, KeyError, TypeError, ValueError):
+                self.error = 'File {} is not a readable VASP xml '.format(
+                    vasprun)
+                self.error += 'output'
+                return
 
         if os.path.exists(file):
             yaml_error, exception, idata = self.load_yaml(file)
@@ -107,15 +109,19 @@ class PhonopyReader(BasicReader):
             self.error = ' File not found!'.format(file)
             return
 
-        self.unitcell = self.set_unit_cell(idata)
-
         error, exception, dispdata = self.load_yaml(dispfile)
         if error:
             self.error = exception
             return
-        self.supercell = self.set_displacements(dispdata)
 
-        self.set_phonons(idata)
+        try:
+            self.unitcell = self.set_unit_cell(idata)
+            self.supercell = self.set_displacements(dispdata)
+            self.set_phonons(idata)
+        except (AttributeError, IndexError, KeyError, TypeError, ValueError):
+            self.error = 'Incomplete or unreadable data in {} '.format(file)
+            self.error += '\nor {}'.format(dispfile)
+            return
 
         self.completed = True
         return
@@ -209,10 +215,22 @@ class PhonopyReader(BasicReader):
         with open(file, 'r') as stream:
             try:
                 idata = yaml.safe_load(stream)
-            except yaml.YAMLError as exception:
+            except (yaml.YAMLError, UnicodeDecodeError) as e:
                 error = True
+                exception = 'File {} is not readable:\n{}'.format(file, e)
             return error, exception, idata
 
+    def set_energy(self, vasprun):
+        """
+        """
+        energy = 0.
+        root = ET.parse(vasprun).getroot()
+        energy_results = root.findall('calculation/energy/i')
+        for energy_elem in energy_results:
+            if energy_elem.attrib['name'] == 'e_wo_entrp':
+                energy = float(energy_elem.text)
+        return energy
+
     def set_displacements(self, idata):
         """
         """
-- 
2.43.0


From d3f9abcdbd911e3714e51d349d7a71ab3a36898b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:46:36 +0000
Subject: [PATCH 60/84] fix: local extremes next to the lowest one and along
 the acoustic axes are searched too

---
 quantas/soec/soec.py | 96 +++++++++++++++++++++++++++++++++++---------
 1 file changed, 76 insertions(+), 20 deletions(-)

diff --git a/quantas/soec/soec.py b/quantas/soec/soec.py
index b238755..2c4a896 100644
--- a/quantas/soec/soec.py
+++ b/quantas/soec/soec.py
@@ -53,10 +53,19 @@ tv = '    {:10}' + 3*' | {: ^22.4f}'                # Triple value
 hh = '    {:10}' + 3*' | {: ^10}  {: ^10}'          # Hexa header
 hv = '    {:10}' + 3*' | {: ^10.4f}  {: ^10.4f}'    # Hexa values
 
-def minimize(func, n=37):
+def refine(func, x, step):
     """
-    Find the global minimum of a function of the two angles of a direction:
-    the lowest local minima on a grid of n x n angles are refined.
+    Local minimum of a function of two angles close to the given ones.
+    """
+    return optimize.fmin(
+        func, x, xtol=1.e-6, ftol=1.e-8, full_output=True, disp=False,
+        initial_simplex=[x, x + [step, 0.], x + [0., step]])[0:2]
+
+
+def local_minima(func, ranges, n, nmax):
+    """
+    Lowest local minima of a function of the two angles of a direction on a
+    grid of angles, refined.
 
     Parameters
     ----------
@@ -64,17 +73,23 @@ def minimize(func, n=37):
     func: callable
         Function of the two angles.
 
-    n: int, optional
+    ranges: tuple
+        Minimum and maximum value of each angle.
+
+    n: int
         Number of values of each angle.
 
+    nmax: int
+        Maximum number of minima.
+
     Returns
     -------
 
-    tuple
-        Angles and value of the minimum.
+    list
+        Angles and value of each minimum.
     """
     _, _, grid, values = optimize.brute(
-        func, ((0, np.pi), (0, np.pi)), Ns=n, full_output=True, finish=None)
+        func, ranges, Ns=n, full_output=True, finish=None)
     lowest = ndimage.minimum_filter(values, size=3, mode='nearest')
     starts = np.flatnonzero(values == lowest)
     starts = starts[np.argsort(values.flat[starts], kind='stable')]
@@ -83,19 +98,50 @@ def minimize(func, n=37):
         vector(grid[0].flat[starts], grid[1].flat[starts])), 6)
     axes *= np.sign(axes[:, 0:1] + 1.e-3*axes[:, 1:2] + 1.e-8*axes[:, 2:3])
     first = np.unique(axes + 0., axis=0, return_index=True)[1]
-    starts = starts[np.sort(first)][:12]
-    step = 0.5*np.pi/(n - 1)
+    starts = starts[np.sort(first)][:nmax]
+    step = 0.5*(ranges[0][1] - ranges[0][0])/(n - 1)
     minima = []
     for i in starts:
         x = np.array([grid[0].flat[i], grid[1].flat[i]])
-        minima.append(optimize.fmin(
-            func, x, xtol=1.e-6, ftol=1.e-8, full_output=True, disp=False,
-            initial_simplex=[x, x + [step, 0.], x + [0., step]])[0:2])
-    return min(minima, key=lambda x: x[1])
+        minima.append(refine(func, x, step))
+    return minima
+
+
+def minimize(func, n=37, starts=()):
+    """
+    Find the global minimum of a function of the two angles of a direction:
+    the lowest local minima on a grid of n x n angles are refined, and others
+    are searched around the lowest one.
+
+    Parameters
+    ----------
+
+    func: callable
+        Function of the two angles.
+
+    n: int, optional
+        Number of values of each angle.
+
+    starts: list, optional
+        Angles where other minima could be, besides those on the grid.
 
+    Returns
+    -------
+
+    tuple
+        Angles and value of the minimum.
+    """
+    minima = local_minima(func, ((0, np.pi), (0, np.pi)), n, 12)
+    minima += [refine(func, x, 0.1*np.pi/(n - 1)) for x in starts]
+    best = min(minima, key=lambda x: x[1])
+    d = 1.2*np.pi/(n - 1)
+    minima = local_minima(
+        func, tuple((x - d, x + d) for x in best[0]), n//3, 3)
+    return min([best] + minima, key=lambda x: x[1])
 
-def maximize(func, n=37):
-    res = minimize(lambda x: -func(x), n)
+
+def maximize(func, n=37, starts=()):
+    res = minimize(lambda x: -func(x), n, starts)
     return (res[0], -res[1])
 
 
@@ -429,7 +475,7 @@ class SOECCalculator(BasicCalculator):
         self.echo('')
         return
 
-    def directional_variation(self, func, dim, extremes=None):
+    def directional_variation(self, func, dim, extremes=None, starts=()):
         """
         Extremes of a property and the directions where they are found.
 
@@ -446,12 +492,16 @@ class SOECCalculator(BasicCalculator):
             If the property depends on three angles, function of the first two
             that returns the third angle and the value of the minimum and of
             the maximum of the property.
+
+        starts: list, optional
+            Angles of directions where the extremes of a property of two
+            angles could be hard to find.
         """
         #
         # Minimum and maximum value
         if dim == 2:
-            minval = minimize(func)
-            maxval = maximize(func)
+            minval = minimize(func, starts=starts)
+            maxval = maximize(func, starts=starts)
         else:
             x = minimize(lambda x: extremes(x)[0][1])[0]
             x = [x[0], x[1], extremes(x)[0][0]]
@@ -499,8 +549,14 @@ class SOECCalculator(BasicCalculator):
         """
         """
         Vp_var = self.directional_variation(self.soec.longitudinal_wave, 2)
-        Vs1_var = self.directional_variation(self.soec.shear_wave_1, 2)
-        Vs2_var = self.directional_variation(self.soec.shear_wave_2, 2)
+        # The surfaces of the shear waves have tips along the acoustic axes
+        axes = [x for x, _ in local_minima(
+            lambda x: self.soec.shear_wave_2(x) - self.soec.shear_wave_1(x),
+            ((0, np.pi), (0, np.pi)), 37, 12)]
+        Vs1_var = self.directional_variation(
+            self.soec.shear_wave_1, 2, starts=axes)
+        Vs2_var = self.directional_variation(
+            self.soec.shear_wave_2, 2, starts=axes)
         return Vp_var, Vs1_var, Vs2_var
 
     def report_variation_single(self, E_var, LC_var):
-- 
2.43.0


From 5e6901369ba753474e5a3e2f6fb9a76e6b661b9e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:51:49 +0000
Subject: [PATCH 61/84] fix: results loaded for export are kept by each
 exporter

---
 quantas/harmonic/utils/export.py | 6 +++---
 quantas/qha/utils/export.py      | 6 +++---
 2 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/quantas/harmonic/utils/export.py b/quantas/harmonic/utils/export.py
index 7017dcb..0976633 100644
--- a/quantas/harmonic/utils/export.py
+++ b/quantas/harmonic/utils/export.py
@@ -20,13 +20,13 @@ from .table import QHATableFile
 class QuantasHarmonicExport(object):
     '''
     '''
-    x = {}
-    y = {}
-    data = {}
     error = None
 
     def __init__(self):
         ''' Constructor method '''
+        self.x = {}
+        self.y = {}
+        self.data = {}
         return
 
     def load(self, filename):
diff --git a/quantas/qha/utils/export.py b/quantas/qha/utils/export.py
index d383a46..e9fe9a9 100644
--- a/quantas/qha/utils/export.py
+++ b/quantas/qha/utils/export.py
@@ -20,13 +20,13 @@ from .table import QHATableFile
 class QuantasQHAExport(object):
     """
     """
-    x = {}
-    y = {}
-    data = {}
     error = None
 
     def __init__(self):
         """ Constructor method """
+        self.x = {}
+        self.y = {}
+        self.data = {}
         return
 
     def load(self, filename):
-- 
2.43.0


From 233107b65f300dccf26c4766c963b11fcaae42f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:51:56 +0000
Subject: [PATCH 62/84] fix: static energies of harmonic results can be
 exported

---
 quantas/harmonic/utils/table.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/quantas/harmonic/utils/table.py b/quantas/harmonic/utils/table.py
index 650117d..2445a15 100644
--- a/quantas/harmonic/utils/table.py
+++ b/quantas/harmonic/utils/table.py
@@ -155,6 +155,9 @@ class QHATableFile():
             f.write(newrow())
             f.write(separator(totw, '+', '='))
             f.write(nl)
+            if z.ndim == 1:
+                # These values do not depend on the first variable
+                x, z = [''], [z]
             for i in range(len(x)):
                 f.write(put_data(x[i], self.types[xname]['numstyle']))
                 for j in range(len(y)):
-- 
2.43.0


From 4c93a6a81472b2dfd7833dd2ac374fd4b4745cab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:52:03 +0000
Subject: [PATCH 63/84] fix: exporting to another existing file asks before
 replacing it

---
 quantas/harmonic/utils/export.py | 4 ++--
 quantas/qha/utils/export.py      | 4 ++--
 quantas/soec/utils/export.py     | 4 ++--
 3 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/quantas/harmonic/utils/export.py b/quantas/harmonic/utils/export.py
index 0976633..cd05af0 100644
--- a/quantas/harmonic/utils/export.py
+++ b/quantas/harmonic/utils/export.py
@@ -72,9 +72,9 @@ class QuantasHarmonicExport(object):
                 show_choices=True)
             outfile = self.basename + '_' + selection + '.dat'
 
-            if os.path.exists(outfile):
+            while os.path.exists(outfile):
                 if confirm("File '{}' exists. Overwrite it?".format(outfile)):
-                    pass
+                    break
                 else:
                     outfile = click.prompt('Please, enter a file name')
 
diff --git a/quantas/qha/utils/export.py b/quantas/qha/utils/export.py
index e9fe9a9..1d29734 100644
--- a/quantas/qha/utils/export.py
+++ b/quantas/qha/utils/export.py
@@ -72,9 +72,9 @@ class QuantasQHAExport(object):
                 show_choices=True)
             outfile = self.basename + '_' + selection + '.dat'
 
-            if os.path.exists(outfile):
+            while os.path.exists(outfile):
                 if confirm("File '{}' exists. Overwrite it?".format(outfile)):
-                    pass
+                    break
                 else:
                     outfile = click.prompt('Please, enter a file name')
 
diff --git a/quantas/soec/utils/export.py b/quantas/soec/utils/export.py
index c94a234..9ecd946 100644
--- a/quantas/soec/utils/export.py
+++ b/quantas/soec/utils/export.py
@@ -84,9 +84,9 @@ class QuantasSOECExport(object):
                     else:
                         data = np.hstack((data, self.data[key]['values'][:,1:]))
 
-            if os.path.exists(outfile):
+            while os.path.exists(outfile):
                 if confirm("File '{}' exists. Overwrite it?".format(outfile)):
-                    pass
+                    break
                 else:
                     outfile = click.prompt('Please, enter a file name')
 
-- 
2.43.0


From 53665425e38a19c44bca686a846d8841edbeeb39 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:53:18 +0000
Subject: [PATCH 64/84] fix: export: report files that are not results instead
 of failing with a traceback

---
 quantas/harmonic/utils/export.py |  9 +++++++++
 quantas/qha/utils/export.py      | 11 ++++++++++-
 quantas/soec/utils/export.py     |  9 +++++++++
 3 files changed, 28 insertions(+), 1 deletion(-)

diff --git a/quantas/harmonic/utils/export.py b/quantas/harmonic/utils/export.py
index cd05af0..ca75bc1 100644
--- a/quantas/harmonic/utils/export.py
+++ b/quantas/harmonic/utils/export.py
@@ -33,6 +33,15 @@ class QuantasHarmonicExport(object):
         '''
         '''
         self.basename = os.path.splitext(filename)[0]
+        try:
+            self._read(filename)
+        except (OSError, KeyError, TypeError, AttributeError, ValueError,
+                RuntimeError):
+            self.error = 'This does not appear to be a Quantas HA output file'
+        return
+
+    def _read(self, filename):
+        ''' Read the content of the result file. '''
         with h5py.File(filename, 'r') as f:
             try:
                 self.info = f.attrs['info']
diff --git a/quantas/qha/utils/export.py b/quantas/qha/utils/export.py
index 1d29734..98c7a67 100644
--- a/quantas/qha/utils/export.py
+++ b/quantas/qha/utils/export.py
@@ -33,6 +33,15 @@ class QuantasQHAExport(object):
         """
         """
         self.basename = os.path.splitext(filename)[0]
+        try:
+            self._read(filename)
+        except (OSError, KeyError, TypeError, AttributeError, ValueError,
+                RuntimeError):
+            self.error = 'This does not appear to be a Quantas QHA output file'
+        return
+
+    def _read(self, filename):
+        """ Read the content of the result file. """
         with h5py.File(filename, 'r') as f:
             try:
                 self.info = f.attrs['info']
@@ -46,7 +55,7 @@ class QuantasQHAExport(object):
                 self.y['values'] = f['P'][:]
                 self.y['unit'] = f['P'].attrs['unit']
             except KeyError:
-                self.error = 'This does not appear to be a Quantas HA output '
+                self.error = 'This does not appear to be a Quantas QHA output '
                 self.error += 'file'
                 return
 
diff --git a/quantas/soec/utils/export.py b/quantas/soec/utils/export.py
index 9ecd946..f0d3d02 100644
--- a/quantas/soec/utils/export.py
+++ b/quantas/soec/utils/export.py
@@ -33,6 +33,15 @@ class QuantasSOECExport(object):
         """
         """
         self.basename = os.path.splitext(filename)[0]
+        try:
+            self._read(filename)
+        except (OSError, KeyError, TypeError, AttributeError, ValueError,
+                RuntimeError):
+            self.error = 'This does not appear to be a Quantas SOEC output file'
+        return
+
+    def _read(self, filename):
+        """ Read the content of the result file. """
         with h5py.File(filename, 'r') as f:
             try:
                 self.info = f.attrs['info']
-- 
2.43.0


From d89a007024b6d4c3c8add6cde7e7e764ea0086cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:58:08 +0000
Subject: [PATCH 65/84] fix: ha export: zero-point energies are stored as one
 row

---
 quantas/harmonic/utils/table.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/quantas/harmonic/utils/table.py b/quantas/harmonic/utils/table.py
index 2445a15..478ae25 100644
--- a/quantas/harmonic/utils/table.py
+++ b/quantas/harmonic/utils/table.py
@@ -155,9 +155,9 @@ class QHATableFile():
             f.write(newrow())
             f.write(separator(totw, '+', '='))
             f.write(nl)
-            if z.ndim == 1:
+            if z.ndim == 1 or len(z) != len(x):
                 # These values do not depend on the first variable
-                x, z = [''], [z]
+                x, z = [''], z.reshape(1, -1)
             for i in range(len(x)):
                 f.write(put_data(x[i], self.types[xname]['numstyle']))
                 for j in range(len(y)):
-- 
2.43.0


From 1cfb76d18c0f66e84f1404a1d98a473bb698793c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:21:58 +0000
Subject: [PATCH 66/84] fix: commands: log the banner of reading errors too

---
 quantas/eosfit/commands/cmd_eosfit.py | 2 +-
 quantas/harmonic/commands/cmd_ha.py   | 2 +-
 quantas/qha/commands/cmd_qha.py       | 2 +-
 quantas/soec/commands/cmd_soec.py     | 2 +-
 4 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/quantas/eosfit/commands/cmd_eosfit.py b/quantas/eosfit/commands/cmd_eosfit.py
index 8ef4da9..db7f467 100644
--- a/quantas/eosfit/commands/cmd_eosfit.py
+++ b/quantas/eosfit/commands/cmd_eosfit.py
@@ -76,7 +76,7 @@ def eos_calculation(filename, outfile, punit, vunit):
     error = calculator.read_input(filename)
 
     if not isinstance(error, type(None)):
-        echo_error(quantas_error(), bold=True)
+        echo_error(quantas_error(), logfile, bold=True)
         echo_error(error, logfile)
         return
 
diff --git a/quantas/harmonic/commands/cmd_ha.py b/quantas/harmonic/commands/cmd_ha.py
index d61461b..7faa655 100644
--- a/quantas/harmonic/commands/cmd_ha.py
+++ b/quantas/harmonic/commands/cmd_ha.py
@@ -99,7 +99,7 @@ def ha_calculation(filename, outfile, temperature, eunit, vunit, funit, tunit, s
     error = calculator.read_input(filename)
 
     if not isinstance(error, type(None)):
-        echo_error(quantas_error(), bold=True)
+        echo_error(quantas_error(), logfile, bold=True)
         echo_error(error, logfile)
         return
 
diff --git a/quantas/qha/commands/cmd_qha.py b/quantas/qha/commands/cmd_qha.py
index 23b161d..70395a0 100644
--- a/quantas/qha/commands/cmd_qha.py
+++ b/quantas/qha/commands/cmd_qha.py
@@ -151,7 +151,7 @@ def qha_calculation(filename, outfile, qha_scheme, minimization, kieffer,
 
     error = calculator.read_input(filename)
     if not isinstance(error, type(None)):
-        echo_error(quantas_error(), bold=True)
+        echo_error(quantas_error(), logfile, bold=True)
         echo_error(error, logfile)
         return
 
diff --git a/quantas/soec/commands/cmd_soec.py b/quantas/soec/commands/cmd_soec.py
index 26982f4..9894abb 100644
--- a/quantas/soec/commands/cmd_soec.py
+++ b/quantas/soec/commands/cmd_soec.py
@@ -91,7 +91,7 @@ def soec_calculation(filename, outfile, punit, polar, plot, dpi, silent, debug):
     error = calculator.read_input(filename)
 
     if not isinstance(error, type(None)):
-        echo_error(quantas_error(), bold=True)
+        echo_error(quantas_error(), logfile, bold=True)
         echo_error(error, logfile)
         return
 
-- 
2.43.0


From a85b7abaeba0bf8f8bba07cda2a1d636be703f96 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:22:06 +0000
Subject: [PATCH 67/84] fix: soec, eosfit: report binary input files instead of
 failing with a traceback

---
 quantas/IO/eos_reader.py  | 8 ++++++--
 quantas/IO/soec_reader.py | 8 ++++++--
 2 files changed, 12 insertions(+), 4 deletions(-)

diff --git a/quantas/IO/eos_reader.py b/quantas/IO/eos_reader.py
index fc46d7a..3e0a978 100644
--- a/quantas/IO/eos_reader.py
+++ b/quantas/IO/eos_reader.py
@@ -170,8 +170,12 @@ class EoSInputFileReader(BasicReader):
             Path to the EoS input file.
 
         """
-        with open(eos_input, 'r') as f:
-            data = f.readlines()
+        try:
+            with open(eos_input, 'r') as f:
+                data = f.readlines()
+        except UnicodeDecodeError:
+            self.error = 'The provided input is not a text file.'
+            return
 
         title = None
         for i in range(len(data)):
diff --git a/quantas/IO/soec_reader.py b/quantas/IO/soec_reader.py
index eb373b2..ef4d3d5 100644
--- a/quantas/IO/soec_reader.py
+++ b/quantas/IO/soec_reader.py
@@ -98,8 +98,12 @@ class SOECInputFileReader(BasicReader):
 
         """
 
-        with open(filename, 'r') as f:
-            data = f.readlines()
+        try:
+            with open(filename, 'r') as f:
+                data = f.readlines()
+        except UnicodeDecodeError:
+            self.error = 'The provided input is not a text file.'
+            return
 
         if len(data) < 6:
             self.error = 'File length is too short to contain '
-- 
2.43.0


From f6de03c03f3f52a4d2a313e69309b7687d3f90c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:22:14 +0000
Subject: [PATCH 68/84] fix: soec: report singular matrices instead of failing
 with a traceback

---
 quantas/soec/soec.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/quantas/soec/soec.py b/quantas/soec/soec.py
index 2c4a896..b555a2f 100644
--- a/quantas/soec/soec.py
+++ b/quantas/soec/soec.py
@@ -250,7 +250,10 @@ class SOECCalculator(BasicCalculator):
             self.echo_debug('Input file correctly read')
             self._job = reader.jobname
             self.echo_debug('Job name set')
-            self._soec = SOEC(reader.stiffness, reader.density)
+            try:
+                self._soec = SOEC(reader.stiffness, reader.density)
+            except ValueError:
+                return 'The SOEC matrix is singular'
             self.echo_debug('SOEC object instantiated')
             self._system = check_symmetry(self._soec.stiffness)
             self.echo_debug('Crystal system: {}'.format(self._system))
-- 
2.43.0


From 4c2dd98c50b88996865726b3fa0e7111d55899fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:22:22 +0000
Subject: [PATCH 69/84] fix: soec: accept only positive resolutions

---
 quantas/soec/commands/cmd_soec.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/quantas/soec/commands/cmd_soec.py b/quantas/soec/commands/cmd_soec.py
index 9894abb..ee4a49b 100644
--- a/quantas/soec/commands/cmd_soec.py
+++ b/quantas/soec/commands/cmd_soec.py
@@ -45,7 +45,7 @@ from ..soec import SOECCalculator
 @click.option('-p', '--plot', help='Create polar plots of the results.',
               is_flag=True, default=False)
 @click.option('--dpi', help='Resolution (DPI) of the output figures.',
-              default=80, show_default=80)
+              type=click.IntRange(min=1), default=80, show_default=80)
 @click.option('-q', '--quiet', 'silent', is_flag=True, default=False,
               help='Output will not be printed on screen.',
               )
-- 
2.43.0


From 495f8ec4f20c29274ce1bfce55b33faeaa27a092 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:22:58 +0000
Subject: [PATCH 70/84] fix: ha, qha: refuse ranges without values

---
 quantas/core/calculator.py          | 6 ++++++
 quantas/harmonic/commands/cmd_ha.py | 7 ++++++-
 quantas/qha/commands/cmd_qha.py     | 7 ++++++-
 3 files changed, 18 insertions(+), 2 deletions(-)

diff --git a/quantas/core/calculator.py b/quantas/core/calculator.py
index caac088..627dade 100644
--- a/quantas/core/calculator.py
+++ b/quantas/core/calculator.py
@@ -105,7 +105,13 @@ class BasicCalculator(object):
         to rounding errors, is included).
 
         """
+        if step == 0. or not np.all(np.isfinite([minimum, maximum, step])):
+            raise ValueError(
+                'Invalid range: {} {} {}'.format(minimum, maximum, step))
         n = int(np.floor((maximum - minimum) / step + 1.e-8)) + 1
+        if n < 1:
+            raise ValueError('No value in the range: {} {} {}'.format(
+                minimum, maximum, step))
         return minimum + step * np.arange(n, dtype=np.float64)
 
     def echo(self, msg):
diff --git a/quantas/harmonic/commands/cmd_ha.py b/quantas/harmonic/commands/cmd_ha.py
index 7faa655..a581d37 100644
--- a/quantas/harmonic/commands/cmd_ha.py
+++ b/quantas/harmonic/commands/cmd_ha.py
@@ -94,7 +94,12 @@ def ha_calculation(filename, outfile, temperature, eunit, vunit, funit, tunit, s
 
     echo(print_settings(runtime_settings), logfile, silent=silent)
 
-    calculator = HACalculator(runtime_settings)
+    try:
+        calculator = HACalculator(runtime_settings)
+    except ValueError as error:
+        echo_error(quantas_error(), logfile, bold=True)
+        echo_error(str(error), logfile)
+        return
 
     error = calculator.read_input(filename)
 
diff --git a/quantas/qha/commands/cmd_qha.py b/quantas/qha/commands/cmd_qha.py
index 70395a0..647f926 100644
--- a/quantas/qha/commands/cmd_qha.py
+++ b/quantas/qha/commands/cmd_qha.py
@@ -147,7 +147,12 @@ def qha_calculation(filename, outfile, qha_scheme, minimization, kieffer,
 
     echo(print_settings(runtime_settings), logfile, silent=silent)
 
-    calculator = QHACalculator(runtime_settings)
+    try:
+        calculator = QHACalculator(runtime_settings)
+    except ValueError as error:
+        echo_error(quantas_error(), logfile, bold=True)
+        echo_error(str(error), logfile)
+        return
 
     error = calculator.read_input(filename)
     if not isinstance(error, type(None)):
-- 
2.43.0


From a3c93f6617188ed6e9f82b1b152e0fb337dca050 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:23:07 +0000
Subject: [PATCH 71/84] fix: ha, qha: refuse temperatures below the absolute
 zero

---
 quantas/harmonic/harmonic.py | 3 +++
 quantas/qha/qha.py           | 5 ++++-
 2 files changed, 7 insertions(+), 1 deletion(-)

diff --git a/quantas/harmonic/harmonic.py b/quantas/harmonic/harmonic.py
index ef084ec..353c3cd 100644
--- a/quantas/harmonic/harmonic.py
+++ b/quantas/harmonic/harmonic.py
@@ -223,6 +223,9 @@ class HACalculator(BasicCalculator):
         #
         # Convert frequency and temperature
         temperature = ct(self.temperature, self._tunit, 'K')
+        if np.min(temperature) < 0.:
+            self.error = 'Temperatures below the absolute zero'
+            return
         freq = cf(self.input.frequencies, self._funit, 'Hz')
         #
         # Set the arrays for calculation and data storing
diff --git a/quantas/qha/qha.py b/quantas/qha/qha.py
index b04ccb5..27ffd54 100644
--- a/quantas/qha/qha.py
+++ b/quantas/qha/qha.py
@@ -455,6 +455,9 @@ class QHACalculator(BasicCalculator):
         m = self.pressure.shape[0]
         # Conversions
         T = convert_temperature(self.temperature, self._tunit, 'K')
+        if np.min(T) < 0.:
+            self.error = 'Temperatures below the absolute zero'
+            return
         #
         grid, idx = self.fine_grid()
         self.echo_debug('Grid expansion set')
@@ -477,7 +480,7 @@ class QHACalculator(BasicCalculator):
                 self.run_thermodynamics_interpolation(T, phonons,grid, idx,
                                                       acoustic
                                                       )
-        except RuntimeError as exc:
+        except (RuntimeError, np.linalg.LinAlgError) as exc:
             self.error = 'Volume minimization failed: {}'.format(exc)
             return
         self._finalize_run()
-- 
2.43.0


From ac7eed7a47b0a5289abcd103e7d6f7efc6d664af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:23:36 +0000
Subject: [PATCH 72/84] fix: commands: refuse output names that are the input,
 a directory or in a missing folder

---
 quantas/cmdline/utils/general.py      | 32 +++++++++++++++++++++++++++
 quantas/eosfit/commands/cmd_eosfit.py |  6 +++++
 quantas/harmonic/commands/cmd_ha.py   |  6 +++++
 quantas/qha/commands/cmd_qha.py       |  6 +++++
 quantas/soec/commands/cmd_soec.py     |  6 +++++
 5 files changed, 56 insertions(+)

diff --git a/quantas/cmdline/utils/general.py b/quantas/cmdline/utils/general.py
index 1bf1170..9c73f51 100644
--- a/quantas/cmdline/utils/general.py
+++ b/quantas/cmdline/utils/general.py
@@ -8,6 +8,7 @@
 # For further information on the license, see the LICENSE file               #
 ##############################################################################
 
+import os
 import click
 import difflib
 
@@ -65,3 +66,34 @@ def print_version(ctx, param, value):
         return
     echo_highlight(quantas_title(), bold=True)
     ctx.exit()
+
+
+def check_output(filename, *outputs):
+    """
+    Check if the output files can be written, without damaging the input.
+
+    Parameters
+    ----------
+
+    filename: str
+        Path to the input file.
+
+    outputs: str
+        Paths to the output files.
+
+    Returns
+    -------
+
+    error: None or str
+        Reason why the output files cannot be written.
+
+    """
+    for output in outputs:
+        if not os.path.isdir(os.path.dirname(output) or '.'):
+            return "The folder of '{}' does not exist".format(output)
+        if os.path.isdir(output):
+            return "'{}' is a directory".format(output)
+        if os.path.exists(output) and os.path.samefile(filename, output):
+            return ("'{}' is the input file, please choose another name for "
+                    "the output".format(output))
+    return None
diff --git a/quantas/eosfit/commands/cmd_eosfit.py b/quantas/eosfit/commands/cmd_eosfit.py
index db7f467..8601e8c 100644
--- a/quantas/eosfit/commands/cmd_eosfit.py
+++ b/quantas/eosfit/commands/cmd_eosfit.py
@@ -15,6 +15,7 @@ import sys
 import click
 import numpy as np
 
+from quantas.cmdline.utils.general import check_output
 from quantas.cmdline.utils.messages import quantas_title
 from quantas.cmdline.utils.messages import quantas_warning
 from quantas.cmdline.utils.messages import quantas_error
@@ -54,6 +55,11 @@ def eos_calculation(filename, outfile, punit, vunit):
         logfile = outbase + '.log'
     else:
         logfile = outfile + '.log'
+    error = check_output(filename, logfile)
+    if not isinstance(error, type(None)):
+        echo_error(quantas_error(), bold=True)
+        echo_error(error)
+        return
     init_logfile(logfile)
 
     echo_highlight(quantas_title(), logfile)
diff --git a/quantas/harmonic/commands/cmd_ha.py b/quantas/harmonic/commands/cmd_ha.py
index a581d37..89206dc 100644
--- a/quantas/harmonic/commands/cmd_ha.py
+++ b/quantas/harmonic/commands/cmd_ha.py
@@ -15,6 +15,7 @@ import sys
 import click
 import numpy as np
 
+from quantas.cmdline.utils.general import check_output
 from quantas.cmdline.utils.messages import quantas_title
 from quantas.cmdline.utils.messages import quantas_warning
 from quantas.cmdline.utils.messages import quantas_error
@@ -72,6 +73,11 @@ def ha_calculation(filename, outfile, temperature, eunit, vunit, funit, tunit, s
     else:
         outfile += '.hdf5'
     logfile = os.path.splitext(outfile)[0] + '.txt'
+    error = check_output(filename, logfile, outfile)
+    if not isinstance(error, type(None)):
+        echo_error(quantas_error(), bold=True)
+        echo_error(error)
+        return
     init_logfile(logfile)
 
     echo_highlight(quantas_title(), logfile, silent=silent)
diff --git a/quantas/qha/commands/cmd_qha.py b/quantas/qha/commands/cmd_qha.py
index 647f926..f0fa67e 100644
--- a/quantas/qha/commands/cmd_qha.py
+++ b/quantas/qha/commands/cmd_qha.py
@@ -15,6 +15,7 @@ import sys
 import click
 import numpy as np
 
+from quantas.cmdline.utils.general import check_output
 from quantas.cmdline.utils.messages import quantas_title
 from quantas.cmdline.utils.messages import quantas_warning
 from quantas.cmdline.utils.messages import quantas_error
@@ -116,6 +117,11 @@ def qha_calculation(filename, outfile, qha_scheme, minimization, kieffer,
     else:
         outfile += '.hdf5'
     logfile = os.path.splitext(outfile)[0] + '.txt'
+    error = check_output(filename, logfile, outfile)
+    if not isinstance(error, type(None)):
+        echo_error(quantas_error(), bold=True)
+        echo_error(error)
+        return
     init_logfile(logfile)
 
     echo_highlight(quantas_title(), logfile, silent=silent)
diff --git a/quantas/soec/commands/cmd_soec.py b/quantas/soec/commands/cmd_soec.py
index ee4a49b..f673eae 100644
--- a/quantas/soec/commands/cmd_soec.py
+++ b/quantas/soec/commands/cmd_soec.py
@@ -15,6 +15,7 @@ import sys
 import click
 import numpy as np
 
+from quantas.cmdline.utils.general import check_output
 from quantas.cmdline.utils.messages import quantas_title
 from quantas.cmdline.utils.messages import quantas_warning
 from quantas.cmdline.utils.messages import quantas_error
@@ -64,6 +65,11 @@ def soec_calculation(filename, outfile, punit, polar, plot, dpi, silent, debug):
     else:
         outfile += '.hdf5'
     logfile = os.path.splitext(outfile)[0] + '.txt'
+    error = check_output(filename, logfile, outfile)
+    if not isinstance(error, type(None)):
+        echo_error(quantas_error(), bold=True)
+        echo_error(error)
+        return
     init_logfile(logfile)
 
     echo_highlight(quantas_title(), logfile, silent=silent)
-- 
2.43.0


From 0ce7fd78a6fa844d4fca5dae1f413b01c5ca987e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:36:23 +0000
Subject: [PATCH 73/84] fix: soec: report input files with an empty first line
 instead of failing with a traceback

---
 quantas/soec/soec.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/quantas/soec/soec.py b/quantas/soec/soec.py
index b555a2f..ad8c529 100644
--- a/quantas/soec/soec.py
+++ b/quantas/soec/soec.py
@@ -242,7 +242,10 @@ class SOECCalculator(BasicCalculator):
         
         self.echo('Reading input file: {0}'.format(filename))
         self.echo_debug('Instantiate file reader')
-        reader = SOECInputFileReader(filename)
+        try:
+            reader = SOECInputFileReader(filename)
+        except IndexError:
+            return 'The first line of the input file is empty'
         if not reader.completed:
             return reader.error
         else:
-- 
2.43.0


From a024361efacaf39c16cab9de950ac355fa5e1508 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:40:14 +0000
Subject: [PATCH 74/84] fix: plotting flag of SeismicCalculator belongs to the
 instance

---
 quantas/seismic/seismic.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/quantas/seismic/seismic.py b/quantas/seismic/seismic.py
index 4ef9055..072c7ba 100644
--- a/quantas/seismic/seismic.py
+++ b/quantas/seismic/seismic.py
@@ -67,11 +67,10 @@ class SeismicCalculator(BasicCalculator):
 
     """
 
-    _plotting = Flag()
-
     def __init__(self, settings):
         """ Constructor for the Seismic calculator """
         BasicCalculator.__init__(self)
+        self._plotting = Flag()
         self.silent = settings['silent']
         self.debug = settings['debug']
         self.log = settings['logfile']
-- 
2.43.0


From 294c979fc0b4e434eaa3640ef28e1fc396d7f741 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:35:03 +0000
Subject: [PATCH 75/84] fix: results loaded for the seismic export are kept by
 each exporter

---
 quantas/seismic/utils/export.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/quantas/seismic/utils/export.py b/quantas/seismic/utils/export.py
index 69329a2..f80caa5 100644
--- a/quantas/seismic/utils/export.py
+++ b/quantas/seismic/utils/export.py
@@ -25,11 +25,11 @@ dl += '{: >9.5f} {: >8.3f} {: >9.5f} {: >9.5f} {: >9.5f} {: >9.4f} {: >9.4f}\n'
 class QuantasSeismicExport(object):
     """
     """
-    data = {}
     error = None
 
     def __init__(self):
         """ Constructor method """
+        self.data = {}
         return
 
     def load(self, filename):
-- 
2.43.0


From 70372f309fe8f254af09376f2f47b87fbb341ae9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:35:12 +0000
Subject: [PATCH 76/84] fix: seismic: exporting to another existing file asks
 before replacing it

---
 quantas/seismic/utils/export.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/quantas/seismic/utils/export.py b/quantas/seismic/utils/export.py
index f80caa5..e192974 100644
--- a/quantas/seismic/utils/export.py
+++ b/quantas/seismic/utils/export.py
@@ -74,9 +74,9 @@ class QuantasSeismicExport(object):
                 if selection in key:
                     data = self.data[key]['values']
 
-            if os.path.exists(outfile):
+            while os.path.exists(outfile):
                 if confirm("File '{}' exists. Overwrite it?".format(outfile)):
-                    pass
+                    break
                 else:
                     outfile = click.prompt('Please, enter a file name')
 
-- 
2.43.0


From 1280f49a52433f85fc69fbf41c68e36e21c8083a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:35:24 +0000
Subject: [PATCH 77/84] fix: seismic export: report files that are not results
 instead of failing with a traceback

---
 quantas/seismic/utils/export.py | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/quantas/seismic/utils/export.py b/quantas/seismic/utils/export.py
index e192974..9b702a3 100644
--- a/quantas/seismic/utils/export.py
+++ b/quantas/seismic/utils/export.py
@@ -37,6 +37,16 @@ class QuantasSeismicExport(object):
 
         """
         self.basename = os.path.splitext(filename)[0]
+        try:
+            self._read(filename)
+        except (OSError, KeyError, TypeError, AttributeError, ValueError,
+                RuntimeError):
+            self.error = 'This does not appear to be a Quantas seismic output '
+            self.error += 'file'
+        return
+
+    def _read(self, filename):
+        """ Read the content of the result file. """
         with h5py.File(filename, 'r') as f:
             try:
                 self.info = f.attrs['info']
-- 
2.43.0


From 45e6d2be70c55832ae1ee483c7f153574ac2a684 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:06:46 +0000
Subject: [PATCH 78/84] fix: the number of k-points sampled by a supercell is
 not negative

---
 quantas/IO/qha_reader.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/quantas/IO/qha_reader.py b/quantas/IO/qha_reader.py
index 3bbd864..5f74777 100644
--- a/quantas/IO/qha_reader.py
+++ b/quantas/IO/qha_reader.py
@@ -124,7 +124,7 @@ class QHAInputFileReader(BasicReader):
 
     @property
     def kpoints(self):
-        return int(np.around(np.linalg.det(self._data['supercell']),0))
+        return int(np.around(np.abs(np.linalg.det(self._data['supercell'])),0))
 
     @property
     def qpoints(self):
-- 
2.43.0


From 5f3d3d7ce9747958829e5bb52dd93638efeb5756 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:06:54 +0000
Subject: [PATCH 79/84] fix: errors of the EoS parameters refer to the last
 digit shown

---
 quantas/qha/qha.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/quantas/qha/qha.py b/quantas/qha/qha.py
index 27ffd54..3c7cfe3 100644
--- a/quantas/qha/qha.py
+++ b/quantas/qha/qha.py
@@ -415,11 +415,12 @@ class QHACalculator(BasicCalculator):
                     else:
                         magnitude = int(magnitude)
                     red_err = err*np.power(10., magnitude)
-                    if np.log10(int(np.round(red_err,0))) >= 1.:
+                    if magnitude > 0 and np.log10(
+                            int(np.round(red_err,0))) >= 1.:
                         magnitude -= 1
                         red_err = err*np.power(10., magnitude)
                     if magnitude > 0:
-                        red_val = np.round(val, magnitude)
+                        red_val = '{0:.{1}f}'.format(val, magnitude)
                     else:
                         red_val = int(np.round(val, magnitude))
                     red_err = int(np.round(red_err,0))
-- 
2.43.0


From 759d331854f3b140c0dfc306784a9a895bfd13e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:09:45 +0000
Subject: [PATCH 80/84] fix: fit the energy EoS to energies relative to their
 mean

---
 quantas/qha/utils/ev_eos.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/quantas/qha/utils/ev_eos.py b/quantas/qha/utils/ev_eos.py
index 88313ac..11ad949 100644
--- a/quantas/qha/utils/ev_eos.py
+++ b/quantas/qha/utils/ev_eos.py
@@ -91,11 +91,16 @@ class EnergyEOS(object):
         """
         # Set the EOS function
         eos = self._set_eos_type(eostag)
+        # Energies relative to their mean, as their changes with the volume are
+        # much smaller than their absolute values
+        reference = np.mean(E)
+        relative = np.array(E) - reference
         # Perform a guess on the parameters
-        p0 = self.guess(V, E)
+        p0 = self.guess(V, relative)
         # Perform the EOS fit using the guess as initial parameters
         eos_parameters, eos_cov = curve_fit(
-            eval(eos), V, E, p0, ftol=1.e-15, xtol=1.e-15)
+            eval(eos), V, relative, p0, ftol=1.e-15, xtol=1.e-15)
+        eos_parameters[0] += reference
         # EoS errors
         eos_errors = np.sqrt(np.diag(eos_cov))
         return eos_parameters, eos_errors
-- 
2.43.0


From 75cdfe80753cb1364e882b1d18e67360c7301673 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:11:27 +0000
Subject: [PATCH 81/84] fix: guess the EoS parameters from a minimum of the
 polynomial

---
 quantas/qha/utils/ev_eos.py | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/quantas/qha/utils/ev_eos.py b/quantas/qha/utils/ev_eos.py
index 11ad949..3f23694 100644
--- a/quantas/qha/utils/ev_eos.py
+++ b/quantas/qha/utils/ev_eos.py
@@ -152,9 +152,17 @@ class EnergyEOS(object):
         first_derivative = np.polyder(pars,1)
         second_derivative = np.polyder(pars,2)
         V_roots = np.roots(first_derivative)
-        Vs = V_roots * np.conj(V_roots)
-        root_minimum = np.argmin(Vs)
-        V0 = np.real(V_roots[root_minimum])
+        # The minimum closest to the lowest energy: the polynomial could have
+        # maxima, or other minima, far from it
+        minima = V_roots[np.isreal(V_roots) &
+                         (np.real(np.polyval(second_derivative, V_roots)) > 0)]
+        if len(minima) > 0:
+            distance = np.abs(minima - V[np.argmin(E)])
+            V0 = np.real(minima[np.argmin(distance)])
+        else:
+            Vs = V_roots * np.conj(V_roots)
+            root_minimum = np.argmin(Vs)
+            V0 = np.real(V_roots[root_minimum])
         E0 = np.polyval(pars, V0)
         K0 = V0 * np.polyval(second_derivative, V0)
         guess_pars = [E0, K0, 4., V0]
-- 
2.43.0


From 7a8557d06b791b66de385cad19b97b93ed7024fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:52:53 +0000
Subject: [PATCH 82/84] fix: show every curve of the polar figures of
 compressibility and Poisson's ratio

---
 quantas/soec/utils/plotting.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/quantas/soec/utils/plotting.py b/quantas/soec/utils/plotting.py
index c10e6f9..0f8a151 100644
--- a/quantas/soec/utils/plotting.py
+++ b/quantas/soec/utils/plotting.py
@@ -135,17 +135,17 @@ def compressibility_polar_plot(xy, xz, yz):
     fig, ax1, ax2, ax3 = make_polar_figure()
     ax1.plot(np.radians(xy[:, 0]), xy[:, 1], color='#009010', lw=2)
     ax1.plot(np.radians(xy[:, 0]), xy[:, 2], color='red', lw=2)
-    ax1.set_rmax(1.1 * np.max(xy[:, 1]))
+    ax1.set_rmax(1.1 * np.max(xy[:, 1:]))
     add_description(ax1, title + " (xy)")
 
     ax2.plot(np.radians(xz[:, 0]), xz[:, 1], color='#009010', lw=2)
     ax2.plot(np.radians(xz[:, 0]), xz[:, 2], color='red', lw=2)
-    ax2.set_rmax(1.1 * np.max(xz[:, 1]))
+    ax2.set_rmax(1.1 * np.max(xz[:, 1:]))
     add_description(ax2, title + " (xz)")
 
     ax3.plot(np.radians(yz[:, 0]), yz[:, 1], color='#009010', lw=2)
     ax3.plot(np.radians(yz[:, 0]), yz[:, 2], color='red', lw=2)
-    ax3.set_rmax(1.1 * np.max(yz[:, 1]))
+    ax3.set_rmax(1.1 * np.max(yz[:, 1:]))
     add_description(ax3, title + " (yz)")
 
     fig.legend(("Positive", "Negative"), fontsize=12)
@@ -230,19 +230,19 @@ def poisson_polar_plot(xy, xz, yz):
     ax1.plot(np.radians(xy[:, 0]), xy[:, 1], "--", color='blue', lw=2)
     ax1.plot(np.radians(xy[:, 0]), xy[:, 2], color='#009010', lw=2)
     ax1.plot(np.radians(xy[:, 0]), xy[:, 3], color='red', lw=2)
-    ax1.set_rmax(1.1 * np.max(xy[:, 3]))
+    ax1.set_rmax(1.1 * np.max(xy[:, 1:]))
     add_description(ax1, title + " (xy)")
 
     ax2.plot(np.radians(xz[:, 0]), xz[:, 1], "--", color='blue', lw=2)
     ax2.plot(np.radians(xz[:, 0]), xz[:, 2], color='#009010', lw=2)
     ax2.plot(np.radians(xz[:, 0]), xz[:, 3], color='red', lw=2)
-    ax2.set_rmax(1.1 * np.max(xz[:, 3]))
+    ax2.set_rmax(1.1 * np.max(xz[:, 1:]))
     add_description(ax2, title + " (xz)")
 
     ax3.plot(np.radians(yz[:, 0]), yz[:, 1], "--", color='blue', lw=2)
     ax3.plot(np.radians(yz[:, 0]), yz[:, 2], color='#009010', lw=2)
     ax3.plot(np.radians(yz[:, 0]), yz[:, 3], color='red', lw=2)
-    ax3.set_rmax(1.1 * np.max(yz[:, 3]))
+    ax3.set_rmax(1.1 * np.max(yz[:, 1:]))
     add_description(ax3, title + " (yz)")
 
     fig.legend(("Negative", "Minimum", "Maximum"), fontsize=12)
-- 
2.43.0


From 749494180b1c95cd8e1a4413598f7bc8ca3c3290 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:10:54 +0000
Subject: [PATCH 83/84] fix: accept job names made of numbers in elastic inputs

---
 quantas/IO/soec_reader.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/quantas/IO/soec_reader.py b/quantas/IO/soec_reader.py
index ef4d3d5..270b4da 100644
--- a/quantas/IO/soec_reader.py
+++ b/quantas/IO/soec_reader.py
@@ -118,8 +118,14 @@ class SOECInputFileReader(BasicReader):
             np.array(words, dtype=np.float64)
             start = 0
         except ValueError:
-            self._data['job'] = line.rstrip()
             start = 1
+        # The job name could be made of numbers, too
+        forms = ([6]*6, [6,5,4,3,2,1], [1,2,3,4,5,6])
+        lengths = [ len(row.split()) for row in data[:7] ]
+        if lengths[:6] not in forms and lengths[1:] in forms:
+            start = 1
+        if start == 1:
+            self._data['job'] = line.rstrip()
 
         # Collect the SOEC matrix...
         try:
@@ -131,7 +137,7 @@ class SOECInputFileReader(BasicReader):
 
         # ... check its form (complete, upper or lower triangular)...
         form = [ len(row.split()) for row in matstr ]
-        if form not in ([6]*6, [6,5,4,3,2,1], [1,2,3,4,5,6]):
+        if form not in forms:
             self.error = 'The SOEC matrix does not have the expected (6, 6) '
             self.error += 'shape.\nPlease, check the input file and retry.'
             return
-- 
2.43.0


From 8266c80d0315a4135677fd16e1f168b38ff7e7af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:19:34 +0000
Subject: [PATCH 84/84] fix: input generators keep the files they read and
 report output names they cannot use

---
 quantas/IO/qha_writer.py                | 11 +++++++++--
 quantas/harmonic/commands/cmd_inpgen.py |  8 ++++++++
 quantas/soec/commands/cmd_inpgen.py     |  7 +++++++
 3 files changed, 24 insertions(+), 2 deletions(-)

diff --git a/quantas/IO/qha_writer.py b/quantas/IO/qha_writer.py
index d4ddb94..fc00f77 100644
--- a/quantas/IO/qha_writer.py
+++ b/quantas/IO/qha_writer.py
@@ -14,6 +14,7 @@ import numpy as np
 from copy import deepcopy
 
 from click import echo
+from click import prompt
 from quantas.interfaces.crystal import CrystalPhononReader
 from quantas.interfaces.crystal import CrystalQHAReader
 from quantas.interfaces.phonopy import PhonopyReader
@@ -33,6 +34,7 @@ class QHAInputCreator(object):
     
     interface = None
     phondata = []
+    sources = []
     reference = {}
 
     def __init__(self, interface=None):
@@ -57,9 +59,14 @@ class QHAInputCreator(object):
         else:
             file_list = [filename]
             
+        self.sources = [filename] + file_list
+        if self.interface_flag == 'phonopy':
+            self.sources += [
+                os.path.splitext(file)[0] + '_disp.yaml' for file in file_list]
+
         for file in file_list:
 
-            if not os.path.exists(file):
+            if not os.path.isfile(file):
                 error = 'File {} does not exists'.format(file)
                 return False, error
             echo('  - {} ...'.format(file), nl='')
@@ -118,7 +125,7 @@ class QHAInputCreator(object):
         """
         """
         msg = '\nPlease, enter a short description for the input file: '
-        jobname = input(msg)
+        jobname = prompt(msg, default='', show_default=False, prompt_suffix='')
 
         if self.interface_flag == 'crystal-qha':
             self.write_from_single_file(outfile, jobname, ref)
diff --git a/quantas/harmonic/commands/cmd_inpgen.py b/quantas/harmonic/commands/cmd_inpgen.py
index 7547251..6320693 100644
--- a/quantas/harmonic/commands/cmd_inpgen.py
+++ b/quantas/harmonic/commands/cmd_inpgen.py
@@ -15,6 +15,7 @@ import sys
 import click
 import numpy as np
 
+from quantas.cmdline.utils.general import check_output
 from quantas.cmdline.utils.messages import quantas_title
 from quantas.cmdline.utils.messages import quantas_warning
 from quantas.cmdline.utils.messages import quantas_error
@@ -89,6 +90,13 @@ def ha_inpgen(filename, outfile, is_list, ref, interface):
         echo_error(error)
         return
 
+    for file in generator.sources:
+        error = check_output(file, outfile)
+        if not isinstance(error, type(None)):
+            echo_error(quantas_error(), bold=True)
+            echo_error(error)
+            return
+
     echo("Preparing the input file for Quantas: '{}'".format(outfile))
     if interface != 'crystal-qha':
         if not 0 <= ref < len(generator.phondata):
diff --git a/quantas/soec/commands/cmd_inpgen.py b/quantas/soec/commands/cmd_inpgen.py
index d6bac18..a222173 100644
--- a/quantas/soec/commands/cmd_inpgen.py
+++ b/quantas/soec/commands/cmd_inpgen.py
@@ -15,6 +15,7 @@ import sys
 import click
 import numpy as np
 
+from quantas.cmdline.utils.general import check_output
 from quantas.cmdline.utils.messages import quantas_title
 from quantas.cmdline.utils.messages import quantas_warning
 from quantas.cmdline.utils.messages import quantas_error
@@ -84,6 +85,12 @@ def soec_inpgen(filename, outfile, interface):
         echo_error(error)
         return
 
+    error = check_output(filename, outfile)
+    if not isinstance(error, type(None)):
+        echo_error(quantas_error(), bold=True)
+        echo_error(error)
+        return
+
     echo("Preparing the input file for Quantas: '{}'".format(outfile))
     msg = '\nPlease, enter a short description for the input file: '
     jobname = prompt(msg, default='Unknown', show_default=False)
-- 
2.43.0

