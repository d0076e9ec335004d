From 728956d588a8c0e698ef8b00127a86937982ac01 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:10:39 +0000
Subject: [PATCH 01/28] fix: do not register a response whose file cannot be
 loaded

A failed load_response() left an empty Response in the dictionary, so the
next load_response() of that name silently succeeded.
---
 src/kcorrect/response.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/kcorrect/response.py b/src/kcorrect/response.py
index b3998dc..10518c6 100644
--- a/src/kcorrect/response.py
+++ b/src/kcorrect/response.py
@@ -108,8 +108,10 @@ class ResponseDict(dict, metaclass=ResponseDictSingleton):
 """
         if((response in self) & (reload is False)):
             return
-        self[response] = Response()
-        self[response].fromdat(filename='{n}.dat'.format(n=response))
+        # Only register once successfully read
+        new = Response()
+        new.fromdat(filename='{n}.dat'.format(n=response))
+        self[response] = new
         return
 
 
-- 
2.43.0


From 3f5ee2962a6190a9393fad04197239be2a150c45 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:10:39 +0000
Subject: [PATCH 02/28] fix: project a spectrum whose grid straddles the
 bandpass

If no SED wavelength fell inside the bandpass, project() returned 0 even
when the SED covers the bandpass.
---
 src/kcorrect/response.py | 15 +++++++++------
 1 file changed, 9 insertions(+), 6 deletions(-)

diff --git a/src/kcorrect/response.py b/src/kcorrect/response.py
index 10518c6..4e4fd23 100644
--- a/src/kcorrect/response.py
+++ b/src/kcorrect/response.py
@@ -376,12 +376,15 @@ class Response(object):
         keep = (sed_wave >= self.wave[0]) & (sed_wave <= self.wave[-1])
         ikeep = np.where(keep)[0]
         if(len(ikeep) == 0):
-            return(0.)
-
-        if(ikeep[0] > 0):
-            keep[ikeep[0] - 1] = 1
-        if(ikeep[-1] < len(sed_wave) - 1):
-            keep[ikeep[-1] + 1] = 1
+            # No SED wavelengths inside the bandpass; zero unless the SED
+            # grid is coarser than the bandpass and straddles it.
+            if((sed_wave[0] > self.wave[-1]) or (sed_wave[-1] < self.wave[0])):
+                return(0.)
+        else:
+            if(ikeep[0] > 0):
+                keep[ikeep[0] - 1] = 1
+            if(ikeep[-1] < len(sed_wave) - 1):
+                keep[ikeep[-1] + 1] = 1
 
         # Find full grid of wavelengths for integration
         integrate_wave = np.unique(np.append(sed_wave[keep], self.wave))
-- 
2.43.0


From 9e4f65d90193c63bd8323002ca3baeae94f558fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:10:39 +0000
Subject: [PATCH 03/28] fix: fit a single object in a single band

np.squeeze() reduced the one-band maggies to a 0-d array, which raised an
IndexError for one object but not for several.
---
 src/kcorrect/fitter.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/kcorrect/fitter.py b/src/kcorrect/fitter.py
index f18ae1a..56e638b 100644
--- a/src/kcorrect/fitter.py
+++ b/src/kcorrect/fitter.py
@@ -411,13 +411,13 @@ class Fitter(object):
         if(n == 1):
             if(mc == 0):
                 coeffs = self._fit_coeffs(redshift=np.squeeze(redshift),
-                                          maggies=np.squeeze(maggies),
-                                          ivar=np.squeeze(ivar),
+                                          maggies=np.ravel(maggies),
+                                          ivar=np.ravel(ivar),
                                           mc=mc)
             else:
                 coeffs, coeffs_mc, maggies_mc = self._fit_coeffs(redshift=np.squeeze(redshift),
-                                                                 maggies=np.squeeze(maggies),
-                                                                 ivar=np.squeeze(ivar),
+                                                                 maggies=np.ravel(maggies),
+                                                                 ivar=np.ravel(ivar),
                                                                  mc=mc)
             if(array):
                 coeffs = coeffs.reshape(1, len(coeffs))
-- 
2.43.0


From cff758287a31993ee414a7ca2dc6a4a64c78e60f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:10:39 +0000
Subject: [PATCH 04/28] fix: Monte Carlo fit of a one-element redshift array

The Monte Carlo results were reshaped with the length of arrays that already
had the leading axis, raising a ValueError.
---
 src/kcorrect/fitter.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/kcorrect/fitter.py b/src/kcorrect/fitter.py
index 56e638b..34d7661 100644
--- a/src/kcorrect/fitter.py
+++ b/src/kcorrect/fitter.py
@@ -420,10 +420,10 @@ class Fitter(object):
                                                                  ivar=np.ravel(ivar),
                                                                  mc=mc)
             if(array):
-                coeffs = coeffs.reshape(1, len(coeffs))
+                coeffs = coeffs.reshape(1, self.templates.nsed)
                 if(mc > 0):
-                    coeffs_mc = coeffs_mc.reshape(1, len(coeffs), mc)
-                    maggies_mc = maggies_mc.reshape(1, len(maggies), mc)
+                    coeffs_mc = coeffs_mc.reshape(1, self.templates.nsed, mc)
+                    maggies_mc = maggies_mc.reshape(1, len(self.responses), mc)
 
             if(mc > 0):
                 return(coeffs, coeffs_mc, maggies_mc)
-- 
2.43.0


From cf1c82d0a39b4448df13a162e26b3523dead285a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:10:39 +0000
Subject: [PATCH 05/28] fix: Monte Carlo fit of an out-of-range redshift

_fit_coeffs() returned two values instead of three, so one object outside the
redshift range made the whole fit_coeffs(mc=...) call fail.
---
 src/kcorrect/fitter.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/kcorrect/fitter.py b/src/kcorrect/fitter.py
index 34d7661..1cbc74d 100644
--- a/src/kcorrect/fitter.py
+++ b/src/kcorrect/fitter.py
@@ -202,7 +202,9 @@ class Fitter(object):
             else:
                 coeffs_mc = np.zeros((self.templates.nsed, mc),
                                      dtype=np.float32)
-                return(default_zeros, coeffs_mc)
+                maggies_mc = np.zeros((len(maggies), mc), dtype=np.float32)
+                maggies_mc[:, :] = maggies[:, np.newaxis]
+                return(default_zeros, coeffs_mc, maggies_mc)
         b = maggies * inverr
 
         try:
-- 
2.43.0


From a2f39b3a48da97f8fc26913684adde90f0c4103c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:10:39 +0000
Subject: [PATCH 06/28] fix: KcorrectGST.to_ab() must not alter its inputs

The caller's float32 maggies and ivar were corrected in place, so fitting and
then calling absmag() with the same arrays corrected them twice. It also
failed with ivar=None.
---
 src/kcorrect/kcorrect.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/kcorrect/kcorrect.py b/src/kcorrect/kcorrect.py
index 4a03b6d..70ac6a7 100644
--- a/src/kcorrect/kcorrect.py
+++ b/src/kcorrect/kcorrect.py
@@ -1147,11 +1147,13 @@ class KcorrectGST(Kcorrect):
             (smaggies,
              sivar) = kcorrect.utils.sdss_ab_correct(maggies=maggies[..., 2:7],
                                                      ivar=ivar[..., 2:7])
+            maggies = maggies.copy()
+            ivar = ivar.copy()
             maggies[..., 2:7] = smaggies
             ivar[..., 2:7] = sivar
             return(maggies, ivar)
         else:
-            smaggies = kcorrect.utils.sdss_ab_correct(maggies=maggies[..., 2:7],
-                                                      ivar=ivar[..., 2:7])
+            smaggies = kcorrect.utils.sdss_ab_correct(maggies=maggies[..., 2:7])
+            maggies = maggies.copy()
             maggies[..., 2:7] = smaggies
             return(maggies)
-- 
2.43.0


From 2ae0a9050bd0054db73f2f964fec27805b5b6aec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:11:02 +0000
Subject: [PATCH 07/28] fix: derived() with a distance specified

The distance modulus used for the mass-to-light ratios was not defined in that
case (UnboundLocalError).
---
 src/kcorrect/kcorrect.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/kcorrect/kcorrect.py b/src/kcorrect/kcorrect.py
index 70ac6a7..5d64243 100644
--- a/src/kcorrect/kcorrect.py
+++ b/src/kcorrect/kcorrect.py
@@ -255,6 +255,7 @@ class Kcorrect(kcorrect.fitter.Fitter):
             (array, n, distance, d1, d2,
              d3) = self._process_inputs(redshift=distance, coeffs=coeffs)
             dfactor = (distance / 1.e-5)**2  # factor relative to 10 pc
+            dm = 2.5 * np.log10(dfactor)
         else:
             dm = self.cosmo.distmod(redshift).to_value(astropy.units.mag)
             dfactor = 10.**(0.4 * dm)
-- 
2.43.0


From 79da39dc17e6b7b5fb4dee2e78355eba173cee72 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:11:02 +0000
Subject: [PATCH 08/28] fix: derived() for arrays with a different number of
 output responses

mtol has one column per output response, not per input response.
---
 src/kcorrect/kcorrect.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/kcorrect/kcorrect.py b/src/kcorrect/kcorrect.py
index 5d64243..001ff4b 100644
--- a/src/kcorrect/kcorrect.py
+++ b/src/kcorrect/kcorrect.py
@@ -307,7 +307,7 @@ class Kcorrect(kcorrect.fitter.Fitter):
         ok = rmaggies_solar > 0.
         if(array):
             mtol[ok] = (np.outer(mremain,
-                                 np.ones(len(self.responses), dtype=np.float32))[ok] /
+                                 np.ones(len(self.responses_out), dtype=np.float32))[ok] /
                         rmaggies_solar[ok])
         else:
             mtol[ok] = mremain / rmaggies_solar[ok]
-- 
2.43.0


From b82c26d0f54016ec09b2ec5c918bc5d2f527ecd1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:11:02 +0000
Subject: [PATCH 09/28] fix: derived() for responses without a solar magnitude

mtol is documented to be per maggy there; it raised a TypeError.
---
 src/kcorrect/kcorrect.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/kcorrect/kcorrect.py b/src/kcorrect/kcorrect.py
index 001ff4b..ed4eea3 100644
--- a/src/kcorrect/kcorrect.py
+++ b/src/kcorrect/kcorrect.py
@@ -300,7 +300,11 @@ class Kcorrect(kcorrect.fitter.Fitter):
                                               band_shift=band_shift)
 
         for ir, response in enumerate(self.responses_out):
-            solar = 10.**(- 0.4 * (f[response].solar_magnitude + dm))
+            solar_magnitude = f[response].solar_magnitude
+            if(solar_magnitude is None):
+                # per maggy (at 10 pc) rather than per solar luminosity
+                solar_magnitude = 0.
+            solar = 10.**(- 0.4 * (solar_magnitude + dm))
             rmaggies_solar[..., ir] = rmaggies_solar[..., ir] / solar
 
         mtol = np.zeros(rmaggies_solar.shape, dtype=np.float32)
-- 
2.43.0


From 08eddac6111c81d99c5967841bc1e83881643cf2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:11:02 +0000
Subject: [PATCH 10/28] fix: absmag_mc() with a different number of output
 responses

The results have one row per output response, not per input response.
---
 src/kcorrect/kcorrect.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/kcorrect/kcorrect.py b/src/kcorrect/kcorrect.py
index ed4eea3..114838e 100644
--- a/src/kcorrect/kcorrect.py
+++ b/src/kcorrect/kcorrect.py
@@ -673,11 +673,12 @@ class Kcorrect(kcorrect.fitter.Fitter):
         Relies on multiple calls to kcorrect.kcorrect.Kcorrect.absmag() method.
 """
         mc = coeffs_mc.shape[-1]
-        absmag_mc = np.zeros(maggies_mc.shape, dtype=np.float32)
+        shape = maggies_mc.shape[:-2] + (len(self.responses_out), mc)
+        absmag_mc = np.zeros(shape, dtype=np.float32)
         if(reconstruct):
-            absmag_reconstruct_mc = np.zeros(maggies_mc.shape, dtype=np.float32)
+            absmag_reconstruct_mc = np.zeros(shape, dtype=np.float32)
         if(kcorrect):
-            kcorrect_mc = np.zeros(maggies_mc.shape, dtype=np.float32)
+            kcorrect_mc = np.zeros(shape, dtype=np.float32)
         for imc in np.arange(mc, dtype=np.int32):
             out = self.absmag(redshift=redshift, maggies=maggies_mc[..., imc],
                               ivar=ivar, coeffs=coeffs_mc[..., imc], band_shift=band_shift,
-- 
2.43.0


From 828ba22fb0df9ac00329e3cdde4260b656b3ecaa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:11:02 +0000
Subject: [PATCH 11/28] fix: reconstructed absolute magnitudes for other output
 bandpasses

The K-correction from the input to the (shifted) output bandpass was applied to
fluxes reconstructed in the (shifted) output bandpass instead of in the input
bandpass, so absmag_reconstruct was only right for responses_out == responses
and band_shift == 0.
---
 src/kcorrect/kcorrect.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/kcorrect/kcorrect.py b/src/kcorrect/kcorrect.py
index 114838e..3d619d4 100644
--- a/src/kcorrect/kcorrect.py
+++ b/src/kcorrect/kcorrect.py
@@ -584,8 +584,10 @@ class Kcorrect(kcorrect.fitter.Fitter):
         absmag[bd] = - 9999.
 
         if(reconstruct):
-            omaggies = self.reconstruct_out(redshift=redshift, coeffs=coeffs,
-                                            band_shift=band_shift)
+            # maggies of the fit in the observed bandpasses, to which the
+            # K-correction and distance modulus apply
+            omaggies = self.reconstruct(redshift=redshift,
+                                        coeffs=coeffs)[..., self.imap]
             gd = np.where(omaggies > 0.)
             bd = np.where(omaggies <= 0.)
             omags = np.zeros(omaggies.shape, dtype=np.float32)
-- 
2.43.0


From 6169cf167b768b37a85843d6b81e94cb6dedfadf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:11:28 +0000
Subject: [PATCH 12/28] fix: absmag limit for objects with no positive
 coefficients

Documented to be -9999 there; the limit was returned without a K-correction.
---
 src/kcorrect/kcorrect.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/kcorrect/kcorrect.py b/src/kcorrect/kcorrect.py
index 3d619d4..456a873 100644
--- a/src/kcorrect/kcorrect.py
+++ b/src/kcorrect/kcorrect.py
@@ -612,6 +612,8 @@ class Kcorrect(kcorrect.fitter.Fitter):
             else:
                 absmag_limit[gd] = lmags[gd] - dm - k[gd]
             absmag_limit[bd] = - 9999.
+            # no valid K-correction if all coefficients are zero
+            absmag_limit[coeffs.sum(axis=-1) <= 0] = - 9999.
 
         return_list = [absmag]
         if(reconstruct):
-- 
2.43.0


From 225fd7a405c609ca63248b175e676634ff34013d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:11:28 +0000
Subject: [PATCH 13/28] fix: Kcorrect.tofits() with numpy 2, and its redshift
 range

np.compat was removed in numpy 2, and redshift_range was truncated to integers.
---
 src/kcorrect/kcorrect.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/kcorrect/kcorrect.py b/src/kcorrect/kcorrect.py
index 456a873..4e04447 100644
--- a/src/kcorrect/kcorrect.py
+++ b/src/kcorrect/kcorrect.py
@@ -739,7 +739,7 @@ class Kcorrect(kcorrect.fitter.Fitter):
         
         hdul = fits.open(filename, mode='update')
         data_dtype = np.dtype([('nredshift', np.int32),
-                               ('redshift_range', np.int32, 2),
+                               ('redshift_range', np.float32, 2),
                                ('abcorrect', bool)])
         data = np.zeros(1, dtype=data_dtype)
         data['nredshift'] = self.nredshift
@@ -750,19 +750,19 @@ class Kcorrect(kcorrect.fitter.Fitter):
         hdu = fits.ImageHDU(self.redshifts, name='REDSHIFTS')
         hdul.append(hdu)
 
-        responses_dtype = np.dtype([('responses', np.compat.unicode, 200)])
+        responses_dtype = np.dtype([('responses', np.str_, 200)])
         responses = np.zeros(len(self.responses), dtype=responses_dtype)
         responses['responses'] = np.array(self.responses)
         hdu = fits.BinTableHDU(responses, name='RESPONSES')
         hdul.append(hdu)
 
-        responses_dtype = np.dtype([('responses_out', np.compat.unicode, 200)])
+        responses_dtype = np.dtype([('responses_out', np.str_, 200)])
         responses_out = np.zeros(len(self.responses_out), dtype=responses_dtype)
         responses_out['responses_out'] = np.array(self.responses_out)
         hdu = fits.BinTableHDU(responses_out, name='RESPONSES_OUT')
         hdul.append(hdu)
 
-        responses_dtype = np.dtype([('responses_map', np.compat.unicode, 200)])
+        responses_dtype = np.dtype([('responses_map', np.str_, 200)])
         responses_map = np.zeros(len(self.responses_map), dtype=responses_dtype)
         responses_map['responses_map'] = np.array(self.responses_map)
         hdu = fits.BinTableHDU(responses_map, name='RESPONSES_MAP')
-- 
2.43.0


From 94da20d18fca3f9bcc942d3f4e3d40c95a8b37e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:11:28 +0000
Subject: [PATCH 14/28] fix: attributes and output responses of a Kcorrect
 object read from FITS

nredshift, redshift_range and abcorrect were one-element arrays, and the output
responses were not loaded, so derived() raised a KeyError in a new session.
---
 src/kcorrect/kcorrect.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/kcorrect/kcorrect.py b/src/kcorrect/kcorrect.py
index 4e04447..53c7194 100644
--- a/src/kcorrect/kcorrect.py
+++ b/src/kcorrect/kcorrect.py
@@ -798,9 +798,9 @@ class Kcorrect(kcorrect.fitter.Fitter):
         hdul = fits.open(filename)
 
         data = hdul['DATA'].data
-        self.nredshift = data['nredshift']
-        self.redshift_range = data['redshift_range']
-        self.abcorrect = data['abcorrect']
+        self.nredshift = int(data['nredshift'][0])
+        self.redshift_range = np.float32(data['redshift_range'][0])
+        self.abcorrect = bool(data['abcorrect'][0])
 
         self.redshifts = hdul['REDSHIFTS'].data
         self.responses = list(hdul['RESPONSES'].data['responses'])
@@ -808,7 +808,7 @@ class Kcorrect(kcorrect.fitter.Fitter):
         self.responses_out = list(hdul['RESPONSES_OUT'].data['responses_out'])
 
         f = kcorrect.response.ResponseDict()
-        for response in self.responses:
+        for response in self.responses + self.responses_out:
             f.load_response(response)
 
         A = hdul['A'].data
-- 
2.43.0


From 7cf7e142a1fbf4d48a598cb182be40662cdfeec5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:11:28 +0000
Subject: [PATCH 15/28] fix: inverse variance of extinction-corrected SDSS
 maggies

sdss_asinh_to_maggies() extinction-corrected the maggies but not their errors,
so the signal-to-noise ratio depended on the extinction.
---
 src/kcorrect/utils.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/kcorrect/utils.py b/src/kcorrect/utils.py
index 25e984b..e3bb03d 100644
--- a/src/kcorrect/utils.py
+++ b/src/kcorrect/utils.py
@@ -307,6 +307,8 @@ def sdss_asinh_to_maggies(mag=None, mag_err=None, extinction=None):
                                                 - (0.4 * np.log(10.) *
                                                    mag[..., k])) *
                            0.4 * np.log(10.) * mag_err[..., k])
+            # the errors scale with the extinction-corrected maggies
+            maggies_err = maggies_err * 10.**(0.4 * extinction[..., k])
             maggies_ivar[..., k] = 1. / maggies_err**2
 
     if(mag_err is None):
-- 
2.43.0


From 83d06f06c139050891028a1539b239b5ebcbfa71 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:13:54 +0000
Subject: [PATCH 16/28] fix: reject SDSS maggies arrays without five bands

---
 src/kcorrect/utils.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/kcorrect/utils.py b/src/kcorrect/utils.py
index e3bb03d..5792458 100644
--- a/src/kcorrect/utils.py
+++ b/src/kcorrect/utils.py
@@ -165,9 +165,10 @@ def sdss_ab_correct(maggies=None, ivar=None,
         raise("abfix must have 5 values")
     abfac = 10.**(- 0.4 * abfix)
 
+    if(maggies.shape[-1] != 5):
+        raise ValueError("sdss_ab_correct expects 5 SDSS maggies values (ugriz)")
+
     if(maggies.ndim == 1):
-        if(maggies.size != 5):
-            raise("sdss_ab_correct expects 5 SDSS maggies values (ugriz)")
         ab_maggies = maggies * abfac
         if(ivar is not None):
             ab_ivar = ivar / abfac**2
-- 
2.43.0


From d330081a416e1348a6ccee9b2bbb039b8eb8eca5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:13:55 +0000
Subject: [PATCH 17/28] fix: absmag_mc() must not AB-correct the AB maggies of
 fit_coeffs()

---
 src/kcorrect/kcorrect.py | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/src/kcorrect/kcorrect.py b/src/kcorrect/kcorrect.py
index 53c7194..eb8662a 100644
--- a/src/kcorrect/kcorrect.py
+++ b/src/kcorrect/kcorrect.py
@@ -5,6 +5,7 @@
 # @License: BSD 3-clause (http://www.opensource.org/licenses/BSD-3-Clause)
 
 
+import copy
 import os
 
 import astropy.cosmology
@@ -639,7 +640,7 @@ class Kcorrect(kcorrect.fitter.Fitter):
             [ngalaxy] redshift(s) for K-correction
 
         maggies_mc : ndarray of np.float32
-            [ngalaxy, nbands, mc] fluxes of each band in maggies
+            [ngalaxy, nbands, mc] AB fluxes of each band in maggies
 
         ivar : ndarray of np.float32
             [ngalaxy, nbands] inverse variance of each band
@@ -676,6 +677,10 @@ class Kcorrect(kcorrect.fitter.Fitter):
 
         Relies on multiple calls to kcorrect.kcorrect.Kcorrect.absmag() method.
 """
+        # maggies_mc are AB already, as fit_coeffs() returns them
+        ab = copy.copy(self)
+        ab.abcorrect = False
+
         mc = coeffs_mc.shape[-1]
         shape = maggies_mc.shape[:-2] + (len(self.responses_out), mc)
         absmag_mc = np.zeros(shape, dtype=np.float32)
@@ -684,9 +689,9 @@ class Kcorrect(kcorrect.fitter.Fitter):
         if(kcorrect):
             kcorrect_mc = np.zeros(shape, dtype=np.float32)
         for imc in np.arange(mc, dtype=np.int32):
-            out = self.absmag(redshift=redshift, maggies=maggies_mc[..., imc],
-                              ivar=ivar, coeffs=coeffs_mc[..., imc], band_shift=band_shift,
-                              distance=distance, reconstruct=reconstruct, kcorrect=kcorrect)
+            out = ab.absmag(redshift=redshift, maggies=maggies_mc[..., imc],
+                            ivar=ivar, coeffs=coeffs_mc[..., imc], band_shift=band_shift,
+                            distance=distance, reconstruct=reconstruct, kcorrect=kcorrect)
             if((reconstruct is False) & (kcorrect is False)):
                 absmag_mc[..., imc] = out
             else:
-- 
2.43.0


From 6f3c24a4b23a2abe48c100e755cd934615afd25b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:13:55 +0000
Subject: [PATCH 18/28] fix: all_responses() checks the files in the directory
 it lists

---
 src/kcorrect/response.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/kcorrect/response.py b/src/kcorrect/response.py
index 4e4fd23..c2986a6 100644
--- a/src/kcorrect/response.py
+++ b/src/kcorrect/response.py
@@ -55,9 +55,11 @@ def all_responses(response_dir=os.path.join(kcorrect.KCORRECT_DIR, 'data',
     directory are valid!
 
     If check_validity is True, the responses are also loaded into the
-    ResponseDict() singleton.
+    ResponseDict() singleton (under their absolute path names if
+    response_dir is not the default).
 """
     rdir = os.path.join(response_dir)
+    default_rdir = os.path.join(kcorrect.KCORRECT_DIR, 'data', 'responses')
     files = os.listdir(rdir)
     responses = []
     f = ResponseDict()
@@ -69,7 +71,11 @@ def all_responses(response_dir=os.path.join(kcorrect.KCORRECT_DIR, 'data',
                 valid = True
                 if(check_validity):
                     try:
-                        f.load_response(response)
+                        if(os.path.samefile(rdir, default_rdir)):
+                            f.load_response(response)
+                        else:
+                            f.load_response(os.path.join(os.path.abspath(rdir),
+                                                         response))
                     except:
                         valid = False
                 if(valid):
-- 
2.43.0


From 96f48f3732c9efdbf4fdb08a237a7243571cc957 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:16:20 +0000
Subject: [PATCH 19/28] fix: band mapping after reading a Kcorrect object from
 FITS

---
 src/kcorrect/kcorrect.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/kcorrect/kcorrect.py b/src/kcorrect/kcorrect.py
index eb8662a..fe0c55d 100644
--- a/src/kcorrect/kcorrect.py
+++ b/src/kcorrect/kcorrect.py
@@ -811,6 +811,8 @@ class Kcorrect(kcorrect.fitter.Fitter):
         self.responses = list(hdul['RESPONSES'].data['responses'])
         self.responses_map = list(hdul['RESPONSES_MAP'].data['responses_map'])
         self.responses_out = list(hdul['RESPONSES_OUT'].data['responses_out'])
+        self.imap = np.array([self.responses.index(response)
+                              for response in self.responses_map], dtype=int)
 
         f = kcorrect.response.ResponseDict()
         for response in self.responses + self.responses_out:
-- 
2.43.0


From 754e00b49b19f389873a65de9f20c96573759ddc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:24:04 +0000
Subject: [PATCH 20/28] fix: derived() loads output responses not yet in the
 registry

---
 src/kcorrect/kcorrect.py | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/src/kcorrect/kcorrect.py b/src/kcorrect/kcorrect.py
index fe0c55d..17b4d26 100644
--- a/src/kcorrect/kcorrect.py
+++ b/src/kcorrect/kcorrect.py
@@ -301,6 +301,7 @@ class Kcorrect(kcorrect.fitter.Fitter):
                                               band_shift=band_shift)
 
         for ir, response in enumerate(self.responses_out):
+            f.load_response(response)
             solar_magnitude = f[response].solar_magnitude
             if(solar_magnitude is None):
                 # per maggy (at 10 pc) rather than per solar luminosity
@@ -814,10 +815,6 @@ class Kcorrect(kcorrect.fitter.Fitter):
         self.imap = np.array([self.responses.index(response)
                               for response in self.responses_map], dtype=int)
 
-        f = kcorrect.response.ResponseDict()
-        for response in self.responses + self.responses_out:
-            f.load_response(response)
-
         A = hdul['A'].data
         Aout = hdul['Aout'].data
         self.Amatrix = self._interpolate_Amatrix(redshifts=self.redshifts, A=A)
-- 
2.43.0


From f7d5a620aace76c358d3066b1f0e74c28506ea08 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:06:12 +0000
Subject: [PATCH 21/28] fix: trapezoid integrals of projection and effective
 wavelength

scipy's trapezoid takes (y, x); the arguments were exchanged, which is
only equivalent for integrands that vanish at both ends of the band.
---
 src/kcorrect/response.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/kcorrect/response.py b/src/kcorrect/response.py
index c2986a6..e7ada8c 100644
--- a/src/kcorrect/response.py
+++ b/src/kcorrect/response.py
@@ -403,17 +403,17 @@ class Response(object):
         numer = np.zeros(nsed, dtype=np.float32)
         if(nsed == 1):
             integrand_numer = integrate_sed * integrate_response * integrate_wave
-            numer = integrate.trapezoid(integrate_wave, np.squeeze(integrand_numer))
+            numer = integrate.trapezoid(np.squeeze(integrand_numer), integrate_wave)
         else:
             for ised in np.arange(nsed, dtype=int):
                 integrand_numer = integrate_sed[ised, :] * integrate_response * integrate_wave
-                numer[ised] = integrate.trapezoid(integrate_wave,
-                                                  np.squeeze(integrand_numer))
+                numer[ised] = integrate.trapezoid(np.squeeze(integrand_numer),
+                                                  integrate_wave)
 
         # Perform integration for denominator
         integrand_denom = (kcorrect.utils.sed_ab(integrate_wave) *
                            integrate_response * integrate_wave)
-        denom = integrate.trapezoid(integrate_wave, integrand_denom)
+        denom = integrate.trapezoid(integrand_denom, integrate_wave)
 
         # AB maggies are projection of SED onto response divided by same
         # projection for the AB source.
@@ -435,11 +435,11 @@ class Response(object):
 
         # Perform integration for numerator
         integrand_numer = np.log(wave) * response / wave
-        numer = integrate.trapezoid(wave, integrand_numer)
+        numer = integrate.trapezoid(integrand_numer, wave)
 
         # Perform integration for denominator
         integrand_denom = response / wave
-        denom = integrate.trapezoid(wave, integrand_denom)
+        denom = integrate.trapezoid(integrand_denom, wave)
 
         # Set effective wavelength
         self.lambda_eff = np.exp(numer / denom)
-- 
2.43.0


From 018d9b3c2f8506b6415da959f23ca414e2880176 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:11 +0000
Subject: [PATCH 22/28] fix: absolute magnitudes and derived quantities of
 empty arrays

---
 src/kcorrect/kcorrect.py | 24 ++++++++++++++++++++++--
 1 file changed, 22 insertions(+), 2 deletions(-)

diff --git a/src/kcorrect/kcorrect.py b/src/kcorrect/kcorrect.py
index 17b4d26..f55b098 100644
--- a/src/kcorrect/kcorrect.py
+++ b/src/kcorrect/kcorrect.py
@@ -185,6 +185,26 @@ class Kcorrect(kcorrect.fitter.Fitter):
 
         return
 
+    def _distmod(self, redshift=None):
+        """Distance modulus of the cosmology at each redshift
+
+        Parameters
+        ----------
+
+        redshift : np.float32 or ndarray of np.float32
+            redshift
+
+        Returns
+        -------
+
+        dm : ndarray or float
+            distance modulus in magnitudes (empty if there are no redshifts)
+"""
+        if(np.size(redshift) == 0):
+            # astropy does not accept empty arrays
+            return(np.zeros(0, dtype=np.float32))
+        return(self.cosmo.distmod(redshift).to_value(astropy.units.mag))
+
     def derived(self, redshift=None, coeffs=None, band_shift=0., distance=None):
         """Return derived quantities based on coefficients
 
@@ -258,7 +278,7 @@ class Kcorrect(kcorrect.fitter.Fitter):
             dfactor = (distance / 1.e-5)**2  # factor relative to 10 pc
             dm = 2.5 * np.log10(dfactor)
         else:
-            dm = self.cosmo.distmod(redshift).to_value(astropy.units.mag)
+            dm = self._distmod(redshift=redshift)
             dfactor = 10.**(0.4 * dm)
 
         intsfh = coeffs.dot(self.templates.intsfh) * dfactor
@@ -560,7 +580,7 @@ class Kcorrect(kcorrect.fitter.Fitter):
             dfactor = (distance / 1.e-5)**2  # factor relative to 10 pc
             dm = 2.5 * np.log10(dfactor)
         else:
-            dm = self.cosmo.distmod(redshift).to_value(astropy.units.mag)
+            dm = self._distmod(redshift=redshift)
 
         k = self.kcorrect(redshift=redshift, coeffs=coeffs,
                           band_shift=band_shift)
-- 
2.43.0


From 6fb7e5dbf3cdf7b2c117161bbbb5897e648557da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:28 +0000
Subject: [PATCH 23/28] fix: response names longer than 200 characters in a
 saved Kcorrect object

---
 src/kcorrect/kcorrect.py | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/src/kcorrect/kcorrect.py b/src/kcorrect/kcorrect.py
index f55b098..821f65c 100644
--- a/src/kcorrect/kcorrect.py
+++ b/src/kcorrect/kcorrect.py
@@ -776,19 +776,24 @@ class Kcorrect(kcorrect.fitter.Fitter):
         hdu = fits.ImageHDU(self.redshifts, name='REDSHIFTS')
         hdul.append(hdu)
 
-        responses_dtype = np.dtype([('responses', np.str_, 200)])
+        width = max([200] + [len(response) for response in
+                             list(self.responses) +
+                             list(self.responses_out) +
+                             list(self.responses_map)])
+
+        responses_dtype = np.dtype([('responses', np.str_, width)])
         responses = np.zeros(len(self.responses), dtype=responses_dtype)
         responses['responses'] = np.array(self.responses)
         hdu = fits.BinTableHDU(responses, name='RESPONSES')
         hdul.append(hdu)
 
-        responses_dtype = np.dtype([('responses_out', np.str_, 200)])
+        responses_dtype = np.dtype([('responses_out', np.str_, width)])
         responses_out = np.zeros(len(self.responses_out), dtype=responses_dtype)
         responses_out['responses_out'] = np.array(self.responses_out)
         hdu = fits.BinTableHDU(responses_out, name='RESPONSES_OUT')
         hdul.append(hdu)
 
-        responses_dtype = np.dtype([('responses_map', np.str_, 200)])
+        responses_dtype = np.dtype([('responses_map', np.str_, width)])
         responses_map = np.zeros(len(self.responses_map), dtype=responses_dtype)
         responses_map['responses_map'] = np.array(self.responses_map)
         hdu = fits.BinTableHDU(responses_map, name='RESPONSES_MAP')
-- 
2.43.0


From 6fd99377224cf57eb73689f809a7ee2662b35076 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:05:00 +0000
Subject: [PATCH 24/28] fix: the redshift grid ends at the maximum redshift

---
 src/kcorrect/fitter.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/kcorrect/fitter.py b/src/kcorrect/fitter.py
index 1cbc74d..d8de945 100644
--- a/src/kcorrect/fitter.py
+++ b/src/kcorrect/fitter.py
@@ -71,6 +71,8 @@ class Fitter(object):
                           (self.redshift_range[1] - self.redshift_range[0]) *
                           np.arange(nredshift, dtype=np.float32) /
                           np.float32(nredshift - 1))
+        # rounding may otherwise leave the maximum redshift off the grid
+        self.redshifts[-1] = self.redshift_range[1]
         return
 
     def _interpolate_Amatrix(self, redshifts=None, A=None):
-- 
2.43.0


From a1e53d7bcc33229e34faa145f763c9f8f9ca672f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:47 +0000
Subject: [PATCH 25/28] fix: extension name of a saved response

---
 src/kcorrect/response.py | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/src/kcorrect/response.py b/src/kcorrect/response.py
index e7ada8c..e804793 100644
--- a/src/kcorrect/response.py
+++ b/src/kcorrect/response.py
@@ -10,7 +10,6 @@ import re
 
 import astropy.io.ascii
 import astropy.io.fits
-import astropy.table
 import numpy as np
 import scipy.integrate as integrate
 import scipy.interpolate as interpolate
@@ -314,9 +313,8 @@ class Response(object):
         out['wave'] = self.wave
         out['response'] = self.response
 
-        out_table = astropy.table.Table(out)
-
-        out_table.write(filename, overwrite=clobber)
+        hdu = astropy.io.fits.BinTableHDU(out, name=ext)
+        hdu.writeto(filename, overwrite=clobber)
         return
 
     def project(self, sed=None, wave=None, flux=None):
-- 
2.43.0


From e6f69d8cc386832f7de5179eb29bc1b49121b42f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:26:26 +0000
Subject: [PATCH 26/28] fix: error_floor with integer inverse variances

---
 src/kcorrect/utils.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/kcorrect/utils.py b/src/kcorrect/utils.py
index 5792458..57065bb 100644
--- a/src/kcorrect/utils.py
+++ b/src/kcorrect/utils.py
@@ -211,6 +211,8 @@ def error_floor(floor=None, maggies=None, ivar=None):
     floor = np.array(floor)
     maggies = np.array(maggies)
     ivar = np.array(ivar)
+    if(not np.issubdtype(ivar.dtype, np.floating)):
+        ivar = np.float64(ivar)
 
     if(maggies.ndim == 1):
         array = False
-- 
2.43.0


From 2353cba70bf3ce1ad87de9f98be10ebcb6d91cae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:26:26 +0000
Subject: [PATCH 27/28] fix: flux inverse variances beyond single precision

---
 src/kcorrect/utils.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/kcorrect/utils.py b/src/kcorrect/utils.py
index 57065bb..0f6d5b8 100644
--- a/src/kcorrect/utils.py
+++ b/src/kcorrect/utils.py
@@ -370,13 +370,13 @@ def maggies2flambda(maggies=None, ivar=None, responses=None):
     if(maggies.ndim == 1):
         flambda = m2f * maggies
         if(ivar is not None):
-            fivar = ivar / m2f**2
+            fivar = ivar / np.float64(m2f)**2
     else:
         flambda = np.outer(np.ones(maggies.shape[0], dtype=np.float32),
                            m2f) * maggies
         if(ivar is not None):
             fivar = np.outer(np.ones(maggies.shape[0], dtype=np.float32),
-                             1. / m2f**2) * ivar
+                             1. / np.float64(m2f)**2) * ivar
 
     if(ivar is not None):
         return(wave, flambda, fivar)
-- 
2.43.0


From 94c012be77c7265690ecb45acdf68c0254428e1f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:26:26 +0000
Subject: [PATCH 28/28] fix: projection of coarse spectra on decreasing
 wavelength grids

---
 src/kcorrect/response.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/kcorrect/response.py b/src/kcorrect/response.py
index e804793..20291ba 100644
--- a/src/kcorrect/response.py
+++ b/src/kcorrect/response.py
@@ -382,7 +382,7 @@ class Response(object):
         if(len(ikeep) == 0):
             # No SED wavelengths inside the bandpass; zero unless the SED
             # grid is coarser than the bandpass and straddles it.
-            if((sed_wave[0] > self.wave[-1]) or (sed_wave[-1] < self.wave[0])):
+            if((sed_wave.min() > self.wave[-1]) or (sed_wave.max() < self.wave[0])):
                 return(0.)
         else:
             if(ikeep[0] > 0):
-- 
2.43.0

