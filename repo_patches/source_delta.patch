From 23b822f3e815d974b0f05334a20bd9ea698672d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:32:44 +0000
Subject: [PATCH 01/46] fix: use builtin int/float and np.nan instead of
 aliases removed from NumPy

np.int, np.float and np.NaN no longer exist, so preparing a 2D spectrum,
evaluating a model with adaptive upsampling, running the 2D MCMC fit and
making its plots all failed with AttributeError.
---
 misfit/fit/fit_core.py         |  6 ++---
 misfit/fit/fit_io.py           |  2 +-
 misfit/general/galaxy_utils.py | 46 +++++++++++++++++-----------------
 misfit/model/aper_model.py     |  2 +-
 misfit/model/kin_functions.py  |  2 +-
 misfit/plot/plot_bestfit.py    |  2 +-
 misfit/plot/plot_image_slit.py |  8 +++---
 misfit/plot/plot_trace.py      |  4 +--
 8 files changed, 36 insertions(+), 36 deletions(-)

diff --git a/misfit/fit/fit_core.py b/misfit/fit/fit_core.py
index 1d3016f..fbc399f 100644
--- a/misfit/fit/fit_core.py
+++ b/misfit/fit/fit_core.py
@@ -195,7 +195,7 @@ def run_mcmc(fitEmis2D, fitEmis2D_fit=None):
         and then delete attributes
     """
     print("fitting with emcee version: {}".format(emcee.__version__))
-    if np.int(emcee.__version__[0]) >= 3:
+    if int(emcee.__version__[0]) >= 3:
         fitEmis2D = _run_mcmc_emcee_3(fitEmis2D, fitEmis2D_fit=fitEmis2D_fit)
     else:
         fitEmis2D = _run_mcmc_emcee_221(fitEmis2D, fitEmis2D_fit=fitEmis2D_fit)
@@ -216,7 +216,7 @@ def _run_mcmc_emcee_221(fitEmis2D, fitEmis2D_fit=None):
     # --------------------------------
     # Setup for threading for emcee, if desired
     if fitEmis2D.mcmcOptions.nCPUs is None:
-        fitEmis2D.mcmcOptions.nCPUs = np.int(np.floor(psutil.cpu_count()*fitEmis2D.mcmcOptions.cpuFrac))
+        fitEmis2D.mcmcOptions.nCPUs = int(np.floor(psutil.cpu_count()*fitEmis2D.mcmcOptions.cpuFrac))
     if fitEmis2D.mcmcOptions.NoThread:
         fitEmis2D.mcmcOptions.nCPUs = 1
 
@@ -515,7 +515,7 @@ def _run_mcmc_emcee_3(fitEmis2D, fitEmis2D_fit=None):
     # --------------------------------
     # Setup for threading for emcee, if desired
     if fitEmis2D.mcmcOptions.nCPUs is None:
-        fitEmis2D.mcmcOptions.nCPUs = np.int(np.floor(psutil.cpu_count()*fitEmis2D.mcmcOptions.cpuFrac))
+        fitEmis2D.mcmcOptions.nCPUs = int(np.floor(psutil.cpu_count()*fitEmis2D.mcmcOptions.cpuFrac))
     if fitEmis2D.mcmcOptions.NoThread:
         fitEmis2D.mcmcOptions.nCPUs = 1
 
diff --git a/misfit/fit/fit_io.py b/misfit/fit/fit_io.py
index c73ba99..f95a45e 100644
--- a/misfit/fit/fit_io.py
+++ b/misfit/fit/fit_io.py
@@ -50,7 +50,7 @@ def make_emcee_sampler_dict(sampler,fitEmis2D=None, nBurn=0):
         try:
             acor_time = sampler.get_autocorr_time(self, low=5, c=10)
         except:
-            acor_time = np.NaN
+            acor_time = np.nan
 
     try:
         nDim = sampler.ndim
diff --git a/misfit/general/galaxy_utils.py b/misfit/general/galaxy_utils.py
index 0c95bcd..1669209 100644
--- a/misfit/general/galaxy_utils.py
+++ b/misfit/general/galaxy_utils.py
@@ -891,7 +891,7 @@ def vert_position(flux=None, err=None, obswave=None, obswave_val=None,
                             args=(xx, sp_arr, err_arr))
 
 
-        m0 = np.int(np.round(result.params['mu'].value))
+        m0 = int(np.round(result.params['mu'].value))
         if (m0 > (len(snr_arr) -1)):
             m0_closest = len(snr_arr) -1
         elif (m0 < 0):
@@ -902,8 +902,8 @@ def vert_position(flux=None, err=None, obswave=None, obswave_val=None,
         m0_shift_fit = result.params['mu'].value - m0
         m0_peak_snr = snr_arr[m0_closest]
         if dither:
-            m1 = np.int(np.round(result.params['mu_l'].value))
-            m2 = np.int(np.round(result.params['mu_r'].value))
+            m1 = int(np.round(result.params['mu_l'].value))
+            m2 = int(np.round(result.params['mu_r'].value))
 
         if debug:
             print(ypos)
@@ -931,9 +931,9 @@ def vert_position(flux=None, err=None, obswave=None, obswave_val=None,
             sp_ind_neg2 = m2
 
             diff = (abs(sp_ind0-sp_ind_neg1) + abs(sp_ind0-sp_ind_neg2))/2.
-            cut = np.int(np.ceil(diff/2.))
+            cut = int(np.ceil(diff/2.))
         else:
-            cut = np.int(np.ceil(1.5/spatial_pixscale/2.))
+            cut = int(np.ceil(1.5/spatial_pixscale/2.))
 
         m_min = m0 - cut
         m_max = m0 + cut
@@ -950,7 +950,7 @@ def vert_position(flux=None, err=None, obswave=None, obswave_val=None,
                 print("m0, ypos=", m0, ypos)
 
                 # Just default to the old position!
-                m0 = np.int(np.round(ypos))
+                m0 = int(np.round(ypos))
 
                 params = lmfit.Parameters()
 
@@ -974,7 +974,7 @@ def vert_position(flux=None, err=None, obswave=None, obswave_val=None,
                     result = lmfit.minimize(utils.gaus_residual, params,
                                 args=(xx, sp_arr, err_arr))
 
-                m0 = np.int(np.round(result.params['mu'].value))
+                m0 = int(np.round(result.params['mu'].value))
                 if (m0 > (len(snr_arr) -1)):
                     m0_closest = len(snr_arr) -1
                 elif (m0 < 0):
@@ -984,8 +984,8 @@ def vert_position(flux=None, err=None, obswave=None, obswave_val=None,
                 m0_shift_fit = result.params['mu'].value - m0
                 m0_peak_snr = snr_arr[m0_closest]
                 if dither:
-                    m1 = np.int(np.round(result.params['mu_l'].value))
-                    m2 = np.int(np.round(result.params['mu_r'].value))
+                    m1 = int(np.round(result.params['mu_l'].value))
+                    m2 = int(np.round(result.params['mu_r'].value))
 
                 if debug:
                     print(ypos)
@@ -1010,9 +1010,9 @@ def vert_position(flux=None, err=None, obswave=None, obswave_val=None,
                     sp_ind_neg2 = m2
 
                     diff = (abs(sp_ind0-sp_ind_neg1) + abs(sp_ind0-sp_ind_neg2))/2.
-                    cut = np.int(np.ceil(diff/2.))
+                    cut = int(np.ceil(diff/2.))
                 else:
-                    cut = np.int(np.ceil(1.5/spatial_pixscale/2.))
+                    cut = int(np.ceil(1.5/spatial_pixscale/2.))
 
 
                 m_min = m0 - cut
@@ -1071,7 +1071,7 @@ def vert_position(flux=None, err=None, obswave=None, obswave_val=None,
                     result = lmfit.minimize(utils.gaus_residual, params,
                                     args=(xx, sp_arr, err_arr))
 
-                m0 = np.int(np.round(result.params['mu'].value)) + trimval
+                m0 = int(np.round(result.params['mu'].value)) + trimval
                 if (m0 > (len(snr_arr) -1)):
                     m0_closest = len(snr_arr) -1
                 elif (m0 < 0):
@@ -1081,8 +1081,8 @@ def vert_position(flux=None, err=None, obswave=None, obswave_val=None,
                 m0_shift_fit = result.params['mu'].value + trimval - m0
                 m0_peak_snr = snr_arr[m0_closest-trimval]
                 if dither:
-                    m1 = np.int(np.round(result.params['mu_l'].value)) + trimval
-                    m2 = np.int(np.round(result.params['mu_r'].value)) + trimval
+                    m1 = int(np.round(result.params['mu_l'].value)) + trimval
+                    m2 = int(np.round(result.params['mu_r'].value)) + trimval
 
                 if debug:
                     print(ypos)
@@ -1105,9 +1105,9 @@ def vert_position(flux=None, err=None, obswave=None, obswave_val=None,
                     sp_ind_neg2 = m2
 
                     diff = (abs(sp_ind0-sp_ind_neg1) + abs(sp_ind0-sp_ind_neg2))/2.
-                    cut = np.int(np.ceil(diff/2.))
+                    cut = int(np.ceil(diff/2.))
                 else:
-                    cut = np.int(np.ceil(1.5/spatial_pixscale/2.))
+                    cut = int(np.ceil(1.5/spatial_pixscale/2.))
 
                 m_min = m0 - cut
                 m_max = m0 + cut
@@ -1147,12 +1147,12 @@ def vert_position(flux=None, err=None, obswave=None, obswave_val=None,
                 result = lmfit.minimize(utils.gaus_residual, params,
                             args=(xx, sp_arr, err_arr))
 
-            m0 = np.int(np.round(result.params['mu'].value)) + trimval
+            m0 = int(np.round(result.params['mu'].value)) + trimval
             m0_shift_fit = result.params['mu'].value + trimval - m0
             m0_peak_snr = snr_arr[m0-trimval]
             if dither:
-                m1 = np.int(np.round(result.params['mu_l'].value)) + trimval
-                m2 = np.int(np.round(result.params['mu_r'].value)) + trimval
+                m1 = int(np.round(result.params['mu_l'].value)) + trimval
+                m2 = int(np.round(result.params['mu_r'].value)) + trimval
 
             if debug:
                 print(ypos            )
@@ -1175,9 +1175,9 @@ def vert_position(flux=None, err=None, obswave=None, obswave_val=None,
                 sp_ind_neg2 = m2
 
                 diff = (abs(sp_ind0-sp_ind_neg1) + abs(sp_ind0-sp_ind_neg2))/2.
-                cut = np.int(np.ceil(diff/2.))
+                cut = int(np.ceil(diff/2.))
             else:
-                cut = np.int(np.ceil(1.5/spatial_pixscale/2.))
+                cut = int(np.ceil(1.5/spatial_pixscale/2.))
 
             m_min = m0 - cut
             m_max = m0 + cut
@@ -1195,7 +1195,7 @@ def vert_position(flux=None, err=None, obswave=None, obswave_val=None,
         result = lmfit.minimize(utils.gaus_residual, params,
                         args=(xx, sp_arr, err_arr))
 
-        m0 = np.int(np.round(result.params['mu'].value))
+        m0 = int(np.round(result.params['mu'].value))
         m0_shift_fit = result.params['mu'].value - m0
         m0_peak_snr = snr_arr[m0]
 
@@ -1225,7 +1225,7 @@ def vert_position(flux=None, err=None, obswave=None, obswave_val=None,
         if ypos is not None:
             if ((np.abs(ypos-m0) > 2.) & (not skip_check)):
                 # Just default to the old position!
-                m0 = np.int(np.round(ypos))
+                m0 = int(np.round(ypos))
                 m0_shift_fit = ypos - m0
                 m0_peak_snr = snr_arr[m0]
 
diff --git a/misfit/model/aper_model.py b/misfit/model/aper_model.py
index e36093b..09574f2 100644
--- a/misfit/model/aper_model.py
+++ b/misfit/model/aper_model.py
@@ -750,7 +750,7 @@ class AperModel2D(object):
     def check_do_upsample_wave(self):
         if (np.abs(self.kinProfile.dispProfile.theta) < self.sigma_upsample_value) :
             # Create new array that has finer sampling:
-            self.delt_wave = self.delt_wave_real / np.float(self.adaptive_upsample_factor)
+            self.delt_wave = self.delt_wave_real / float(self.adaptive_upsample_factor)
 
             nwmin = self.wave_arr.min() - 0.5*(self.delt_wave_real - self.delt_wave)
             nwmax = self.wave_arr.max() + 0.5*(self.delt_wave_real - self.delt_wave)
diff --git a/misfit/model/kin_functions.py b/misfit/model/kin_functions.py
index 5dbb9d1..9c2cd50 100644
--- a/misfit/model/kin_functions.py
+++ b/misfit/model/kin_functions.py
@@ -290,7 +290,7 @@ def check_slit_illum(xarr, wh_in_slit_x, A_tmp, mu_y, FWHM_arcsec, tot_slit_widt
     if modified_bounds:
         # Determine the new mu:
         model = A_tmp*gaus_from_fwhm(xarr, FWHM_arcsec, mu_y)
-        model_mask = np.zeros(len(xarr))*np.NaN
+        model_mask = np.zeros(len(xarr))*np.nan
         model_mask[wh_in_slit_x] = 1.
         model_orig = model.copy()
         model *= model_mask
diff --git a/misfit/plot/plot_bestfit.py b/misfit/plot/plot_bestfit.py
index c264bfd..e5ded5f 100644
--- a/misfit/plot/plot_bestfit.py
+++ b/misfit/plot/plot_bestfit.py
@@ -56,7 +56,7 @@ def plot_bestfit_model(fitEmis2D, fileout=None, noTitles=False,
     
     """
     sh_spec_trim = np.shape(fitEmis2D.galaxy.spec2D.flux)
-    sp_rat = sh_spec_trim[1]/np.float(sh_spec_trim[0])  # width/height
+    sp_rat = sh_spec_trim[1]/float(sh_spec_trim[0])  # width/height
 
 
     fig = plt.figure()
diff --git a/misfit/plot/plot_image_slit.py b/misfit/plot/plot_image_slit.py
index d1c7803..0fd1f63 100644
--- a/misfit/plot/plot_image_slit.py
+++ b/misfit/plot/plot_image_slit.py
@@ -163,7 +163,7 @@ def plot_image_slit(galaxy=None, instrument=None,
         yarc_orig = yarr_orig*instrument_img.pixscale
 
         # Output pix/arc array:
-        n_round = np.int(np.floor(np.shape(pstamp_trim)[0]*instrument_img.pixscale/instrument.pixscale))
+        n_round = int(np.floor(np.shape(pstamp_trim)[0]*instrument_img.pixscale/instrument.pixscale))
 
         ### New:
         yarr_new = np.linspace(0, n_round, num=n_round, endpoint=False)
@@ -250,8 +250,8 @@ def plot_image_slit(galaxy=None, instrument=None,
 
     #######################################
     # Scale based on noise levels:
-    xlim_round = np.array([np.int(np.round(xlim[0])), np.int(np.round(xlim[1]))])
-    ylim_round = np.array([np.int(np.round(ylim[0])), np.int(np.round(ylim[1]))])
+    xlim_round = np.array([int(np.round(xlim[0])), int(np.round(xlim[1]))])
+    ylim_round = np.array([int(np.round(ylim[0])), int(np.round(ylim[1]))])
 
     tmp_trim = pstamp_trim[ylim_round[0]:ylim_round[1],xlim_round[0]:xlim_round[1]].copy()
     tmp_trim = tmp_trim.flatten()
@@ -259,7 +259,7 @@ def plot_image_slit(galaxy=None, instrument=None,
     range_spec = np.abs(range_spec)
     range_spec.sort()
     # Only consider the lowest 50\% *abs* points:
-    range_spec = range_spec[0:np.int(np.ceil(len(range_spec)/2.))]
+    range_spec = range_spec[0:int(np.ceil(len(range_spec)/2.))]
     median_err = np.median(range_spec)
 
     ext = 3.
diff --git a/misfit/plot/plot_trace.py b/misfit/plot/plot_trace.py
index 1fe2433..6838f2c 100644
--- a/misfit/plot/plot_trace.py
+++ b/misfit/plot/plot_trace.py
@@ -45,7 +45,7 @@ def plot_trace(sampler_dict, fitEmis2D, fileout=None, usetex=True):
 
     nWalkers = sampler_dict['nWalkers']
 
-    alpha = max(0.01, 1./np.float(nWalkers))
+    alpha = max(0.01, 1./float(nWalkers))
 
 
     # Define random color inds for tracking some walkers:
@@ -56,7 +56,7 @@ def plot_trace(sampler_dict, fitEmis2D, fileout=None, usetex=True):
     trace_inds = np.random.randint(0,nWalkers, size=nTraceWalkers)
     trace_colors = []
     for i in range(nTraceWalkers):
-        trace_colors.append(cmap(1./np.float(nTraceWalkers)*i))
+        trace_colors.append(cmap(1./float(nTraceWalkers)*i))
 
     norm_inds = np.setdiff1d(range(nWalkers), trace_inds)
 
-- 
2.43.0


From cd73d8c5325622775337d8056b54dce7a3bf7413 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:33:45 +0000
Subject: [PATCH 02/46] fix: take the scalar from fmin in the marginal KDE peak
 search

Assigning the one-element array returned by fmin to an array element is an
error in current NumPy, so analysing any finished 2D chain failed.
---
 misfit/general/general_utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/misfit/general/general_utils.py b/misfit/general/general_utils.py
index 5fcf554..c3e0089 100644
--- a/misfit/general/general_utils.py
+++ b/misfit/general/general_utils.py
@@ -210,7 +210,7 @@ def find_peak_gaussian_KDE(flatchain, initval):
         peakvals = np.zeros(nparams)
         for i in range(nparams):
             kern = gaussian_kde(flatchain[:,i])
-            peakvals[i] = fmin(lambda x: -kern(x), initval[i], disp=False)
+            peakvals[i] = fmin(lambda x: -kern(x), initval[i], disp=False)[0]
         return peakvals
     else:
         neg_kernel = gaussian_KDE_kernel_func(flatchain)
-- 
2.43.0


From 034a15e44e0d7617391517bb48c0c8108195e4c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:34:46 +0000
Subject: [PATCH 03/46] fix: do not ask corner for titles with four quantiles

corner rejects show_titles together with more than three quantiles, so the
corner plot of every 2D fit failed; the titles are all set explicitly
afterwards.
---
 misfit/plot/plot_mcmc.py | 1 -
 1 file changed, 1 deletion(-)

diff --git a/misfit/plot/plot_mcmc.py b/misfit/plot/plot_mcmc.py
index 7e189e2..1438530 100644
--- a/misfit/plot/plot_mcmc.py
+++ b/misfit/plot/plot_mcmc.py
@@ -47,7 +47,6 @@ def plot_param_corner(fitEmis2D, fileout=None,verbose=False,showLinked=True,
                             quantiles= [.02275, 0.15865, 0.84135, .97725],
                             truths=truths,
                             plot_datapoints=False,
-                            show_titles=True,
                             bins=40,
                             plot_contours=True,
                             verbose=verbose)
-- 
2.43.0


From 3a700d315a690288390119c24666e4090ce6f217 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:37:30 +0000
Subject: [PATCH 04/46] fix: keep each model's PSF stamp out of the shared
 instrument

The convolution stamp of a model's grid was stored on the instrument passed
in by the caller, so building a second model with the same instrument but
another grid replaced it: later evaluations of the first model used the
wrong stamp or failed outright.
---
 misfit/model/aper_model.py | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/misfit/model/aper_model.py b/misfit/model/aper_model.py
index 09574f2..80dc66f 100644
--- a/misfit/model/aper_model.py
+++ b/misfit/model/aper_model.py
@@ -162,6 +162,9 @@ class AperModel1DDisp(AperModel1DDispBase):
         self.setup_model_grid(re_arcsec = self.galaxy.re_arcsec_circ, q=1., delt_PA=0.)
 
         # Set PSF convolution:
+        # Use a private copy: the stamp belongs to this model's grid, while the
+        #   instrument may be shared with other models.
+        self.instrument = self.instrument.copy()
         cent = [np.mean(self.x_arr), np.mean(self.y_arr)]
         x_off_arc = self.x_arr-cent[0]
         y_off_arc = self.y_arr-cent[1]
@@ -201,6 +204,9 @@ class AperModel1DDispMisalign(AperModel1DDispBase):
                     delt_PA=self.galaxy.delt_PA)
 
         # Set PSF convolution:
+        # Use a private copy: the stamp belongs to this model's grid, while the
+        #   instrument may be shared with other models.
+        self.instrument = self.instrument.copy()
         cent = [np.mean(self.x_arr), np.mean(self.y_arr)]
         x_off_arc = self.x_arr-cent[0]
         y_off_arc = self.y_arr-cent[1]
@@ -271,6 +277,9 @@ class AperModel1DRot(AperModel1DBase):
         # y_arr_flat = np.tile(np.array([y_arr_trim]).T, (1,len(x_arr_trim)))
 
 
+        # Use a private copy: the stamp belongs to this model's grid, while the
+        #   instrument may be shared with other models.
+        self.instrument = self.instrument.copy()
         conv_stamp = self.instrument.PSF.generate_conv_stamp(x_arr_trim, y_arr_trim)
         self.instrument.PSF.set_conv_stamp(conv_stamp)
 
@@ -612,6 +621,9 @@ class AperModel2D(object):
         #    # z can either be true z, or WAVELENGTH
 
 
+        # Use a private copy: the stamp belongs to this model's grid, while the
+        #   instrument may be shared with other models.
+        self.instrument = self.instrument.copy()
         conv_stamp = self.instrument.PSF.generate_conv_stamp(x_arr_trim, y_arr_trim)
         # Test new:
         kern3D = np.zeros(shape=(1, conv_stamp.shape[0], conv_stamp.shape[1],))
-- 
2.43.0


From ad5129fa7a524717ef0e4c1526a5a04f204f707f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:37:30 +0000
Subject: [PATCH 05/46] fix: do not overwrite the caller's slit width when
 making an IFU cube

make_3D_int_model widened the slit of the instrument it was given, so every
later model made with that instrument used the wrong slit.
---
 misfit/model/kin_model.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/misfit/model/kin_model.py b/misfit/model/kin_model.py
index cc87e12..94aa27b 100644
--- a/misfit/model/kin_model.py
+++ b/misfit/model/kin_model.py
@@ -226,6 +226,7 @@ class KinModel2D(object):
                 n_pix_y_whole = galaxy.spec2D.flux.shape[0]
             else:
                 n_pix_y_whole = galaxy.spec2D.shape[0]
+            instrument = instrument.copy()  # leave the caller's slit width alone
             instrument.slit_width = n_pix_y_whole*instrument.pixscale
             n_pix_x_whole = n_pix_y_whole
 
-- 
2.43.0


From 47e96104ce976c8cabd3e93d4b39ca8d3fef64b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:37:47 +0000
Subject: [PATCH 06/46] fix: let the 1D rotation aperture model be recalculated
 with slit offsets

The cached shift was tested through an attribute that does not exist, so the
second calculation with do_position_wave_shift failed.
---
 misfit/model/aper_model.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/misfit/model/aper_model.py b/misfit/model/aper_model.py
index 80dc66f..2b68209 100644
--- a/misfit/model/aper_model.py
+++ b/misfit/model/aper_model.py
@@ -430,7 +430,7 @@ class AperModel1DRot(AperModel1DBase):
 
         # Add position offset, if calculating that shift:
         if self.do_position_wave_shift or self.do_inst_res_conv_effective:
-            if (self.delta_position_velspace is None) or (self.inst_disp_wave is None):
+            if (self.delta_position_velspace is None) or (self.inst_disp_vel is None):
                 #################
                 # Exclude the padded regions ????
                 wh_in_slit_x = np.array(range(self.padX,self.n_pix_x+self.padX))
-- 
2.43.0


From db516bfb4bb2b16ac9daf719eaf70177e3d747ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:38:25 +0000
Subject: [PATCH 07/46] fix: rebin the IFU cube to its trimmed shape

The PSF-convolved cube no longer has its padding when make_3D_int_model
rebins it, so any non-zero padding (the default) made the call fail.
---
 misfit/model/kin_model.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/misfit/model/kin_model.py b/misfit/model/kin_model.py
index 94aa27b..44034e5 100644
--- a/misfit/model/kin_model.py
+++ b/misfit/model/kin_model.py
@@ -259,7 +259,7 @@ class KinModel2D(object):
         #     print("n_pix_y_whole={}, padY={}, n_pix_x_whole={}, padX={}".format(n_pix_y_whole,
         #             self.aperModel.padY, n_pix_x_whole, self.aperModel.padX))
         self.model_cube = kfuncs.rebin(self.aperModel.spectra_cube_conv.copy(),
-                    nWave, n_pix_y_whole+2*self.aperModel.padY, n_pix_x_whole+2*self.aperModel.padX)
+                    nWave, n_pix_y_whole, n_pix_x_whole)
 
         if self.debug:
             # Downsample others too
-- 
2.43.0


From 7730bb7fd395e04e739aed9482e8b3be85904006 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:39:01 +0000
Subject: [PATCH 08/46] fix: make repeated IFU cube evaluations agree

A second make_3D_int_model call on the same model failed (its pixel counts
were only set on the first call) and update_3D_int_model stored the padded,
unconvolved cube instead of what make_3D_int_model returns.
---
 misfit/model/kin_model.py | 43 +++++++++++++++++++++------------------
 1 file changed, 23 insertions(+), 20 deletions(-)

diff --git a/misfit/model/kin_model.py b/misfit/model/kin_model.py
index 44034e5..e20b6be 100644
--- a/misfit/model/kin_model.py
+++ b/misfit/model/kin_model.py
@@ -228,7 +228,6 @@ class KinModel2D(object):
                 n_pix_y_whole = galaxy.spec2D.shape[0]
             instrument = instrument.copy()  # leave the caller's slit width alone
             instrument.slit_width = n_pix_y_whole*instrument.pixscale
-            n_pix_x_whole = n_pix_y_whole
 
             self.aperModel = AperModel2D(galaxy=galaxy, instrument=instrument,
                                 theta=self.theta,
@@ -248,12 +247,34 @@ class KinModel2D(object):
             #                     kinProfile=self.kinProfile)
             self.aperModel.update_model(theta=self.theta)
 
+        self._set_model_cube()
+
+    def update_3D_int_model(self, theta_fitting=None):
+        # For illustrative purposes / toy-model use for mock analysis of IFU data:
+        # Note: Has no normalization applied. For the user to deal with later.
+
+        # Check that the input matches what is already setup:
+        if len(theta_fitting) != self.n_free_param:
+            raise ValueError("Number of fitting parameters does not match initialized number of free parameters")
+
+        self.update_parameters(theta_fitting)
+        # self.aperModel.kinProfile.update_theta(self.theta)
+        #
+        # self.aperModel.update_model(theta=self.theta,
+        #                         kinProfile=self.aperModel.kinProfile)
+        self.aperModel.update_model(theta=self.theta)
+
+        self._set_model_cube()
+
+    def _set_model_cube(self):
         ###################
         # Do downsampling:
         # # Save the 2D model to base part of class
 
         # Shape: nSpec, nY, nX
-        nWave = len(galaxy.spec2D.wave.copy())
+        nWave = len(self.aperModel.galaxy.spec2D.wave)
+        n_pix_y_whole = self.aperModel.n_pix_y_whole
+        n_pix_x_whole = n_pix_y_whole
         # if self.debug:
         #     print("spec cube conv shape={}".format(self.aperModel.spectra_cube_conv.shape))
         #     print("n_pix_y_whole={}, padY={}, n_pix_x_whole={}, padX={}".format(n_pix_y_whole,
@@ -272,24 +293,6 @@ class KinModel2D(object):
             self.I_Vsq_wide = kfuncs.rebin(self.aperModel.I_Vsq_wide.copy(),
                         n_pix_y_whole, n_pix_y_whole, n_pix_x_whole)
 
-    def update_3D_int_model(self, theta_fitting=None):
-        # For illustrative purposes / toy-model use for mock analysis of IFU data:
-        # Note: Has no normalization applied. For the user to deal with later.
-
-        # Check that the input matches what is already setup:
-        if len(theta_fitting) != self.n_free_param:
-            raise ValueError("Number of fitting parameters does not match initialized number of free parameters")
-
-        self.update_parameters(theta_fitting)
-        # self.aperModel.kinProfile.update_theta(self.theta)
-        #
-        # self.aperModel.update_model(theta=self.theta,
-        #                         kinProfile=self.aperModel.kinProfile)
-        self.aperModel.update_model(theta=self.theta)
-
-        # # Save the 2D model to base part of class
-        self.model_cube = self.aperModel.spectra_cube.copy()
-
     # +++++++++++++++++++++++++++++++++++++++++++++++++++++++++++++++++++++++++++++++++
 
 
-- 
2.43.0


From 74d7010f531245f1fe5fa02c4623983f19c08e08 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:39:16 +0000
Subject: [PATCH 09/46] fix: give each fit, model and mock its own default
 objects

The defaults were created once at import, so fits relying on them shared one
results object, one set of MCMC options and one set of profiles: a second
fit overwrote the results of the first.
---
 misfit/fit/fit2D.py           | 22 +++++++++++++++++-----
 misfit/mock/generate_basic.py | 10 ++++++++--
 misfit/model/kin_model.py     | 18 ++++++++++++++----
 3 files changed, 39 insertions(+), 11 deletions(-)

diff --git a/misfit/fit/fit2D.py b/misfit/fit/fit2D.py
index 4e913e6..7a90002 100644
--- a/misfit/fit/fit2D.py
+++ b/misfit/fit/fit2D.py
@@ -142,17 +142,29 @@ class FitEmissionLines2D(object):
     def __init__(self, galaxy=None, instrument=None, instrument_img=None,
                     linegroup_name = None, linenames_arr = None,
                     restwave_arr = None, flux_ratio_arr = None,
-                    kinProfile=KinProfileFiducial(),
-                    intensityProfile=IntensityProfileFiducial(Galaxy(n=1.,q0=0.19,re_arcsec=0.)),
-                    kinModelOptions=KinModel2DOptions(),
+                    kinProfile=None,
+                    intensityProfile=None,
+                    kinModelOptions=None,
                     thetaPrior=None,
                     thetaSettings=None,
-                    mcmcOptions = MCMC2DOptions(),
+                    mcmcOptions = None,
                     theta_linked_posteriors = None,
-                    mcmc_results = MCMCResults(),
+                    mcmc_results = None,
                     usetex=True,
                     **kwargs):
 
+        # Defaults: fresh objects, so separate fits never share them.
+        if kinProfile is None:
+            kinProfile = KinProfileFiducial()
+        if intensityProfile is None:
+            intensityProfile = IntensityProfileFiducial(Galaxy(n=1.,q0=0.19,re_arcsec=0.))
+        if kinModelOptions is None:
+            kinModelOptions = KinModel2DOptions()
+        if mcmcOptions is None:
+            mcmcOptions = MCMC2DOptions()
+        if mcmc_results is None:
+            mcmc_results = MCMCResults()
+
         self.galaxy = galaxy
         self.instrument = instrument
         self.instrument_img = instrument_img
diff --git a/misfit/mock/generate_basic.py b/misfit/mock/generate_basic.py
index 0ada591..73d62cb 100644
--- a/misfit/mock/generate_basic.py
+++ b/misfit/mock/generate_basic.py
@@ -42,10 +42,16 @@ def generate_mock_basis(z=None,
         pad_factor=0.5,
         do_position_wave_shift=False,
         do_inst_res_conv_effective=False,
-        kinProfile = KinProfileFiducial(),
-        intensityProfile = IntensityProfileFiducial(Galaxy(n=1.,q0=0.19,re_arcsec=0.)),
+        kinProfile = None,
+        intensityProfile = None,
         debug=False, **kwargs):
 
+    # Defaults: fresh objects, so separate mocks never share them.
+    if kinProfile is None:
+        kinProfile = KinProfileFiducial()
+    if intensityProfile is None:
+        intensityProfile = IntensityProfileFiducial(Galaxy(n=1.,q0=0.19,re_arcsec=0.))
+
     # Enforce min slit-length
     if slit_length < nymin*pixscale:
         slit_length = nymin*pixscale
diff --git a/misfit/model/kin_model.py b/misfit/model/kin_model.py
index e20b6be..09aa742 100644
--- a/misfit/model/kin_model.py
+++ b/misfit/model/kin_model.py
@@ -60,13 +60,23 @@ class KinModel2D(object):
     Handles variable + fixed parameters, talks to the Aper2DModel class,
     creates scaled model to data.
     """
-    def __init__(self, galaxy, thetaSettings=Theta2DSettingsFiducial(),
-                    kinProfile=KinProfileFiducial(),
-                    intensityProfile=IntensityProfileFiducial(Galaxy(n=1.,q0=0.19,re_arcsec=0.)),
-                    kinModelOptions = KinModel2DOptions(),
+    def __init__(self, galaxy, thetaSettings=None,
+                    kinProfile=None,
+                    intensityProfile=None,
+                    kinModelOptions = None,
                     do_position_wave_shift=False,
                     do_inst_res_conv_effective=False, **kwargs):
         # Galaxy()
+        # Defaults: fresh objects, so separate models never share them.
+        if thetaSettings is None:
+            thetaSettings = Theta2DSettingsFiducial()
+        if kinProfile is None:
+            kinProfile = KinProfileFiducial()
+        if intensityProfile is None:
+            intensityProfile = IntensityProfileFiducial(Galaxy(n=1.,q0=0.19,re_arcsec=0.))
+        if kinModelOptions is None:
+            kinModelOptions = KinModel2DOptions()
+
         # Unpack thetaSettings:
         self.theta = thetaSettings.theta
         self.theta_vary = thetaSettings.theta_vary
-- 
2.43.0


From 8965e2dd0c99959e9277ba57148c1835506673e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:39:16 +0000
Subject: [PATCH 10/46] fix: do not use the caller's settings array as the
 model's working parameters

Every evaluation wrote the current parameters into the theta array of the
settings object passed in, also changing any other model made from it.
---
 misfit/model/kin_model.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/misfit/model/kin_model.py b/misfit/model/kin_model.py
index 09aa742..cc93c1b 100644
--- a/misfit/model/kin_model.py
+++ b/misfit/model/kin_model.py
@@ -78,7 +78,8 @@ class KinModel2D(object):
             kinModelOptions = KinModel2DOptions()
 
         # Unpack thetaSettings:
-        self.theta = thetaSettings.theta
+        # Own copy: theta is updated in place on every evaluation.
+        self.theta = copy.deepcopy(thetaSettings.theta)
         self.theta_vary = thetaSettings.theta_vary
         self.theta_names = thetaSettings.theta_names
         self.theta_names_nice = thetaSettings.theta_names_nice
-- 
2.43.0


From 382ebbdf9869d96c74e409da2f377d50d151547f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:39:36 +0000
Subject: [PATCH 11/46] fix: re-analysing a chain no longer appends the derived
 columns again

V_RE, V_22, sigma_RE and sigma_22 were added to the flat chain on every
analysis, so the best-fit arrays grew and no longer matched their names.
---
 misfit/fit/fit_core.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/misfit/fit/fit_core.py b/misfit/fit/fit_core.py
index fbc399f..22eed39 100644
--- a/misfit/fit/fit_core.py
+++ b/misfit/fit/fit_core.py
@@ -952,6 +952,10 @@ def add_v_re_22(fitEmis2D):
         else:
             raise ValueError
 
+    # Keep only the fitted parameters, in case the derived columns were already added:
+    fitEmis2D.sampler_dict['flatchain'] = \
+            fitEmis2D.sampler_dict['flatchain'][:, :fitEmis2D.kinModel.n_free_param]
+
     i_free = 0
     len_chain = fitEmis2D.sampler_dict['flatchain'].shape[0]
     for i in range(len(fitEmis2D.kinModel.theta)):
-- 
2.43.0


From e3983457e03cba1a96d8880ac18e310b7134168a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:39:36 +0000
Subject: [PATCH 12/46] fix: use the 1-sigma limits for every set of linked
 posteriors

From the second set on, the 1-sigma errors were computed from the 2-sigma
limits left over from the previous set.
---
 misfit/fit/fit_core.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/misfit/fit/fit_core.py b/misfit/fit/fit_core.py
index 22eed39..b0c72c3 100644
--- a/misfit/fit/fit_core.py
+++ b/misfit/fit/fit_core.py
@@ -1074,9 +1074,8 @@ def get_param_posterior_bestfits(fitEmis2D):
     #       eg, theta_linked_posteriors.
     # eg, for V_a and r_t mcmc based on best-fit value for V(R_E):
     if fitEmis2D.theta_linked_posteriors is not None:
-        mcmc_lims_zip = list(zip(*mcmc_limits))
-
         for i in range(len(fitEmis2D.theta_linked_posteriors)):
+            mcmc_lims_zip = list(zip(*mcmc_limits))
             mcmc_peak, mcmc_uncertainties_1sig = \
                     utils.get_bestfit_values_linked(fitEmis2D,
                     mcmc_uncertainties_1sig, mcmc_lims_zip,
-- 
2.43.0


From 48c2bdbcad595fc51a50255e06f27f171c543014 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:39:36 +0000
Subject: [PATCH 13/46] fix: absvalsigma with a fixed dispersion no longer
 rectifies the whole chain

Indexing with None selected every column, so all velocities lost their sign.
---
 misfit/fit/fit_core.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/misfit/fit/fit_core.py b/misfit/fit/fit_core.py
index b0c72c3..4b61ca6 100644
--- a/misfit/fit/fit_core.py
+++ b/misfit/fit/fit_core.py
@@ -945,10 +945,11 @@ def add_v_re_22(fitEmis2D):
                 else:
                     free_inds.append(None)
             ind = free_inds[ind_all]
-            fitEmis2D.sampler_dict['flatchain'][:, ind] = \
-                   np.abs(fitEmis2D.sampler_dict['flatchain'][:, ind])
-            fitEmis2D.sampler_dict['chain'][:, :, ind] = \
-                   np.abs(fitEmis2D.sampler_dict['chain'][:, :, ind])
+            if ind is not None:     # nothing to do if the dispersion is fixed
+                fitEmis2D.sampler_dict['flatchain'][:, ind] = \
+                       np.abs(fitEmis2D.sampler_dict['flatchain'][:, ind])
+                fitEmis2D.sampler_dict['chain'][:, :, ind] = \
+                       np.abs(fitEmis2D.sampler_dict['chain'][:, :, ind])
         else:
             raise ValueError
 
-- 
2.43.0


From 46c56a406921d24c04f6feb96409a0c72eb0da82 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:39:59 +0000
Subject: [PATCH 14/46] fix: analyse fits in which the velocity or the
 dispersion is fixed

A fixed sigma0 makes the derived dispersions constant, and a constant
column has no Gaussian KDE, so the analysis of such a fit always failed.
---
 misfit/general/general_utils.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/misfit/general/general_utils.py b/misfit/general/general_utils.py
index c3e0089..e376ea1 100644
--- a/misfit/general/general_utils.py
+++ b/misfit/general/general_utils.py
@@ -209,6 +209,10 @@ def find_peak_gaussian_KDE(flatchain, initval):
     if nparams > 1:
         peakvals = np.zeros(nparams)
         for i in range(nparams):
+            if flatchain[:,i].min() == flatchain[:,i].max():
+                # Constant, eg derived from fixed parameters only: no KDE possible
+                peakvals[i] = flatchain[0,i]
+                continue
             kern = gaussian_kde(flatchain[:,i])
             peakvals[i] = fmin(lambda x: -kern(x), initval[i], disp=False)[0]
         return peakvals
-- 
2.43.0


From 09920a6a74b684372ede2d663891425e0b2dc86c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:41:45 +0000
Subject: [PATCH 15/46] fix: return from the 1D fit once its Monte Carlo errors
 are done

---
 misfit/fit/fit1D.py | 2 --
 1 file changed, 2 deletions(-)

diff --git a/misfit/fit/fit1D.py b/misfit/fit/fit1D.py
index 41b622d..ca56062 100644
--- a/misfit/fit/fit1D.py
+++ b/misfit/fit/fit1D.py
@@ -506,8 +506,6 @@ class FitEmissionLines1D(object):
             self.cont_coeff_err =   \
                 values_err[len(self.names_arr)+2:len(self.names_arr)+2+self.cont_order+1,:]
 
-            raise ValueError
-
         else:
             print( "Not doing errors")
             self.z_err =            np.zeros(2)
-- 
2.43.0


From 2fe2f24081a7decc6b2067bd8488c6e29cc16a4a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:41:45 +0000
Subject: [PATCH 16/46] fix: take the 1D instrument resolution from the
 instrument

---
 misfit/fit/fit1D.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/misfit/fit/fit1D.py b/misfit/fit/fit1D.py
index ca56062..3b52b3d 100644
--- a/misfit/fit/fit1D.py
+++ b/misfit/fit/fit1D.py
@@ -612,7 +612,7 @@ class FitEmissionLines1D(object):
 
             # Correct all in value matrix
             vel_disp_mc = value_matrix[:,1]
-            vel_disp_mc_inst_corr = np.sqrt(vel_disp_mc**2 - self.galaxy.spec1D.instrument_resolution**2)
+            vel_disp_mc_inst_corr = np.sqrt(vel_disp_mc**2 - self.instrument.instrument_resolution**2)
 
             # Make non-finite cases: these are where inst res > vel disp
             vel_disp_mc_inst_corr[~np.isfinite(vel_disp_mc_inst_corr)] = 0.
-- 
2.43.0


From 692614a83b8f2fd16fd610d4ca922f7d02843ece Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:41:45 +0000
Subject: [PATCH 17/46] fix: trim 1D spectra of galaxies with a plain float
 redshift

---
 misfit/general/galaxy_utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/misfit/general/galaxy_utils.py b/misfit/general/galaxy_utils.py
index 1669209..c6bfb90 100644
--- a/misfit/general/galaxy_utils.py
+++ b/misfit/general/galaxy_utils.py
@@ -46,7 +46,7 @@ def trim_spectrum_1D(spec1D, galaxy, trim_restwave_range=None,
         trim_restwave_range = io.read_wave_range(param_restwave_filename,linename=linename)
 
     if trim_obswave_range is None:
-        trim_obswave_range = np.array(trim_restwave_range)*(1.+galaxy.z).tolist()
+        trim_obswave_range = (np.array(trim_restwave_range)*(1.+galaxy.z)).tolist()
 
     # Find the range there is coverage:
     if spec1D is not None:
-- 
2.43.0


From f79e195e85b313baedca76c9d7d2679f645a231b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:41:45 +0000
Subject: [PATCH 18/46] fix: fit 1D linesets with different numbers of lines
 together

---
 misfit/fit/fit1D.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/misfit/fit/fit1D.py b/misfit/fit/fit1D.py
index 3b52b3d..432efaf 100644
--- a/misfit/fit/fit1D.py
+++ b/misfit/fit/fit1D.py
@@ -181,7 +181,8 @@ class FitEmissionLines1D(object):
                     wave_arr.append(io.read_restwave(wave_file, linename=linename))
                 waves_arr.append(wave_arr)
 
-            self.restwave_arr = np.array(waves_arr)
+            # Linesets can have different numbers of lines: keep one list per lineset
+            self.restwave_arr = waves_arr
 
     def setup_spectrum(self):
         """
-- 
2.43.0


From f94ef9af1e42e1f02d4b9dda319e415465de9ed2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:41:45 +0000
Subject: [PATCH 19/46] fix: keep each 1D fit's trimmed spectrum out of the
 shared galaxy

---
 misfit/fit/fit1D.py | 70 ++++++++++++++++++++++++---------------------
 1 file changed, 37 insertions(+), 33 deletions(-)

diff --git a/misfit/fit/fit1D.py b/misfit/fit/fit1D.py
index 432efaf..ee67af1 100644
--- a/misfit/fit/fit1D.py
+++ b/misfit/fit/fit1D.py
@@ -195,13 +195,17 @@ class FitEmissionLines1D(object):
         else:
             trim_file = self.trim_wave_paramfile
 
-        self.galaxy.spec1D_trim = self.galaxy.spec1D.trim_spectrum_wavelength(self.galaxy,
+        # Each fit keeps its own trimmed spectrum: the galaxy can be shared between
+        #   fits to different lines, and only holds the one that was trimmed last
+        self.spec1D_trim = self.galaxy.spec1D.trim_spectrum_wavelength(self.galaxy,
                 param_restwave_filename=trim_file,
                 trim_restwave_range=self.trim_restwave_range,
                 linename=self.names_arr[0])
 
         # and mask the edges:
-        self.galaxy.spec1D_trim.mask_edges()
+        self.spec1D_trim.mask_edges()
+
+        self.galaxy.spec1D_trim = self.spec1D_trim
 
     #
     def make_params(self, flux_bound=False, vel_disp_bound=False):
@@ -304,25 +308,25 @@ class FitEmissionLines1D(object):
 
         # Do the fitting:
         result = lmfit.minimize(emisModel.residual1DProfile, params,
-                args=(self.galaxy.spec1D_trim.obswave, self.galaxy.spec1D_trim.flux,
-                    self.galaxy.spec1D_trim.flux_err, self.galaxy.spec1D_trim.spec_mask))
+                args=(self.spec1D_trim.obswave, self.spec1D_trim.flux,
+                    self.spec1D_trim.flux_err, self.spec1D_trim.spec_mask))
 
         #raise ValueError
         if (result.params['vel_disp'].value < 0.) & (result.params['flux0'].value < 0.):
             params = self.make_params(vel_disp_bound=True, flux_bound=True)
             result = lmfit.minimize(emisModel.residual1DProfile, params,
-                args=(self.galaxy.spec1D_trim.obswave, self.galaxy.spec1D_trim.flux,
-                    self.galaxy.spec1D_trim.flux_err, self.galaxy.spec1D_trim.spec_mask))
+                args=(self.spec1D_trim.obswave, self.spec1D_trim.flux,
+                    self.spec1D_trim.flux_err, self.spec1D_trim.spec_mask))
         elif (result.params['vel_disp'].value < 0.):
             params = self.make_params(vel_disp_bound=True)
             result = lmfit.minimize(emisModel.residual1DProfile, params,
-                args=(self.galaxy.spec1D_trim.obswave, self.galaxy.spec1D_trim.flux,
-                    self.galaxy.spec1D_trim.flux_err, self.galaxy.spec1D_trim.spec_mask))
+                args=(self.spec1D_trim.obswave, self.spec1D_trim.flux,
+                    self.spec1D_trim.flux_err, self.spec1D_trim.spec_mask))
         elif (result.params['flux0'].value < 0.):
             params = self.make_params(flux_bound=True)
             result = lmfit.minimize(emisModel.residual1DProfile, params,
-                args=(self.galaxy.spec1D_trim.obswave, self.galaxy.spec1D_trim.flux,
-                    self.galaxy.spec1D_trim.flux_err, self.galaxy.spec1D_trim.spec_mask))
+                args=(self.spec1D_trim.obswave, self.spec1D_trim.flux,
+                    self.spec1D_trim.flux_err, self.spec1D_trim.spec_mask))
 
         #if not result.errorbars:
         #    fix_cont = True
@@ -333,8 +337,8 @@ class FitEmissionLines1D(object):
         #    params['cont_coeff1'].vary = False
         #    params['flux0'].vary = False
         #    result = lmfit.minimize(emisModel.residual1DProfile, params,
-        #        args=(self.galaxy.spec1D_trim.obswave, self.galaxy.spec1D_trim.flux,
-        #            self.galaxy.spec1D_trim.flux_err, self.galaxy.spec1D_trim.spec_mask))
+        #        args=(self.spec1D_trim.obswave, self.spec1D_trim.flux,
+        #            self.spec1D_trim.flux_err, self.spec1D_trim.spec_mask))
         #else:
         #    fix_cont = False
         #    fix_z = False
@@ -348,7 +352,7 @@ class FitEmissionLines1D(object):
         self.lmfit_result = result
 
         # save the model result for quick plotting:
-        self.final_model = emisModel.make1DProfile(self.lmfit_result.params, self.galaxy.spec1D_trim.obswave)
+        self.final_model = emisModel.make1DProfile(self.lmfit_result.params, self.spec1D_trim.obswave)
 
         # Unpack the final values to return:
         self.z = self.lmfit_result.params['z'].value
@@ -405,21 +409,21 @@ class FitEmissionLines1D(object):
                     ax.axvline(x=(1.+self.galaxy.z)*self.restwave_arr[i][j],
                                 ls='--', color='lightgrey', alpha=0.8,zorder=-10)
 
-            wh_notmask = np.where(self.galaxy.spec1D_trim.spec_mask == 1.)[0]
-            wh_mask =  np.where(self.galaxy.spec1D_trim.spec_mask == 0.)[0]
+            wh_notmask = np.where(self.spec1D_trim.spec_mask == 1.)[0]
+            wh_mask =  np.where(self.spec1D_trim.spec_mask == 0.)[0]
 
             ms = 3
             elinewidth = 0.5 #0.75
             capsize = 1.5 #3
             capthick = elinewidth
-            p_err = ax.errorbar(self.galaxy.spec1D_trim.obswave[wh_notmask],
-                    self.galaxy.spec1D_trim.flux[wh_notmask],
-                    yerr=self.galaxy.spec1D_trim.flux_err[wh_notmask],
+            p_err = ax.errorbar(self.spec1D_trim.obswave[wh_notmask],
+                    self.spec1D_trim.flux[wh_notmask],
+                    yerr=self.spec1D_trim.flux_err[wh_notmask],
                     elinewidth=elinewidth, capsize=capsize, capthick=capthick,
                     ms=ms, marker='o', ls='None', color='k', ecolor='k', zorder=-1.)
-            p_err_mask = ax.errorbar(self.galaxy.spec1D_trim.obswave[wh_mask],
-                    self.galaxy.spec1D_trim.flux[wh_mask],
-                    yerr=self.galaxy.spec1D_trim.flux_err[wh_mask],
+            p_err_mask = ax.errorbar(self.spec1D_trim.obswave[wh_mask],
+                    self.spec1D_trim.flux[wh_mask],
+                    yerr=self.spec1D_trim.flux_err[wh_mask],
                     elinewidth=elinewidth, capsize=capsize, capthick=capthick,
                     ms=ms, marker='o', ls='None', color='grey', ecolor='grey', zorder=-1.5)
 
@@ -444,10 +448,10 @@ class FitEmissionLines1D(object):
                     if ( ((i+1) % 50 == 0)):
                         print("MC error iter {:3d}/{:3d}".format(i+1,self.num_MC))
 
-                    spec_perturb = self.galaxy.spec1D_trim.flux.copy()
+                    spec_perturb = self.spec1D_trim.flux.copy()
                     # Now perturb randomly, using normal distribution
                     rand_vals = np.random.randn(len(spec_perturb))
-                    spec_perturb += self.galaxy.spec1D_trim.flux_err*rand_vals
+                    spec_perturb += self.spec1D_trim.flux_err*rand_vals
 
                     params_best = lmfit.Parameters()
                     params_best.add('z', value=self.z, min=self.galaxy.z-self.del_obs_lam/self.restwave_arr[0][0],
@@ -468,13 +472,13 @@ class FitEmissionLines1D(object):
 
                     #now fit the perturbed spectrum:
                     result_mc = lmfit.minimize(emisModel.residual1DProfile, params_best,
-                            args=(self.galaxy.spec1D_trim.obswave, spec_perturb,
-                                self.galaxy.spec1D_trim.flux_err, self.galaxy.spec1D_trim.spec_mask))
+                            args=(self.spec1D_trim.obswave, spec_perturb,
+                                self.spec1D_trim.flux_err, self.spec1D_trim.spec_mask))
 
 
                     if not noPlot:
-                        model_mc = emisModel.make1DProfile(result_mc.params, self.galaxy.spec1D_trim.obswave)
-                        ax.plot(self.galaxy.spec1D_trim.obswave, model_mc,
+                        model_mc = emisModel.make1DProfile(result_mc.params, self.spec1D_trim.obswave)
+                        ax.plot(self.spec1D_trim.obswave, model_mc,
                                 ls='-', lw=1, c='red', alpha=0.025)
 
                     value_matrix[i,0] = result_mc.params['z'].value
@@ -519,15 +523,15 @@ class FitEmissionLines1D(object):
         #  Finish plot
         if not noPlot:
 
-            cont_model = np.zeros(len(self.galaxy.spec1D_trim.obswave))
+            cont_model = np.zeros(len(self.spec1D_trim.obswave))
             for i in range(self.cont_order+1):
                 cont_model += self.lmfit_result.params['cont_coeff'+str(i)].value*1.e-18*\
-                            np.power(self.galaxy.spec1D_trim.obswave,i)
+                            np.power(self.spec1D_trim.obswave,i)
 
-            ax.plot(self.galaxy.spec1D_trim.obswave, cont_model, lw=1, color='green')
+            ax.plot(self.spec1D_trim.obswave, cont_model, lw=1, color='green')
 
 
-            ax.plot(self.galaxy.spec1D_trim.obswave, self.final_model, ls='-', lw=1, c='blue')
+            ax.plot(self.spec1D_trim.obswave, self.final_model, ls='-', lw=1, c='blue')
 
             ax.set_xlabel(r'$\lambda$')
             ax.set_ylabel(r'$F_{\lambda}$')
@@ -559,8 +563,8 @@ class FitEmissionLines1D(object):
                     fontsize=9., backgroundcolor='white')
 
 
-            xlim = np.array([self.galaxy.spec1D_trim.obswave.min()-20,
-                        self.galaxy.spec1D_trim.obswave.max()+20])
+            xlim = np.array([self.spec1D_trim.obswave.min()-20,
+                        self.spec1D_trim.obswave.max()+20])
             yrange = np.abs(self.final_model.max()-self.final_model.min())
             pad_frac=0.15
             ylim = np.array([self.final_model.min()-yrange*pad_frac,
-- 
2.43.0


From c5b3e8511dd5ad1586e5e15dc81c85ab07cbafd5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:43:42 +0000
Subject: [PATCH 20/46] fix: follow m0_shift and z when they are free
 parameters

---
 misfit/model/aper_model.py | 18 +++++++++++++++++-
 1 file changed, 17 insertions(+), 1 deletion(-)

diff --git a/misfit/model/aper_model.py b/misfit/model/aper_model.py
index 2b68209..62f0f76 100644
--- a/misfit/model/aper_model.py
+++ b/misfit/model/aper_model.py
@@ -547,6 +547,7 @@ class AperModel2D(object):
         self.delta_position_velspace = None
         self.inst_disp_wave = None
         self.I_wide = None
+        self.theta_grid = None             # m0_shift, z of the calculated grid
 
         self.debug = False
 
@@ -633,13 +634,28 @@ class AperModel2D(object):
 
     def make_model(self):
 
-        self.setup_calcs()                 # Setup grid, values
+        self.setup_grid()                  # Setup grid, values
 
         self.do_model_calcs()
 
+    def setup_grid(self):
+        # The grid depends on the position + redshift in theta: m0_shift, z
+        self.theta_grid = None             # Nothing is valid until this finishes
+        self.delta_position_velspace = None
+        self.inst_disp_wave = None
+
+        self.setup_calcs()
+
+        self.theta_grid = np.array(self.theta[-2:], dtype=float)
+
     def update_model(self, **kwargs):
         self.setAttr(**kwargs)
 
+        # m0_shift or z changed since the grid was calculated:
+        if (self.theta_grid is None) or (not np.array_equal(self.theta_grid,
+                                np.array(self.theta[-2:], dtype=float))):
+            self.setup_grid()
+
         self.do_model_calcs()
 
     def do_model_calcs(self):
-- 
2.43.0


From fe6a4e122543248bf7d95d21f63d781a21c257da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:43:42 +0000
Subject: [PATCH 21/46] fix: use the model's own galaxy in a shared intensity
 profile

---
 misfit/model/aper_model.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/misfit/model/aper_model.py b/misfit/model/aper_model.py
index 62f0f76..0c79d9b 100644
--- a/misfit/model/aper_model.py
+++ b/misfit/model/aper_model.py
@@ -769,6 +769,8 @@ class AperModel2D(object):
         self.delt_wave = np.average(self.wave_arr[1:]-self.wave_arr[:-1])
 
 
+        # The profile can be shared between models: use this galaxy's values
+        self.intensityProfile.update_values(self.galaxy)
         self.I_wide  = self.intensityProfile.int(self.r, self.zint)
         # Shape nWave, nZ, nY, nX
         self.I_matrix = np.tile(self.I_wide, (self.nWave,1,1,1))
-- 
2.43.0


From 0d6318760087d07b1702dc798af3c3d858d56319 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:44:06 +0000
Subject: [PATCH 22/46] fix: recover the wavelength grid after an interrupted
 evaluation

---
 misfit/model/aper_model.py | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/misfit/model/aper_model.py b/misfit/model/aper_model.py
index 0c79d9b..48fb9aa 100644
--- a/misfit/model/aper_model.py
+++ b/misfit/model/aper_model.py
@@ -548,6 +548,7 @@ class AperModel2D(object):
         self.inst_disp_wave = None
         self.I_wide = None
         self.theta_grid = None             # m0_shift, z of the calculated grid
+        self.is_upsampled = False          # True while the wavelength arrays are upsampled
 
         self.debug = False
 
@@ -778,7 +779,13 @@ class AperModel2D(object):
                 self.nZ*self.nY*self.nX).reshape((self.nWave,self.nZ,self.nY,self.nX))
 
     def check_do_upsample_wave(self):
+        # Restore the original arrays if the last evaluation was cut short:
+        if self.is_upsampled:
+            self.reset_to_real_wave()
+
         if (np.abs(self.kinProfile.dispProfile.theta) < self.sigma_upsample_value) :
+            self.is_upsampled = True
+
             # Create new array that has finer sampling:
             self.delt_wave = self.delt_wave_real / float(self.adaptive_upsample_factor)
 
@@ -916,9 +923,13 @@ class AperModel2D(object):
     def downsample_to_real_wave(self):
         self.model_out = kfuncs.rebin(self.model_out,
                             self.nWave_real, self.n_pix_y_whole)
+        self.reset_to_real_wave()
+
+    def reset_to_real_wave(self):
         # Reset other parameters to original values:
         self.wave_arr = self.wave_arr_real.copy()
         self.nWave = self.nWave_real
         self.delt_wave = self.delt_wave_real
         self.I_matrix = self.I_matrix_real.copy()
         self.wave_ref_matrix = self.wave_ref_matrix_real.copy()
+        self.is_upsampled = False
-- 
2.43.0


From fd947908f89d279913186c3dbda944ccc7fd5d72 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:44:22 +0000
Subject: [PATCH 23/46] fix: write result files atomically

---
 misfit/fit/fit1D.py  |  7 ++++++-
 misfit/fit/fit2D.py  |  2 +-
 misfit/fit/fit_io.py | 18 +++++++++++++++++-
 3 files changed, 24 insertions(+), 3 deletions(-)

diff --git a/misfit/fit/fit1D.py b/misfit/fit/fit1D.py
index ee67af1..921b0ba 100644
--- a/misfit/fit/fit1D.py
+++ b/misfit/fit/fit1D.py
@@ -44,6 +44,11 @@ except:
     from ..model.emission_lines_model import EmissionLinesSpectrum1DModel
 
 
+try:
+    import fit_io
+except:
+    from . import fit_io
+
 import astropy.constants as _constants
 c_cgs = _constants.c.cgs.value
 c_kms = c_cgs * 1.e-5 # from cm/s -> km/s
@@ -647,7 +652,7 @@ class FitEmissionLines1D(object):
         if err_filename is None:
             raise ValueError("Must set err_filename")
 
-        pickle.dump(value_matrix, open(err_filename, "wb"))
+        fit_io.dumppickle(value_matrix, filename=err_filename)
 
         return None
 
diff --git a/misfit/fit/fit2D.py b/misfit/fit/fit2D.py
index 7a90002..5e4bcc3 100644
--- a/misfit/fit/fit2D.py
+++ b/misfit/fit/fit2D.py
@@ -410,7 +410,7 @@ class FitEmissionLines2D(object):
 
 
         if self.mcmcOptions.filename_bestfit_model is not None:
-            pickle.dump(fitEmis2DResults, open(self.mcmcOptions.filename_bestfit_model, "wb"))
+            fit_io.dumppickle(fitEmis2DResults, filename=self.mcmcOptions.filename_bestfit_model)
             #pickle.dump(self, open(self.mcmcOptions.filename_bestfit_model, "wb"))
 
 
diff --git a/misfit/fit/fit_io.py b/misfit/fit/fit_io.py
index f95a45e..a1197b3 100644
--- a/misfit/fit/fit_io.py
+++ b/misfit/fit/fit_io.py
@@ -3,6 +3,7 @@
 
 from __future__ import print_function
 
+import os
 import pickle
 import numpy as np
 
@@ -102,5 +103,20 @@ def loadpickle(filename):
     return data
 
 def dumppickle(data, filename=None):
-    pickle.dump(data, open(filename, "wb") )
+    """
+    Save data to a pickle. The data is first written to a temporary file in the same directory,
+    so a failed or interrupted save never damages an existing file.
+    """
+    filename = os.path.realpath(filename)
+    filename_tmp = '{}.tmp'.format(filename)
+    try:
+        with open(filename_tmp, "wb") as f:
+            pickle.dump(data, f)
+            f.flush()
+            os.fsync(f.fileno())
+        os.replace(filename_tmp, filename)
+    except BaseException:
+        if os.path.exists(filename_tmp):
+            os.remove(filename_tmp)
+        raise
     return None
-- 
2.43.0


From 8f74a5f00b70864a92cf47615dec8a7ee1c41972 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:44:36 +0000
Subject: [PATCH 24/46] fix: fit without an h5 sampler file, which is optional

---
 misfit/fit/fit_core.py | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/misfit/fit/fit_core.py b/misfit/fit/fit_core.py
index 4b61ca6..83edeb4 100644
--- a/misfit/fit/fit_core.py
+++ b/misfit/fit/fit_core.py
@@ -535,8 +535,12 @@ def _run_mcmc_emcee_3(fitEmis2D, fitEmis2D_fit=None):
 
     moves = emcee.moves.StretchMove(a=fitEmis2D.mcmcOptions.scale_param_a)
 
-    backend_burn = emcee.backends.HDFBackend(fitEmis2D.mcmcOptions.filename_sampler_h5, 
-                                             name="burnin_mcmc")
+    # The h5 file is optional: keep the chain in memory if it isn't set
+    if fitEmis2D.mcmcOptions.filename_sampler_h5 is not None:
+        backend_burn = emcee.backends.HDFBackend(fitEmis2D.mcmcOptions.filename_sampler_h5, 
+                                                 name="burnin_mcmc")
+    else:
+        backend_burn = emcee.backends.Backend()
 
     if fitEmis2D.mcmcOptions.overwrite:
         backend_burn.reset(fitEmis2D.mcmcOptions.nWalkers, fitEmis2D.kinModel.n_free_param)
@@ -684,7 +688,10 @@ def _run_mcmc_emcee_3(fitEmis2D, fitEmis2D_fit=None):
         # Setup sampler:
         # --------------------------------
         # Start backend:
-        backend = emcee.backends.HDFBackend(fitEmis2D.mcmcOptions.filename_sampler_h5, name="mcmc")
+        if fitEmis2D.mcmcOptions.filename_sampler_h5 is not None:
+            backend = emcee.backends.HDFBackend(fitEmis2D.mcmcOptions.filename_sampler_h5, name="mcmc")
+        else:
+            backend = emcee.backends.Backend()
 
         if fitEmis2D.mcmcOptions.overwrite:
             backend.reset(fitEmis2D.mcmcOptions.nWalkers, fitEmis2D.kinModel.n_free_param)
-- 
2.43.0


From 63bf19340f0872be7bd9776c60410e1d25107c42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:44:54 +0000
Subject: [PATCH 25/46] fix: do not leave the worker pool running when a run
 fails

---
 misfit/fit/fit_core.py | 19 ++++++++++++++++++-
 1 file changed, 18 insertions(+), 1 deletion(-)

diff --git a/misfit/fit/fit_core.py b/misfit/fit/fit_core.py
index 83edeb4..1ee2c8a 100644
--- a/misfit/fit/fit_core.py
+++ b/misfit/fit/fit_core.py
@@ -527,12 +527,29 @@ def _run_mcmc_emcee_3(fitEmis2D, fitEmis2D_fit=None):
 
 
     # --------------------------------
-    # Start pool, moves, backend:
+    # Start pool:
     if (fitEmis2D.mcmcOptions.nCPUs > 1):
         pool = Pool(fitEmis2D.mcmcOptions.nCPUs)
     else:
         pool = None
 
+    try:
+        return _run_mcmc_emcee_3_pool(fitEmis2D, fitEmis2D_fit, pool)
+    except BaseException:
+        # Don't leave the workers behind if the run fails or is interrupted
+        if pool is not None:
+            pool.terminate()
+            pool.join()
+        raise
+
+
+def _run_mcmc_emcee_3_pool(fitEmis2D, fitEmis2D_fit, pool):
+    """
+    Run emcee v3 with the given pool (None: no multithreading).
+    Closes the pool once the sampling is done.
+    """
+    # --------------------------------
+    # Start moves, backend:
     moves = emcee.moves.StretchMove(a=fitEmis2D.mcmcOptions.scale_param_a)
 
     # The h5 file is optional: keep the chain in memory if it isn't set
-- 
2.43.0


From 5cc6c953b545496dadb9e52ccba416998a3331bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:46:55 +0000
Subject: [PATCH 26/46] fix: prepare spectra all or nothing, leaving the input
 data as given

---
 misfit/galaxy.py | 29 +++++++++++++++++++++--------
 1 file changed, 21 insertions(+), 8 deletions(-)

diff --git a/misfit/galaxy.py b/misfit/galaxy.py
index e2b8c0c..3484e9f 100644
--- a/misfit/galaxy.py
+++ b/misfit/galaxy.py
@@ -742,6 +742,27 @@ class ObsSpectrum2D(ObsSpectrum2DBasic):
         # Update keywords, etc:
         self.setAttr(**kwargs)
 
+        if not self.prepared_for_fitting:
+            # Calculate deltPA of galaxy major axis within slit
+            if galaxy.delt_PA is None:
+                galaxy.calculate_slit_object_delta_PA()
+
+            # Prepare copies, so a preparation that fails or is interrupted leaves nothing half done,
+            #   and the input arrays + 1D spectrum (which can be shared) stay as they were given.
+            spec2D = self.copy()
+            galaxy_prep = copy.copy(galaxy)
+            galaxy_prep.spec1D = copy.deepcopy(galaxy.spec1D)
+            spec2D._fit_prep_calcs(galaxy_prep, instrument)
+
+            self.__dict__.update(spec2D.__dict__)
+
+        # Make sure galaxy is updated:
+        galaxy.spec2D = self
+
+    def _fit_prep_calcs(self, galaxy, instrument):
+        """
+        Do the fit preparation calculations in place
+        """
         if not self.prepared_for_fitting:
             self.initialize_lineset()
             self.initialize_skylevels()
@@ -788,11 +809,6 @@ class ObsSpectrum2D(ObsSpectrum2DBasic):
             # Determine weighting for fitting:
             self.calculate_fit_weights()
 
-            ##########
-            # Calculate deltPA of galaxy major axis within slit
-            if galaxy.delt_PA is None:
-                galaxy.calculate_slit_object_delta_PA()
-
             ##########
             # Calculate m0_shift, lam0 for fitting if they're fixed:
             self.get_m0_lam0_pos(galaxy)
@@ -800,9 +816,6 @@ class ObsSpectrum2D(ObsSpectrum2DBasic):
             # Note that this is completed
             self.prepared_for_fitting = True
 
-        # Make sure galaxy is updated:
-        galaxy.spec2D = self
-
 
     def initialize_derived_variables(self, galaxy):
         """
-- 
2.43.0


From 37d1563fbc9795c8c52c3db58e47c685086df57d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:46:55 +0000
Subject: [PATCH 27/46] fix: keep the flat prior in step with changed parameter
 settings

---
 misfit/fit/fit2D.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/misfit/fit/fit2D.py b/misfit/fit/fit2D.py
index 5e4bcc3..954a2ed 100644
--- a/misfit/fit/fit2D.py
+++ b/misfit/fit/fit2D.py
@@ -369,6 +369,9 @@ class FitEmissionLines2D(object):
 
         if ((self.thetaPrior.name == 'ThetaPriorFlat') & \
                 (self.thetaSettings.theta_bounds is not None)):
+            # Keep in step with the current settings:
+            self.thetaPrior.theta = copy.deepcopy(self.kinModel.theta)
+            self.thetaPrior.theta_vary = copy.deepcopy(self.kinModel.theta_vary)
             self.thetaPrior.theta_bounds = copy.deepcopy(self.thetaSettings.theta_bounds)
 
 
-- 
2.43.0


From 5086b81ffd086327990163d8c92fc2b290771d6c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:51:18 +0000
Subject: [PATCH 28/46] fix: let a reloaded best-fit model be saved again

---
 misfit/fit/fit2D.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/misfit/fit/fit2D.py b/misfit/fit/fit2D.py
index 954a2ed..f5e9ead 100644
--- a/misfit/fit/fit2D.py
+++ b/misfit/fit/fit2D.py
@@ -438,7 +438,7 @@ class FitEmissionLines2D(object):
 
 
         # Clean up a few things:
-        del fitEmis2DResults.galaxy.pstamp
+        fitEmis2DResults.galaxy.pstamp = None
         if 'spec_hdr' in fitEmis2DResults.galaxy.spec2D.__dict__.keys():
             del fitEmis2DResults.galaxy.spec2D.spec_hdr
 
-- 
2.43.0


From 18d1625957dcadaff377465ee95454e31553cc5c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:51:18 +0000
Subject: [PATCH 29/46] fix: do not nest the previous best fits when
 re-analysing

---
 misfit/fit/fit2D.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/misfit/fit/fit2D.py b/misfit/fit/fit2D.py
index f5e9ead..d7a5118 100644
--- a/misfit/fit/fit2D.py
+++ b/misfit/fit/fit2D.py
@@ -399,7 +399,9 @@ class FitEmissionLines2D(object):
         Save a copy of the best-fit parameter model, including model, theta, theta_var
         """
         self.make_model(theta_fitting)
-        self.kinModel.bestfit = self.kinModel.copy()
+        bestfit = self.kinModel.copy()
+        bestfit.bestfit = None      # don't nest the previous best fit
+        self.kinModel.bestfit = bestfit
 
     def save_bestfit_model(self):
         """
-- 
2.43.0


From a4e97c9f0cdbfc16c2a54a97cf7492eab0dce3a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:23:30 +0000
Subject: [PATCH 30/46] fix: use the galaxy's own values in an intensity
 profile shared with a 1D rotation model

---
 misfit/model/aper_model.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/misfit/model/aper_model.py b/misfit/model/aper_model.py
index 48fb9aa..3758e51 100644
--- a/misfit/model/aper_model.py
+++ b/misfit/model/aper_model.py
@@ -408,6 +408,8 @@ class AperModel1DRot(AperModel1DBase):
         self.r = np.sqrt(self.xint**2+self.yint**2)
 
 
+        # The profile can be shared between models: use this galaxy's values
+        self.intensityProfile.update_values(self.galaxy)
         # Shape: (nZ,nY,nX)
         self.I_wide  = self.intensityProfile.int(self.r, self.zint)
 
-- 
2.43.0


From 2e2f7d56720bbbca4fb4b3c0304561524d926703 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:28:28 +0000
Subject: [PATCH 31/46] fix: do not turn an interrupt or a memory error inside
 the velocity profile into an infinite velocity

---
 misfit/model/kin_classes.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/misfit/model/kin_classes.py b/misfit/model/kin_classes.py
index 74e19bb..31f179c 100644
--- a/misfit/model/kin_classes.py
+++ b/misfit/model/kin_classes.py
@@ -69,7 +69,7 @@ class VelArctanProfile(VelProfile):
     def vel(self, r, z):
         try:
             return 2./np.pi * self.theta[0] * np.arctan( r /self.theta[1] )
-        except:
+        except (ZeroDivisionError, TypeError, IndexError):
             return np.inf
 
 
-- 
2.43.0


From 518ed2259413a824fb36e5047c59430bd5d03b01 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:28:41 +0000
Subject: [PATCH 32/46] fix: let interrupts through the fallbacks of the
 fitting, preparation and plotting code

---
 misfit/fit/fit_core.py          | 10 +++++-----
 misfit/fit/fit_io.py            | 18 +++++++++---------
 misfit/general/galaxy_utils.py  | 12 ++++++------
 misfit/general/general_utils.py |  4 ++--
 misfit/model/kin_functions.py   |  2 +-
 misfit/model/kin_model.py       |  2 +-
 misfit/plot/plot_bestfit.py     |  2 +-
 misfit/plot/plot_image_slit.py  | 20 ++++++++++----------
 misfit/plot/plot_utils.py       |  8 ++++----
 9 files changed, 39 insertions(+), 39 deletions(-)

diff --git a/misfit/fit/fit_core.py b/misfit/fit/fit_core.py
index 1ee2c8a..a9738f2 100644
--- a/misfit/fit/fit_core.py
+++ b/misfit/fit/fit_core.py
@@ -297,7 +297,7 @@ def _run_mcmc_emcee_221(fitEmis2D, fitEmis2D_fit=None):
 
             try:
                 acor_time = sampler.get_autocorr_time(fitEmis2D, low=5, c=10)
-            except:
+            except Exception:
                 acor_time = "Undefined, chain did not converge"
 
 
@@ -336,7 +336,7 @@ def _run_mcmc_emcee_221(fitEmis2D, fitEmis2D_fit=None):
                     f_log.write('nBurn is less than {}*acorr time \n'.format(nBurn_nEff))
                     f_log.write('#################\n')
                     # Give warning if the burn-in is less than say 2-3 times the autocorr time
-            except:
+            except Exception:
                 f_log.write('#################\n')
                 f_log.write("acorr time undefined -> can't check convergence\n")
                 f_log.write('#################\n')
@@ -440,7 +440,7 @@ def _run_mcmc_emcee_221(fitEmis2D, fitEmis2D_fit=None):
         try:
             #acor_time = [acor.acor(sampler.chain[:,:,jj])[0] for jj in range(sampler.dim)]
             acor_time = sampler.get_autocorr_time(fitEmis2D, low=5, c=10)
-        except:
+        except Exception:
             acor_time = "Undefined, chain not converged"
 
         #######################################################################################
@@ -670,7 +670,7 @@ def _run_mcmc_emcee_3_pool(fitEmis2D, fitEmis2D_fit, pool):
                     f_log.write('nBurn is less than {}*acorr time \n'.format(nBurn_nEff))
                     f_log.write('#################\n')
                     # Give warning if the burn-in is less than say 2-3 times the autocorr time
-            except:
+            except Exception:
                 f_log.write('#################\n')
                 f_log.write("acorr time undefined -> can't check convergence\n")
                 f_log.write('#################\n')
@@ -791,7 +791,7 @@ def _run_mcmc_emcee_3_pool(fitEmis2D, fitEmis2D_fit, pool):
         try:
             #acor_time = [acor.acor(sampler.chain[:,:,jj])[0] for jj in range(sampler.dim)]
             acor_time = sampler.get_autocorr_time(tol=10, quiet=True)
-        except:
+        except Exception:
             acor_time = "Undefined, chain not converged"
 
         #######################################################################################
diff --git a/misfit/fit/fit_io.py b/misfit/fit/fit_io.py
index a1197b3..c48485e 100644
--- a/misfit/fit/fit_io.py
+++ b/misfit/fit/fit_io.py
@@ -17,7 +17,7 @@ def make_emcee_sampler_dict(sampler,fitEmis2D=None, nBurn=0):
     # Cut first nBurn steps, to avoid the edge cases that are rarely explored.
     try:
         nDim = sampler.ndim
-    except:
+    except Exception:
         nDim = sampler.dim
     samples = sampler.chain[:, nBurn:, :].reshape((-1, nDim))
     # Walkers, iterations
@@ -25,7 +25,7 @@ def make_emcee_sampler_dict(sampler,fitEmis2D=None, nBurn=0):
 
     try:
         fitEmis2D_fit = sampler.args[0].copy()
-    except:
+    except Exception:
         fitEmis2D_fit = sampler.log_prob_fn.args[0].copy()
 
     # Drop the large space hogs:
@@ -47,33 +47,33 @@ def make_emcee_sampler_dict(sampler,fitEmis2D=None, nBurn=0):
 
     try:
         acor_time = sampler.get_autocorr_time(tol=10, quiet=True)
-    except:
+    except Exception:
         try:
             acor_time = sampler.get_autocorr_time(self, low=5, c=10)
-        except:
+        except Exception:
             acor_time = np.nan
 
     try:
         nDim = sampler.ndim
-    except:
+    except Exception:
         nDim = sampler.dim
 
     try:
         nWalkers = sampler.nwalkers
-    except:
+    except Exception:
         nWalkers = len(sampler.chain)
 
     try:
         nCPUs = sampler.threads
-    except:
+    except Exception:
         try:
             nCPUs = sampler.pool._processes   # sampler.threads
-        except:
+        except Exception:
             nCPUs = 1
 
     try:
         nIter = sampler.iteration
-    except:
+    except Exception:
         nIter = sampler.iterations
 
     # Make a dictionary:
diff --git a/misfit/general/galaxy_utils.py b/misfit/general/galaxy_utils.py
index c6bfb90..f464c2f 100644
--- a/misfit/general/galaxy_utils.py
+++ b/misfit/general/galaxy_utils.py
@@ -127,7 +127,7 @@ def trim_spectrum_2D_wavelength(spec2D, galaxy,
                 try:
                     spec2D.flux_incl_cont = spec2D.flux_incl_cont[:,wh]
                     spec2D.cont_model = spec2D.cont_model[:,wh]
-                except:
+                except Exception:
                     spec2D.flux_incl_cont = None
                     spec2D.cont_model = None
 
@@ -1057,7 +1057,7 @@ def vert_position(flux=None, err=None, obswave=None, obswave_val=None,
                 print("% misfit.galaxyutils: 10.*sp_arr.max()=", 10.*sp_arr.max())
                 try:
                     params.add('A', value=sp_arr.max(), min=0., max=10.*sp_arr.max())  # for pos image
-                except:
+                except Exception:
                     params.add('A', value=sp_arr.max(), min=0.)
                 params.add('C', value=0.)
                 params.add('sigma', value=5., min=0.)
@@ -1423,7 +1423,7 @@ def get_m0_lam0_pos_2D(spec2D, galaxy):
             else:
                 print( 'Warning in m0_shift_lam0_gausfits (too far from ypos)')
                 m0_shift = 0.
-        except:
+        except Exception:
             print( "Exception m0_shift_lam0_gausfits (yprof)")
             m0_shift = 0.
 
@@ -1458,7 +1458,7 @@ def get_m0_lam0_pos_2D(spec2D, galaxy):
             else:
                 print( 'Warning in m0_shfit_lam0_gausfits (lam mu not in range)')
                 lam0 = lam0_init
-        except:
+        except Exception:
             print( "Exception m0_shift_lam0_gausfits (lamprof)")
             lam0 = lam0_init
     else:
@@ -1653,7 +1653,7 @@ def fit_emission_y_profile(spec2D, gal, inst, filename_plot=None, plot=False, nu
                 ax.set_ylabel('Collapsed emission-line profile [arbitrary flux]')
                 try:
                     f_or_m = "-".join(gal.maskname.split("_"))
-                except:
+                except Exception:
                     f_or_m = gal.field
                 ax.set_title(r'{}.{}.{} (SLITOBJNAME: {})'.format(f_or_m, spec2D.band, np.int64(gal.ID), spec2D.slitobjname))
 
@@ -1664,7 +1664,7 @@ def fit_emission_y_profile(spec2D, gal, inst, filename_plot=None, plot=False, nu
                     _plt.show()
 
             # +++++++++++++++++++++++++++++++++++++++++++++++++++++++
-        except:
+        except Exception:
         #else:
             missing_val = -99.
             spec2D.D50 = missing_val
diff --git a/misfit/general/general_utils.py b/misfit/general/general_utils.py
index e376ea1..ebae7d4 100644
--- a/misfit/general/general_utils.py
+++ b/misfit/general/general_utils.py
@@ -203,7 +203,7 @@ def find_peak_gaussian_KDE(flatchain, initval):
     """
     try:
         nparams = flatchain.shape[1]
-    except:
+    except Exception:
         nparams = 1
 
     if nparams > 1:
@@ -246,7 +246,7 @@ def get_bestfit_values_linked(fitEmis2D, err_theta, mcmc_lims_zip,
     try:
         if theta_linked_posteriors.strip().lower() == 'all':
             theta_linked_posteriors = range(len(fitEmis2D.mcmc_results.bestfit_theta)-4)
-    except:
+    except Exception:
         pass
 
     # Reset output values:
diff --git a/misfit/model/kin_functions.py b/misfit/model/kin_functions.py
index 9c2cd50..8c9418e 100644
--- a/misfit/model/kin_functions.py
+++ b/misfit/model/kin_functions.py
@@ -480,7 +480,7 @@ def inst_convol_complete(model_out, wave_arr, inst_disp_wave):
         else:
             # Parses case of const wave dispersion / float for inst_disp_wave
             conv_type = 'const'
-    except:
+    except Exception:
         conv_type = 'const'
 
     # Make gaussian for convolution. Want peak centered on a pixel: xx needs to be odd numbered.
diff --git a/misfit/model/kin_model.py b/misfit/model/kin_model.py
index cc93c1b..82da7e6 100644
--- a/misfit/model/kin_model.py
+++ b/misfit/model/kin_model.py
@@ -121,7 +121,7 @@ class KinModel2D(object):
         if self.theta_init is None:
             try:
                 self.theta_init = self.theta.copy()
-            except:
+            except Exception:
                 self.theta_init = self.theta
 
         # Count number of free variables:
diff --git a/misfit/plot/plot_bestfit.py b/misfit/plot/plot_bestfit.py
index e5ded5f..db39045 100644
--- a/misfit/plot/plot_bestfit.py
+++ b/misfit/plot/plot_bestfit.py
@@ -153,7 +153,7 @@ def plot_bestfit_model(fitEmis2D, fileout=None, noTitles=False,
         print("% plot_bestfit:")
         try:
             print(fitEmis2D.galaxy.maskname, fitEmis2D.galaxy.ID)
-        except:
+        except Exception:
             print(fitEmis2D.galaxy.field, fitEmis2D.galaxy.ID)
         print("\t Plotting convolved, projected R_E")
         print("\t R_E int = {:0.3f}".format(re_arcsec_int) )
diff --git a/misfit/plot/plot_image_slit.py b/misfit/plot/plot_image_slit.py
index 0fd1f63..5b30ee8 100644
--- a/misfit/plot/plot_image_slit.py
+++ b/misfit/plot/plot_image_slit.py
@@ -126,7 +126,7 @@ def plot_image_slit(galaxy=None, instrument=None,
             # Here: care about slit_PA *ON IMAGE*
             # slit_PA_on_img = galaxy.spec2D.slit_PA - galaxy.pstamp.img_PA
             slit_PA = galaxy.spec2D.slit_PA - galaxy.pstamp.img_PA
-        except:
+        except Exception:
             slit_PA = galaxy.spec1D.slit_PA - galaxy.pstamp.img_PA
 
         # Rotate x0,y0:
@@ -273,7 +273,7 @@ def plot_image_slit(galaxy=None, instrument=None,
     if external_ax is False:
         try:
             title = r'\_{}'.join(galaxy.maskname.split('_'))+'.'+instrument_img.band+'.'+str(galaxy.ID)
-        except:
+        except Exception:
             title = r'\_{}'.join(galaxy.field.split('_'))+'.'+instrument_img.band+'.'+str(galaxy.ID)
         ax.set_title(title)
 
@@ -283,7 +283,7 @@ def plot_image_slit(galaxy=None, instrument=None,
     slit_wid = instrument.slit_width
     try:
         slit_len = instrument.slit_length
-    except:
+    except Exception:
         slit_len = np.shape(pstamp_trim)[0]+20.
 
     if rotate is True:
@@ -294,7 +294,7 @@ def plot_image_slit(galaxy=None, instrument=None,
             # Here: care about slit_PA *ON IMAGE*
             # slit_PA_on_img = galaxy.spec2D.slit_PA - galaxy.pstamp.img_PA
             slit_angle = galaxy.spec2D.slit_PA - galaxy.pstamp.img_PA
-        except:
+        except Exception:
             slit_angle = galaxy.spec1D.slit_PA - galaxy.pstamp.img_PA
 
     # Offset in slit coords -- pixels
@@ -329,7 +329,7 @@ def plot_image_slit(galaxy=None, instrument=None,
                 # Here: care about slit_PA *ON IMAGE*
                 # slit_PA_on_img = galaxy.spec2D.slit_PA - galaxy.pstamp.img_PA
                 galfit_angle = galaxy.sersicPA - ( galaxy.spec2D.slit_PA - galaxy.pstamp.img_PA)
-            except:
+            except Exception:
                 galfit_angle = galaxy.sersicPA - (galaxy.spec1D.slit_PA - galaxy.pstamp.img_PA)
             # eg galfit_angle = galaxy.delt_PA
             galfit_angle = np.arctan(np.tan(galfit_angle*np.pi/180.))*180./np.pi
@@ -380,7 +380,7 @@ def plot_image_slit(galaxy=None, instrument=None,
                 print("% misfit.plot.plot_image_slit:")
                 try:
                     print("{} {:d}".format(galaxy.maskname, galaxy.ID) )
-                except:
+                except Exception:
                     print(galaxy.field, galaxy.ID)
                 print("\t Using convolved R_E for ellipse")
                 print("\t R_E int = {:0.3f}".format(galaxy.re_arcsec) )
@@ -422,7 +422,7 @@ def plot_image_slit(galaxy=None, instrument=None,
             try:
                 len_line = 1.*(galaxy.re_arcsec/galaxy.re_kpc)*(1./pscale)
                 string = '1 kpc' # 1 kpc long
-            except:
+            except Exception:
                 len_line = 0.25/pscale
                 string = '0.25 arcsec' # 1 arcsec long:
 
@@ -513,7 +513,7 @@ def box_integrate(x, y, x_new, debug=False):
             ind_c.sort()
 
             int_y += np.sum(y[ind_c])*delt_x
-        except:
+        except Exception:
             ind_c = 'None'
 
 
@@ -527,7 +527,7 @@ def box_integrate(x, y, x_new, debug=False):
             # (x_high[ind_l] - low)
 
             int_y += y[ind_l]*(x_high[ind_l]-low)
-        except:
+        except Exception:
             ind_l = 'None'
 
         try:
@@ -537,7 +537,7 @@ def box_integrate(x, y, x_new, debug=False):
             # (high - x_low[ind_r])
 
             int_y += y[ind_r]*(high-x_low[ind_r])
-        except:
+        except Exception:
             ind_r = 'None'
 
         if debug:
diff --git a/misfit/plot/plot_utils.py b/misfit/plot/plot_utils.py
index 88b415c..6d3294c 100644
--- a/misfit/plot/plot_utils.py
+++ b/misfit/plot/plot_utils.py
@@ -25,11 +25,11 @@ def pstamp_position_angle(pstamp_hdr):
     # except:
     try:
         cd21 = pstamp_hdr['CD2_1']
-    except:
+    except Exception:
         cd21 = 0.
     try:
         cd22 = pstamp_hdr['CD2_2']
-    except:
+    except Exception:
         cd22 = 0.
 
     if (cd22 == 0.) and (cd21 == 0.):
@@ -106,7 +106,7 @@ def rotate_pstamp(galaxy):
         img_angle = galaxy.spec2D.slit_PA - galaxy.pstamp.img_PA
         #                     # scipy rotate needs positive angle to rotate CW,
                                 # opposite of convention otherwise used.
-    except:
+    except Exception:
         img_angle = galaxy.spec1D.slit_PA - galaxy.pstamp.img_PA
 
     pstamp_rot = scipyrotate(galaxy.pstamp.pstamp, img_angle,
@@ -189,7 +189,7 @@ def convolve_rot_gal(galaxy=None, instrument=None, instrument_img=None,
 
     try:
         slit_PA = galaxy.spec2D.slit_PA
-    except:
+    except Exception:
         slit_PA = galaxy.spec1D.slit_PA
 
 
-- 
2.43.0


From 74b6c1ac10fe14fca960540856af366855377ca8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:29:07 +0000
Subject: [PATCH 33/46] fix: draw the corner plot of a fit whose linked
 parameter sets are not pairs

---
 misfit/plot/plot_mcmc.py | 30 ++++++++++++------------------
 1 file changed, 12 insertions(+), 18 deletions(-)

diff --git a/misfit/plot/plot_mcmc.py b/misfit/plot/plot_mcmc.py
index 1438530..41a79d3 100644
--- a/misfit/plot/plot_mcmc.py
+++ b/misfit/plot/plot_mcmc.py
@@ -81,9 +81,15 @@ def plot_param_corner(fitEmis2D, fileout=None,verbose=False,showLinked=True,
 
     # If linked results:
     if (fitEmis2D.theta_linked_posteriors is not None) & (showLinked):
+        wh_free = np.where(fitEmis2D.kinModel.theta_vary)[0]
         for j in range(len(fitEmis2D.theta_linked_posteriors)):
-            ind = fitEmis2D.theta_linked_posteriors[j][0] + fitEmis2D.theta_linked_posteriors[j][1]*\
-                    samples.shape[1]
+            linked = fitEmis2D.theta_linked_posteriors[j]
+            # The curves show how a pair of free parameters is linked
+            #   (not eg 'all', single or derived parameters)
+            if isinstance(linked, str) or (np.size(linked) != 2) or (np.max(linked) >= len(wh_free)):
+                continue
+            ind = linked[0] + linked[1]*samples.shape[1]
+            linked = [wh_free[k] for k in linked]
 
             xlim = axes[ind].get_xlim()
             ylim = axes[ind].get_ylim()
@@ -98,22 +104,10 @@ def plot_param_corner(fitEmis2D, fileout=None,verbose=False,showLinked=True,
             ###
             theta_orig = fitEmis2D.kinModel.kinProfile.theta.copy()
             len_tmp = len(col2arr)
-            for i in range(len(fitEmis2D.kinModel.kinProfile.theta)):
-                if i in fitEmis2D.theta_linked_posteriors[j]:
-                    if i == fitEmis2D.theta_linked_posteriors[j][0]:
-                        theta_tmp = np.array([np.ones(len_tmp)])
-                    else:
-                        # The fixed dimension:
-                        theta_tmp = np.append(theta_tmp,
-                                    np.array([col2arr]), axis=0)
-                else:
-                    if i > 0:
-                        theta_tmp = np.append(theta_tmp,
-                                    np.array([np.repeat(fitEmis2D.kinModel.bestfit.theta[i],
-                                            len_tmp)]), axis=0)
-                    else:
-                        theta_tmp = np.array([np.repeat(fitEmis2D.kinModel.bestfit.theta[i],
-                                    len_tmp)])
+            theta_tmp = np.array([np.repeat(th, len_tmp) for th in fitEmis2D.kinModel.bestfit.theta])
+            theta_tmp[linked[0]] = np.ones(len_tmp)
+            # The fixed dimension:
+            theta_tmp[linked[1]] = col2arr
 
             fitEmis2D.kinProfile.update_theta(theta_tmp)
 
-- 
2.43.0


From a5c809e6d9575e4ebcfc79fbae6dcefa188061bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:32:14 +0000
Subject: [PATCH 34/46] fix: make a returned save durable, syncing the
 directory of the result file

---
 misfit/fit/fit_io.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/misfit/fit/fit_io.py b/misfit/fit/fit_io.py
index c48485e..36629f3 100644
--- a/misfit/fit/fit_io.py
+++ b/misfit/fit/fit_io.py
@@ -119,4 +119,11 @@ def dumppickle(data, filename=None):
         if os.path.exists(filename_tmp):
             os.remove(filename_tmp)
         raise
+    # The new directory entry has to reach the disk, too
+    if os.name == 'posix':
+        fd = os.open(os.path.dirname(filename), os.O_RDONLY)
+        try:
+            os.fsync(fd)
+        finally:
+            os.close(fd)
     return None
-- 
2.43.0


From 8a862d1ce481c147a84b8210f7def3332bb18d1b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:40:11 +0000
Subject: [PATCH 35/46] fix: do not write a fit's bounds into a prior shared
 with other fits

---
 misfit/fit/fit2D.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/misfit/fit/fit2D.py b/misfit/fit/fit2D.py
index d7a5118..029df7d 100644
--- a/misfit/fit/fit2D.py
+++ b/misfit/fit/fit2D.py
@@ -369,7 +369,8 @@ class FitEmissionLines2D(object):
 
         if ((self.thetaPrior.name == 'ThetaPriorFlat') & \
                 (self.thetaSettings.theta_bounds is not None)):
-            # Keep in step with the current settings:
+            # Keep in step with the current settings, leaving the caller's prior as it is:
+            self.thetaPrior = copy.deepcopy(self.thetaPrior)
             self.thetaPrior.theta = copy.deepcopy(self.kinModel.theta)
             self.thetaPrior.theta_vary = copy.deepcopy(self.kinModel.theta_vary)
             self.thetaPrior.theta_bounds = copy.deepcopy(self.thetaSettings.theta_bounds)
-- 
2.43.0


From d7bbd6af54b1b7b37eff91d97d1ebe9b1ee2bd1b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:24:09 +0000
Subject: [PATCH 36/46] fix: measure the 2sig uncertainties of linked
 parameters from the reported best fit

---
 misfit/fit/fit_core.py | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/misfit/fit/fit_core.py b/misfit/fit/fit_core.py
index a9738f2..38bb3b8 100644
--- a/misfit/fit/fit_core.py
+++ b/misfit/fit/fit_core.py
@@ -1108,11 +1108,9 @@ def get_param_posterior_bestfits(fitEmis2D):
             fitEmis2D.mcmc_results.bestfit_theta = mcmc_peak
             fitEmis2D.mcmc_results.err_theta_1sig = mcmc_uncertainties_1sig
 
-            mcmc_lims_zip = list(zip(*mcmc_limits_2sig))
-            mcmc_peak, mcmc_uncertainties_2sig = \
-                    utils.get_bestfit_values_linked(fitEmis2D,
-                    mcmc_uncertainties_2sig, mcmc_lims_zip,
-                    theta_linked_posteriors=fitEmis2D.theta_linked_posteriors[i]) #, debug=True)
+            # Same best-fit value for the 2sig bounds: finding the peak again can shift it slightly
+            mcmc_uncertainties_2sig = np.array([mcmc_peak-mcmc_limits_2sig[0],
+                                                mcmc_limits_2sig[1]-mcmc_peak]).T
             fitEmis2D.mcmc_results.err_theta_2sig = mcmc_uncertainties_2sig
 
     #############################################################################
-- 
2.43.0


From 1a592543c32137b2c7d5edaeec95d4e307eb639a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:30:14 +0000
Subject: [PATCH 37/46] fix: search for posterior peaks in units of the
 samples' spread

---
 misfit/general/general_utils.py | 22 +++++++++++++++++++---
 1 file changed, 19 insertions(+), 3 deletions(-)

diff --git a/misfit/general/general_utils.py b/misfit/general/general_utils.py
index ebae7d4..2f0ef79 100644
--- a/misfit/general/general_utils.py
+++ b/misfit/general/general_utils.py
@@ -214,7 +214,7 @@ def find_peak_gaussian_KDE(flatchain, initval):
                 peakvals[i] = flatchain[0,i]
                 continue
             kern = gaussian_kde(flatchain[:,i])
-            peakvals[i] = fmin(lambda x: -kern(x), initval[i], disp=False)[0]
+            peakvals[i] = _maximize_kde(kern, initval[i], flatchain[:,i].std())[0]
         return peakvals
     else:
         neg_kernel = gaussian_KDE_kernel_func(flatchain)
@@ -230,9 +230,25 @@ def find_peak_gaussian_KDE_multiD(flatchain, linked_inds, initval):
 
     nparams = len(linked_inds)
     kern = gaussian_kde(flatchain[:,linked_inds].T)
-    peakvals = fmin(lambda x: -kern(x), initval, disp=False)
 
-    return peakvals
+    return _maximize_kde(kern, initval, flatchain[:,linked_inds].std(axis=0))
+
+
+def _maximize_kde(kern, initval, scale):
+    """
+    Find the peak of the KDE near initval, stepping in units of the spread of the samples:
+    otherwise the search can stop at once if initval is about 0, or if the parameters
+    have very different scales.
+    """
+    initval, scale = np.atleast_1d(initval), np.atleast_1d(scale)
+    norm = kern(initval)
+    if norm[0] == 0.:
+        norm = 1.
+    simplex = np.append([np.zeros(len(initval))], 0.1*np.eye(len(initval)), axis=0)
+    offset = fmin(lambda x: -kern(initval + x*scale)/norm, np.zeros(len(initval)),
+                    initial_simplex=simplex, disp=False)
+
+    return initval + offset*scale
 
 
 
-- 
2.43.0


From 91ccef1f1afe92669452af4bdad86b68c6ac8403 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:49:12 +0000
Subject: [PATCH 38/46] fix: slit image plots with current matplotlib

annotate's text argument is no longer called s, and Ellipse takes its angle
by keyword only, so every plot of a galaxy with a postage stamp failed.
---
 misfit/plot/plot_image_slit.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/misfit/plot/plot_image_slit.py b/misfit/plot/plot_image_slit.py
index 5b30ee8..9e77368 100644
--- a/misfit/plot/plot_image_slit.py
+++ b/misfit/plot/plot_image_slit.py
@@ -374,7 +374,7 @@ def plot_image_slit(galaxy=None, instrument=None,
             ############
             # Information in sub-title:
             if external_ax is False:
-                ax.annotate(s=s, xy=[.5, 0.05], xycoords='figure fraction',
+                ax.annotate(s, xy=[.5, 0.05], xycoords='figure fraction',
                             ha='center', va='bottom')
             if verbose:
                 print("% misfit.plot.plot_image_slit:")
@@ -404,7 +404,7 @@ def plot_image_slit(galaxy=None, instrument=None,
 
             # Plot ellipse:
             ell = Ellipse((x0_gal,y0_gal), 2.*semi_minor/pscale,
-                            2.*semi_major/pscale, galfit_angle,
+                            2.*semi_major/pscale, angle=galfit_angle,
                             ec='blue', fc='none', fill=False, zorder=11)
 
             ####################################
-- 
2.43.0


From e2f6cc68be151d5a9de30f62f0e730cff60c9acd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:49:12 +0000
Subject: [PATCH 39/46] fix: close a plot's figure when its file cannot be
 written

---
 misfit/fit/fit1D.py            | 6 ++++--
 misfit/plot/plot_bestfit.py    | 6 ++++--
 misfit/plot/plot_image_slit.py | 6 ++++--
 misfit/plot/plot_mcmc.py       | 6 ++++--
 misfit/plot/plot_trace.py      | 6 ++++--
 5 files changed, 20 insertions(+), 10 deletions(-)

diff --git a/misfit/fit/fit1D.py b/misfit/fit/fit1D.py
index 921b0ba..40f2509 100644
--- a/misfit/fit/fit1D.py
+++ b/misfit/fit/fit1D.py
@@ -586,8 +586,10 @@ class FitEmissionLines1D(object):
             ax.set_ylim(ylim)
 
             print("Saving fitting plot to {}".format(plot_filename) )
-            plt.savefig(plot_filename, dpi=600)  #bbox_inches='tight',
-            plt.close(f)
+            try:
+                plt.savefig(plot_filename, dpi=600)  #bbox_inches='tight',
+            finally:
+                plt.close(f)
 
 
             ######
diff --git a/misfit/plot/plot_bestfit.py b/misfit/plot/plot_bestfit.py
index db39045..e5e4120 100644
--- a/misfit/plot/plot_bestfit.py
+++ b/misfit/plot/plot_bestfit.py
@@ -322,7 +322,9 @@ def plot_bestfit_model(fitEmis2D, fileout=None, noTitles=False,
 
 
     if fileout is not None:
-        plt.savefig(fileout, bbox_inches='tight', dpi=300)
-        plt.close(fig)
+        try:
+            plt.savefig(fileout, bbox_inches='tight', dpi=300)
+        finally:
+            plt.close(fig)
     else:
         plt.show()
diff --git a/misfit/plot/plot_image_slit.py b/misfit/plot/plot_image_slit.py
index 9e77368..9600c12 100644
--- a/misfit/plot/plot_image_slit.py
+++ b/misfit/plot/plot_image_slit.py
@@ -450,8 +450,10 @@ def plot_image_slit(galaxy=None, instrument=None,
 
     if external_ax is False:
         if saveToFile:
-            plt.savefig(fileout, bbox_inches='tight', dpi=300)
-            plt.close(fig)
+            try:
+                plt.savefig(fileout, bbox_inches='tight', dpi=300)
+            finally:
+                plt.close(fig)
         else:
             plt.show()
 
diff --git a/misfit/plot/plot_mcmc.py b/misfit/plot/plot_mcmc.py
index 41a79d3..5de10ec 100644
--- a/misfit/plot/plot_mcmc.py
+++ b/misfit/plot/plot_mcmc.py
@@ -214,8 +214,10 @@ def plot_param_corner(fitEmis2D, fileout=None,verbose=False,showLinked=True,
 
 
     if fileout is not None:
-        plt.savefig(fileout, bbox_inches='tight', dpi=300)
-        plt.close(fig)
+        try:
+            plt.savefig(fileout, bbox_inches='tight', dpi=300)
+        finally:
+            plt.close(fig)
     else:
         plt.show()
 
diff --git a/misfit/plot/plot_trace.py b/misfit/plot/plot_trace.py
index 6838f2c..8522707 100644
--- a/misfit/plot/plot_trace.py
+++ b/misfit/plot/plot_trace.py
@@ -80,8 +80,10 @@ def plot_trace(sampler_dict, fitEmis2D, fileout=None, usetex=True):
 
     #############################################################
     # Save to file:
-    plt.savefig(fileout, bbox_inches='tight', dpi=300)
-    plt.close()
+    try:
+        plt.savefig(fileout, bbox_inches='tight', dpi=300)
+    finally:
+        plt.close(f)
 
 
     return None
-- 
2.43.0


From 646aff20bf1b41ab691a6e8c55a9d000e15e8cae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:49:12 +0000
Subject: [PATCH 40/46] fix: draw walker traces without the global random
 numbers

With the trace plots switched on, a seeded run gave other samples than
with them off.
---
 misfit/plot/plot_trace.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/misfit/plot/plot_trace.py b/misfit/plot/plot_trace.py
index 8522707..286632a 100644
--- a/misfit/plot/plot_trace.py
+++ b/misfit/plot/plot_trace.py
@@ -53,7 +53,8 @@ def plot_trace(sampler_dict, fitEmis2D, fileout=None, usetex=True):
     cmap = cm.viridis
     alphaTrace = 0.8
     lwTrace = 1.5
-    trace_inds = np.random.randint(0,nWalkers, size=nTraceWalkers)
+    # (without using up global random numbers, which later fits depend on)
+    trace_inds = np.random.RandomState(0).randint(0,nWalkers, size=nTraceWalkers)
     trace_colors = []
     for i in range(nTraceWalkers):
         trace_colors.append(cmap(1./float(nTraceWalkers)*i))
-- 
2.43.0


From e448ef7f506f2357d97d5d7179bec18b452467e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:49:35 +0000
Subject: [PATCH 41/46] fix: draw the corner plot's linked curves with a copy
 of the profile

The plot changed the parameters of the fit's own profile (and of every
fit and model sharing it), left them changed when interrupted, and after a
best-fit model was reloaded gave the wrong profile back.
---
 misfit/plot/plot_mcmc.py | 15 +++++++--------
 1 file changed, 7 insertions(+), 8 deletions(-)

diff --git a/misfit/plot/plot_mcmc.py b/misfit/plot/plot_mcmc.py
index 5de10ec..f54c956 100644
--- a/misfit/plot/plot_mcmc.py
+++ b/misfit/plot/plot_mcmc.py
@@ -6,6 +6,8 @@
 
 from __future__ import print_function
 
+import copy
+
 import numpy as np
 import os
 # import six
@@ -102,21 +104,18 @@ def plot_param_corner(fitEmis2D, fileout=None,verbose=False,showLinked=True,
             v22_best = truths[-1]
 
             ###
-            theta_orig = fitEmis2D.kinModel.kinProfile.theta.copy()
             len_tmp = len(col2arr)
             theta_tmp = np.array([np.repeat(th, len_tmp) for th in fitEmis2D.kinModel.bestfit.theta])
             theta_tmp[linked[0]] = np.ones(len_tmp)
             # The fixed dimension:
             theta_tmp[linked[1]] = col2arr
 
-            fitEmis2D.kinProfile.update_theta(theta_tmp)
-
-            V_re_arr_dummy = fitEmis2D.kinModel.kinProfile.vel(fitEmis2D.galaxy.re_arcsec, 0.)
-            V_22_arr_dummy = fitEmis2D.kinModel.kinProfile.vel(2.2/1.676 * fitEmis2D.galaxy.re_arcsec, 0.)
-
+            # Leave the fit's own profile as it is
+            kinProfile = copy.deepcopy(fitEmis2D.kinModel.kinProfile)
+            kinProfile.update_theta(theta_tmp)
 
-            fitEmis2D.kinProfile.theta = theta_orig
-            fitEmis2D.kinProfile.update_theta(theta_orig)
+            V_re_arr_dummy = kinProfile.vel(fitEmis2D.galaxy.re_arcsec, 0.)
+            V_22_arr_dummy = kinProfile.vel(2.2/1.676 * fitEmis2D.galaxy.re_arcsec, 0.)
 
             #This only works if col1 variable is multiplicative only on the velProfile.
             col1arr_re = vre_best/V_re_arr_dummy
-- 
2.43.0


From 6b54316851a83cb2f976e6d713b0f0a55b24d97f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:50:22 +0000
Subject: [PATCH 42/46] fix: corner plots of fits whose dispersion or velocity
 is held fixed

---
 misfit/plot/plot_mcmc.py | 30 +++++++++++++++++++-----------
 1 file changed, 19 insertions(+), 11 deletions(-)

diff --git a/misfit/plot/plot_mcmc.py b/misfit/plot/plot_mcmc.py
index f54c956..591eaca 100644
--- a/misfit/plot/plot_mcmc.py
+++ b/misfit/plot/plot_mcmc.py
@@ -45,7 +45,14 @@ def plot_param_corner(fitEmis2D, fileout=None,verbose=False,showLinked=True,
     samples = fitEmis2D.sampler_dict['flatchain'][:,:-2]
 
 
+    # Parameters which did not vary (eg, V_RE of a fixed velocity) need a range of their own:
+    lower, upper = samples.min(axis=0), samples.max(axis=0)
+    fixed = (upper == lower)
+    lower[fixed] -= 0.5
+    upper[fixed] += 0.5
+
     fig = corner.corner(samples, labels=fitEmis2D.mcmc_results.theta_names_nice,
+                            range=list(zip(lower, upper)),
                             quantiles= [.02275, 0.15865, 0.84135, .97725],
                             truths=truths,
                             plot_datapoints=False,
@@ -139,17 +146,18 @@ def plot_param_corner(fitEmis2D, fileout=None,verbose=False,showLinked=True,
                             ha='left', va='bottom')
 
     # Annotate sigma
-    wh_sig = np.where(np.array(fitEmis2D.mcmc_results.theta_names) == 'sigma0')[0][0]
-    val = "%3.2f" % fitEmis2D.mcmc_results.bestfit_theta[wh_sig]
-    lower = "%3.2f" % fitEmis2D.mcmc_results.err_theta_1sig[wh_sig][0]
-    upper = "%3.2f" % fitEmis2D.mcmc_results.err_theta_1sig[wh_sig][1]
-    if usetex:
-        sig_string = r"$\sigma="+val+"^{"+upper+r"}_{"+lower+"}$"
-    else:
-        sig_string = "sigma="+val+"-"+lower+"+"+upper
-    fig.gca().annotate(sig_string, xy=(.33, 0.), xycoords="figure fraction",
-                        xytext=(0,2), textcoords="offset points",
-                        ha="right", va="bottom")
+    if 'sigma0' in fitEmis2D.mcmc_results.theta_names:  # not if held fixed
+        wh_sig = np.where(np.array(fitEmis2D.mcmc_results.theta_names) == 'sigma0')[0][0]
+        val = "%3.2f" % fitEmis2D.mcmc_results.bestfit_theta[wh_sig]
+        lower = "%3.2f" % fitEmis2D.mcmc_results.err_theta_1sig[wh_sig][0]
+        upper = "%3.2f" % fitEmis2D.mcmc_results.err_theta_1sig[wh_sig][1]
+        if usetex:
+            sig_string = r"$\sigma="+val+"^{"+upper+r"}_{"+lower+"}$"
+        else:
+            sig_string = "sigma="+val+"-"+lower+"+"+upper
+        fig.gca().annotate(sig_string, xy=(.33, 0.), xycoords="figure fraction",
+                            xytext=(0,2), textcoords="offset points",
+                            ha="right", va="bottom")
 
 
     # Annotate V(R_E)
-- 
2.43.0


From 8233d9f56151fc5fca51d7d1d91f8a13a9fc5410 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:50:36 +0000
Subject: [PATCH 43/46] fix: keep the emission profile's measurements when it
 is plotted

Any failure of the plot (always, as a spectrum has no slitobjname; or a file
that cannot be written) was taken for a failure of the measurement, whose
results were replaced by -99.
---
 misfit/general/galaxy_utils.py | 30 ++++++++++++++++++------------
 1 file changed, 18 insertions(+), 12 deletions(-)

diff --git a/misfit/general/galaxy_utils.py b/misfit/general/galaxy_utils.py
index f464c2f..6a2a140 100644
--- a/misfit/general/galaxy_utils.py
+++ b/misfit/general/galaxy_utils.py
@@ -1629,6 +1629,18 @@ def fit_emission_y_profile(spec2D, gal, inst, filename_plot=None, plot=False, nu
             spec2D.D50_err = values_err[2,:]
 
 
+        except Exception:
+        #else:
+            missing_val = -99.
+            spec2D.D50 = missing_val
+            spec2D.D50_err = np.array([missing_val,missing_val])
+            spec2D.sigma_y_emis_obs = missing_val
+            spec2D.sigma_y_emis_obs_err = np.array([missing_val,missing_val])
+            spec2D.sigma_y_emis_int = missing_val
+            spec2D.sigma_y_emis_int_err = np.array([missing_val,missing_val])
+            if (filename_plot is not None) | (plot is True):
+                _plt.close(fig)
+        else:
             # +++++++++++++++++++++++++++++++++++++++++++++++++++++++
             if (filename_plot is not None) | (plot is True):
 
@@ -1655,24 +1667,18 @@ def fit_emission_y_profile(spec2D, gal, inst, filename_plot=None, plot=False, nu
                     f_or_m = "-".join(gal.maskname.split("_"))
                 except Exception:
                     f_or_m = gal.field
-                ax.set_title(r'{}.{}.{} (SLITOBJNAME: {})'.format(f_or_m, spec2D.band, np.int64(gal.ID), spec2D.slitobjname))
+                ax.set_title(r'{}.{}.{} (SLITOBJNAME: {})'.format(f_or_m, spec2D.band, gal.ID,
+                            getattr(spec2D, 'slitobjname', None)))
 
                 if (filename_plot is not None):
-                    _plt.savefig(filename_plot, bbox_inches='tight', dpi=300)
-                    _plt.close(fig)
+                    try:
+                        _plt.savefig(filename_plot, bbox_inches='tight', dpi=300)
+                    finally:
+                        _plt.close(fig)
                 else:
                     _plt.show()
 
             # +++++++++++++++++++++++++++++++++++++++++++++++++++++++
-        except Exception:
-        #else:
-            missing_val = -99.
-            spec2D.D50 = missing_val
-            spec2D.D50_err = np.array([missing_val,missing_val])
-            spec2D.sigma_y_emis_obs = missing_val
-            spec2D.sigma_y_emis_obs_err = np.array([missing_val,missing_val])
-            spec2D.sigma_y_emis_int = missing_val
-            spec2D.sigma_y_emis_int_err = np.array([missing_val,missing_val])
     else:
 
         missing_val = -99.
-- 
2.43.0


From 31615f410cab0c37b7fb66e0c3fd734b0ae2ffdf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:51:59 +0000
Subject: [PATCH 44/46] fix: keep the samples when their trace plot fails

The finished run was only handed to the fit after the plot, so that a plot
file which could not be written lost it.
---
 misfit/fit/fit_core.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/misfit/fit/fit_core.py b/misfit/fit/fit_core.py
index 38bb3b8..9c1e53d 100644
--- a/misfit/fit/fit_core.py
+++ b/misfit/fit/fit_core.py
@@ -488,6 +488,8 @@ def _run_mcmc_emcee_221(fitEmis2D, fitEmis2D_fit=None):
     ##########################################
     ##########################################
 
+    fitEmis2D.sampler_dict = sampler_dict
+
     # --------------------------------
     # Plot trace, if output file set
     if fitEmis2D.mcmcOptions.filename_plot_trace is not None:
@@ -495,8 +497,6 @@ def _run_mcmc_emcee_221(fitEmis2D, fitEmis2D_fit=None):
                         fileout=fitEmis2D.mcmcOptions.filename_plot_trace,
                         usetex=fitEmis2D.usetex)
 
-    fitEmis2D.sampler_dict = sampler_dict
-
     return fitEmis2D
 
 #
@@ -842,14 +842,14 @@ def _run_mcmc_emcee_3_pool(fitEmis2D, fitEmis2D_fit, pool):
     ##########################################
     ##########################################
 
+    fitEmis2D.sampler_dict = sampler_dict
+
     # --------------------------------
     # Plot trace, if output file set
     if fitEmis2D.mcmcOptions.filename_plot_trace is not None:
         misfit_plot.plot_trace(sampler_dict, fitEmis2D,
                         fileout=fitEmis2D.mcmcOptions.filename_plot_trace)
 
-    fitEmis2D.sampler_dict = sampler_dict
-
     return fitEmis2D
 
 
-- 
2.43.0


From 722853a9108a1a2565aa99ce6d83cb9ff14773d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:51:59 +0000
Subject: [PATCH 45/46] fix: plot the data of a fit whose model is not set up
 yet

---
 misfit/plot/plot_bestfit.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/misfit/plot/plot_bestfit.py b/misfit/plot/plot_bestfit.py
index e5e4120..14b2c97 100644
--- a/misfit/plot/plot_bestfit.py
+++ b/misfit/plot/plot_bestfit.py
@@ -76,7 +76,7 @@ def plot_bestfit_model(fitEmis2D, fileout=None, noTitles=False,
 
     #
     # Pstamp + slit plot, image convolved to spectrum resolution:
-    if fitEmis2D.kinModel.bestfit is not None:
+    if (fitEmis2D.kinModel is not None) and (fitEmis2D.kinModel.bestfit is not None):
         m0shift = fitEmis2D.kinModel.bestfit.theta[-2]
     else:
         m0shift = 0.
-- 
2.43.0


From d7ddb417cca87b4a050905a4c5d6709c85f964c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:58:35 +0000
Subject: [PATCH 46/46] fix: let a 2D fit use the line tables set on its
 spectrum

---
 misfit/fit/fit2D.py | 20 +++++++++++++-------
 1 file changed, 13 insertions(+), 7 deletions(-)

diff --git a/misfit/fit/fit2D.py b/misfit/fit/fit2D.py
index 029df7d..be6ad4b 100644
--- a/misfit/fit/fit2D.py
+++ b/misfit/fit/fit2D.py
@@ -229,9 +229,11 @@ class FitEmissionLines2D(object):
         if (self.linenames_arr is None):
             if self.galaxy.spec2D.linenames_arr is None:
                 # linenames_arr = []
-                # set this from lib if not set:
-                d = os.path.join(os.path.dirname(os.path.dirname(__file__)), 'lib')
-                names_file = os.path.join(d, 'line_names_cat.dat')
+                # set this from the spectrum's table, or from lib if not set:
+                names_file = self.galaxy.spec2D.linenames_param_filename
+                if names_file is None:
+                    d = os.path.join(os.path.dirname(os.path.dirname(__file__)), 'lib')
+                    names_file = os.path.join(d, 'line_names_cat.dat')
                 self.linenames_arr = io.read_line_names(names_file, name=self.linegroup_name)
                 self.galaxy.spec2D.linenames_arr = self.linenames_arr
             else:
@@ -240,8 +242,10 @@ class FitEmissionLines2D(object):
         if (self.linenames_arr is not None) & (self.restwave_arr is None):
             if (self.galaxy.spec2D.linenames_arr is not None) & \
                     (self.galaxy.spec2D.restwave_arr is None):
-                d = os.path.join(os.path.dirname(os.path.dirname(__file__)), 'lib')
-                wave_file = os.path.join(d, 'line_wavelengths_ratios.dat')
+                wave_file = self.galaxy.spec2D.restwave_param_filename
+                if wave_file is None:
+                    d = os.path.join(os.path.dirname(os.path.dirname(__file__)), 'lib')
+                    wave_file = os.path.join(d, 'line_wavelengths_ratios.dat')
                 waves_arr = []
                 for linename in self.linenames_arr:
                     waves_arr.append(io.read_restwave(wave_file, linename=linename))
@@ -252,8 +256,10 @@ class FitEmissionLines2D(object):
 
         if (self.linenames_arr is not None) & (self.flux_ratio_arr is None):
             if (self.galaxy.spec2D.linenames_arr is not None) & (self.galaxy.spec2D.flux_ratio_arr is None):
-                d = os.path.join(os.path.dirname(os.path.dirname(__file__)), 'lib')
-                wave_file = os.path.join(d, 'line_wavelengths_ratios.dat')
+                wave_file = self.galaxy.spec2D.restwave_param_filename
+                if wave_file is None:
+                    d = os.path.join(os.path.dirname(os.path.dirname(__file__)), 'lib')
+                    wave_file = os.path.join(d, 'line_wavelengths_ratios.dat')
                 line_ratio_arr = []
                 for linename in self.linenames_arr:
                     line_ratio_arr.append(io.read_line_ratio(wave_file, linename=linename))
-- 
2.43.0

