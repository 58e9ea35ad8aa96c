From d1ae53e0b81b55c35eb19788a4bfe45023a26901 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:23:46 +0000
Subject: [PATCH 01/95] fix: fully ionised cells give zero signal in
 calc_dt_full, not NaN

---
 src/tools21cm/temperature.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/tools21cm/temperature.py b/src/tools21cm/temperature.py
index 815c4ae..8c37f0a 100755
--- a/src/tools21cm/temperature.py
+++ b/src/tools21cm/temperature.py
@@ -250,7 +250,9 @@ def _dt_full(rho, xi, Ts, z, correct):
                 # (so a fraction xi of the cell's volume is ionized) and that
                 # the temperature of the ionized part is T_HII
                 Ts_new = (Ts-xi*T_HII)/(1.-xi)
-                Ts_new[Ts_new < T_min] = T_min
+                # A fully ionized cell has no neutral part; its signal is zero
+                # whatever temperature is used.
+                Ts_new = np.where((xi >= 1) | (Ts_new < T_min), T_min, Ts_new)
                 if np.any(Ts_new < 0): print("WARNING: negative temperatures")
         else:
                 Ts_new=Ts
-- 
2.43.0


From 6f3351012942a5208799fae39a2a6f59523b46e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:23:46 +0000
Subject: [PATCH 02/95] fix: lightcone brightness temperature uses each slice's
 own redshift along any los axis

---
 src/tools21cm/temperature.py | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/src/tools21cm/temperature.py b/src/tools21cm/temperature.py
index 8c37f0a..90da8b1 100755
--- a/src/tools21cm/temperature.py
+++ b/src/tools21cm/temperature.py
@@ -147,7 +147,7 @@ def calc_dt_lightcone(xfrac, dens, lowest_z, los_axis = 2):
 	cdist_low = cosmo.z_to_cdist(lowest_z)
 	cdist = np.arange(xfrac.shape[los_axis])*cell_size + cdist_low
 	z = cosmo.cdist_to_z(cdist)
-	return _dt(dens, xfrac, z)
+	return _dt(dens, xfrac, _along_los(z, los_axis))
 
 def calc_dt_full_lightcone(xfrac, temp, dens, lowest_z, los_axis = 2, correct=True):
 	'''
@@ -191,7 +191,7 @@ def calc_dt_full_lightcone(xfrac, temp, dens, lowest_z, los_axis = 2, correct=Tr
 	cdist = np.arange(xfrac.shape[los_axis])*cell_size + cdist_low
 	z = cosmo.cdist_to_z(cdist)
 	print("Redshift: ", str(z))
-	return _dt_full(dens, xfrac,temp, z, correct)
+	return _dt_full(dens, xfrac,temp, _along_los(z, los_axis), correct)
 
 def mean_dt(z):
 	'''
@@ -212,6 +212,14 @@ def mean_dt(z):
 	return Cdt
 	
 
+def _along_los(z, los_axis):
+	'''
+	Reshape the redshift of each slice such that it varies along los_axis.
+	'''
+	shape = [1, 1, 1]
+	shape[los_axis] = -1
+	return np.reshape(z, shape)
+
 def _dt(rho, xi, z):
 		
 	rho_mean = const.rho_crit_0*const.OmegaB if rho.min()>=0 else 1
@@ -222,7 +230,6 @@ def _dt(rho, xi, z):
 	return dt
 
 def _dt_full(rho, xi, Ts, z, correct):
-        z = np.mean(z)
         print("Redshift:" , str(z))
         rho_mean = const.rho_crit_0*const.OmegaB
         Tcmb 	 = const.Tcmb0*(1+z) 
-- 
2.43.0


From 360ddda97ad5d4200ad296a375ae961e1aa55a10 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:26:25 +0000
Subject: [PATCH 03/95] fix: cdist_to_z interpolates the table of the current
 cosmology

---
 src/tools21cm/cosmo.py | 9 ++-------
 1 file changed, 2 insertions(+), 7 deletions(-)

diff --git a/src/tools21cm/cosmo.py b/src/tools21cm/cosmo.py
index 1c836b9..72eda55 100755
--- a/src/tools21cm/cosmo.py
+++ b/src/tools21cm/cosmo.py
@@ -161,13 +161,8 @@ def cdist_to_z(dist):
     '''
     dist = np.atleast_1d(dist)
     z = np.zeros_like(dist)
-    func        = interp1d(precalc_table_cdist, precalc_table_z, kind='cubic', bounds_error=False, fill_value="extrapolate")
-    z_min_guess = func(dist)-1 if type(dist)==float else func(dist.min())-1
-    z_max_guess = func(dist)+1 if type(dist)==float else func(dist.max())+1
-    table_z     = precalc_table_z[precalc_table_z>z_min_guess]
-    table_z     = table_z[table_z<z_max_guess]
-    table_cdist = z_to_cdist(table_z)
-    func = interp1d(table_cdist, table_z, kind='cubic', bounds_error=False, fill_value="extrapolate")
+    table_cdist = z_to_cdist(precalc_table_z) #for the current cosmology
+    func = interp1d(table_cdist, precalc_table_z, kind='cubic', bounds_error=False, fill_value="extrapolate")
     for i in range(len(dist)):
         z[i] = func(dist[i])
     return outputify(z)
-- 
2.43.0


From b7a59c916ad3c455398ff25e4d1f522f78a6da89 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:26:25 +0000
Subject: [PATCH 04/95] fix: distances, redshifts and ages of integer input are
 not truncated

---
 src/tools21cm/cosmo.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/tools21cm/cosmo.py b/src/tools21cm/cosmo.py
index 72eda55..6097ec7 100755
--- a/src/tools21cm/cosmo.py
+++ b/src/tools21cm/cosmo.py
@@ -138,7 +138,7 @@ def z_to_cdist(z):
         Comoving distance in Mpc
     '''
     z = np.atleast_1d(z)
-    dist = np.zeros_like(z)
+    dist = np.zeros(z.shape)
     for i in range(len(z)):
         Ez_func = lambda x: 1./np.sqrt(const.Omega0*(1.+x)**3+const.lam)
         dist[i] = const.c/const.H0 * quad(Ez_func, 0, z[i])[0]
@@ -160,7 +160,7 @@ def cdist_to_z(dist):
         
     '''
     dist = np.atleast_1d(dist)
-    z = np.zeros_like(dist)
+    z = np.zeros(dist.shape)
     table_cdist = z_to_cdist(precalc_table_z) #for the current cosmology
     func = interp1d(table_cdist, precalc_table_z, kind='cubic', bounds_error=False, fill_value="extrapolate")
     for i in range(len(dist)):
@@ -178,7 +178,7 @@ def z_to_age(z):
     '''
     z = np.atleast_1d(z)
     a = 1/(1+z)
-    tage = np.zeros_like(z)
+    tage = np.zeros(z.shape)
     for i in range(len(a)):
         Ea_func = lambda x: 1./x/np.sqrt(const.Omega0*x**-3+const.lam)
         tage[i] = 1/const.H0 * quad(Ea_func, 0, a[i])[0]
-- 
2.43.0


From 77db0374feb2f3d23ac4c8415a26c5aa63b87d6b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:26:25 +0000
Subject: [PATCH 05/95] fix: angular_size converts radians with pi, not 3.1415

---
 src/tools21cm/cosmo.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/tools21cm/cosmo.py b/src/tools21cm/cosmo.py
index 6097ec7..cbd5889 100755
--- a/src/tools21cm/cosmo.py
+++ b/src/tools21cm/cosmo.py
@@ -197,7 +197,7 @@ def angular_size(dl, z):
         
     '''
 
-    angle = 180./(3.1415)*3600.*dl*(1+z)**2/(1000*luminosity_distance(z))
+    angle = 180./np.pi*3600.*dl*(1+z)**2/(1000*luminosity_distance(z))
     return outputify(angle)
 
 
-- 
2.43.0


From 21088b6a283a031ce9e5f9adbd5aac154ce8a172 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:27:20 +0000
Subject: [PATCH 06/95] fix: setters of const update the constants derived from
 the parameter

---
 src/tools21cm/const.py | 23 ++++++++++++++++++++---
 1 file changed, 20 insertions(+), 3 deletions(-)

diff --git a/src/tools21cm/const.py b/src/tools21cm/const.py
index 810a56c..cdb0247 100755
--- a/src/tools21cm/const.py
+++ b/src/tools21cm/const.py
@@ -27,6 +27,7 @@ def set_abundance_helium(value):
 	global abu_he_mass, abu_h_mass
 	abu_he_mass = value
 	abu_h_mass = 1.0-abu_he_mass
+	_update_derived()
 
 mean_molecular = 1.0/(1.0-abu_he_mass)
 solar_masses_per_gram = 5.02785431e-34
@@ -43,6 +44,19 @@ sigma_8 = 0.8
 
 q0 = 0.5*Omega0 - lam
 
+def _update_derived():
+	'''
+	Recalculate the constants that depend on the cosmological parameters.
+	'''
+	global mean_molecular, q0, H0cgs, rho_crit_0, rho_matter, num_h_0, meandt
+	mean_molecular = 1.0/(1.0-abu_he_mass)
+	q0 = 0.5*Omega0 - lam
+	H0cgs = H0*1e5/Mpc
+	rho_crit_0 = 3.0*H0cgs*H0cgs/(8.0*np.pi*G_grav)
+	rho_matter = rho_crit_0*Omega0
+	num_h_0 = (1-abu_he_mass)*OmegaB*rho_crit_0/m_p
+	meandt = 3.0*lambda0**3/(32.*np.pi)*A10*Tstar*num_h_0/(H0cgs/h)*1000.
+
 # Set cosmological parameter
 def set_hubble_h(value):
 	'''
@@ -51,15 +65,16 @@ def set_hubble_h(value):
 	global h, H0
 	h  = value 
 	H0 = 100.0*h
+	_update_derived()
 
 def set_omega_matter(value): 
 	'''
 	Define new omega matter value.
 	'''
-	global Omega0, lam, q0
+	global Omega0, lam
 	Omega0 = value
 	lam = 1.0-Omega0
-	q0 = 0.5*Omega0 - lam
+	_update_derived()
 	# print(Omega0, q0)
 
 def set_omega_baryon(value):
@@ -68,14 +83,16 @@ def set_omega_baryon(value):
 	'''
 	global OmegaB
 	OmegaB = value 
+	_update_derived()
 
 def set_omega_lambda(value):
 	'''
 	Define new omega lambda value.
 	'''
-	global lam
+	global lam, OmegaL
 	lam = value 
 	OmegaL = value
+	_update_derived()
 
 def set_ns(value):
 	'''
-- 
2.43.0


From 651c085b5668150a5400e8b7efad276cdf9cf261 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:28:32 +0000
Subject: [PATCH 07/95] fix: an invalid box size leaves the simulation
 constants unchanged

---
 src/tools21cm/conv.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/tools21cm/conv.py b/src/tools21cm/conv.py
index ac939b4..78457b1 100755
--- a/src/tools21cm/conv.py
+++ b/src/tools21cm/conv.py
@@ -31,6 +31,7 @@ def set_sim_constants(boxsize_cMpc):
 	'''
 	global boxsize, LB, nbox_fine, M_box, M_grid, lscale, tscale, velconvert
 
+	boxsize_old, LB_old = boxsize, LB
 	boxsize = boxsize_cMpc
 	LB = boxsize/const.h	
 	if hf.flt_comp(boxsize, 425.):
@@ -58,6 +59,7 @@ def set_sim_constants(boxsize_cMpc):
 		hf.print_msg('Setting_conversion_factors for 200/h Mpc box')
 		nbox_fine = 3456
 	else:
+		boxsize, LB = boxsize_old, LB_old
 		raise Exception('Invalid boxsize (%.3f cMpc)' % boxsize_cMpc)
 
 	M_box      = const.rho_matter*(LB*const.Mpc)**3 # mass in box (g, not M0)
-- 
2.43.0


From e4f29e7ff9986d440281763290c44b77d62cbc8b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:52:53 +0000
Subject: [PATCH 08/95] fix: luminosity_distance returns a scalar for a scalar
 without Lambda too

---
 src/tools21cm/cosmo.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/tools21cm/cosmo.py b/src/tools21cm/cosmo.py
index cbd5889..f323b2e 100755
--- a/src/tools21cm/cosmo.py
+++ b/src/tools21cm/cosmo.py
@@ -112,7 +112,7 @@ def luminosity_distance(z, k=0):
     if const.lam == 0:
         denom = np.sqrt(1+2*const.q0*z) + 1 + const.q0*z 
         dlum = (const.c*z/const.H0)*(1 + z*(1-const.q0)/denom)
-        return dlum
+        return outputify(dlum)
     else:
         dlum = np.zeros(n)
         for i in range(n):
-- 
2.43.0


From 31b4337afb1245b0bed1e796f9ea050e4936d5fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:54:17 +0000
Subject: [PATCH 09/95] fix: tau_map sorts the redshifts and the lightcone like
 tau does

---
 src/tools21cm/tau.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/tools21cm/tau.py b/src/tools21cm/tau.py
index 4b4e835..b7fe161 100755
--- a/src/tools21cm/tau.py
+++ b/src/tools21cm/tau.py
@@ -114,6 +114,9 @@ def tau_map(ionfractions, redshifts=None, num_points=50, reading_function=None):
     else:
         lightcone, output_z = make_lightcone(ionfractions, file_redshifts=redshifts, reading_function=reading_function)
 
+    order = np.argsort(output_z)
+    lightcone, output_z = lightcone[:, :, order], np.asarray(output_z)[order]
+
     sigma_T = 6.65e-25  # Thomson scattering cross-section in cm^2
     chi1 = 1.0 + const.abu_he  # Accounting for Helium abundance
     coeff = (2.0 * const.c * 1e5 * sigma_T * const.OmegaB / const.Omega0 * const.rho_crit_0 *
-- 
2.43.0


From d62bad9e30469f53e671e81cb5df41115edd9628 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:54:17 +0000
Subject: [PATCH 10/95] fix: signal_overdensity accepts negative line-of-sight
 axes

---
 src/tools21cm/statistics.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/tools21cm/statistics.py b/src/tools21cm/statistics.py
index 615becf..7449381 100755
--- a/src/tools21cm/statistics.py
+++ b/src/tools21cm/statistics.py
@@ -101,11 +101,11 @@ def signal_overdensity(signal, los_axis):
 	signal_out = signal.copy()
 	
 	for i in range(signal.shape[los_axis]):
-		if los_axis == 0:
+		if los_axis in [0,-3]:
 			signal_out[i,:,:] /= signal[i,:,:].mean()
-		if los_axis == 1:
+		if los_axis in [1,-2]:
 			signal_out[:,i,:] /= signal[:,i,:].mean()
-		if los_axis == 2:
+		if los_axis in [2,-1]:
 			signal_out[:,:,i] /= signal[:,:,i].mean()
 
 	return signal_out - 1.
-- 
2.43.0


From 168f14627a0668f380b2ab70dd01422a9d622a4b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:12:05 +0000
Subject: [PATCH 11/95] fix: make_lightcone reads the lower cube when a bracket
 has been skipped

---
 src/tools21cm/lightcone.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/tools21cm/lightcone.py b/src/tools21cm/lightcone.py
index 4ad32fa..d8032ee 100755
--- a/src/tools21cm/lightcone.py
+++ b/src/tools21cm/lightcone.py
@@ -129,7 +129,7 @@ def make_lightcone(filenames, z_low = None, z_high = None, depth_mhz = None, fil
         if z_bracket_low_new != z_bracket_low:
             z_bracket_low = z_bracket_low_new
             file_idx = np.argmin(np.abs(file_redshifts - z_bracket_low))
-            if data_high is None:
+            if data_high is None or z_bracket_low != z_bracket_high:
                 if reading_function is None: data_low, datatype = get_data_and_type(filenames[file_idx], cbin_bits, cbin_order, raw_density)
                 else: data_low = reading_function(filenames[file_idx])#; print('yes')
             else: #No need to read the file again
-- 
2.43.0


From 02f8125fe71afdc54c58c5925ca1685c07b49740 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:12:05 +0000
Subject: [PATCH 12/95] fix: step interpolation changes cube at the middle of
 the bracket

---
 src/tools21cm/lightcone.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/tools21cm/lightcone.py b/src/tools21cm/lightcone.py
index d8032ee..7bf8d51 100755
--- a/src/tools21cm/lightcone.py
+++ b/src/tools21cm/lightcone.py
@@ -440,7 +440,7 @@ def _get_interp_slice(data_high, data_low, z_bracket_high, z_bracket_low, z, \
         slice_interp = ((z-z_bracket_low)*slice_high + \
                     (z_bracket_high - z)*slice_low)/(z_bracket_high-z_bracket_low)
     elif interpolation == 'step':
-        transition_z = (z_bracket_high-z_bracket_low)/2.
+        transition_z = (z_bracket_high+z_bracket_low)/2.
         if z < transition_z:
             slice_interp = slice_low.copy()
         else:
-- 
2.43.0


From 3e68dc7c1b11daf925034724381a806aeef9d1cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:13:07 +0000
Subject: [PATCH 13/95] fix: a lightcone slice at the highest redshift belongs
 to the last bracket

---
 src/tools21cm/lightcone.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/tools21cm/lightcone.py b/src/tools21cm/lightcone.py
index 7bf8d51..41b18e2 100755
--- a/src/tools21cm/lightcone.py
+++ b/src/tools21cm/lightcone.py
@@ -122,8 +122,9 @@ def make_lightcone(filenames, z_low = None, z_high = None, depth_mhz = None, fil
     time.sleep(1)
     for ii in tqdm(range(len(output_z))):
         z = output_z[ii]
-        z_bracket_low_new = file_redshifts[file_redshifts <= z].max()
-        z_bracket_high_new = file_redshifts[file_redshifts > z].min()
+        # a slice at the highest redshift belongs to the last bracket
+        z_bracket_high_new = file_redshifts[(file_redshifts > z) | (file_redshifts == np.max(file_redshifts))].min()
+        z_bracket_low_new = file_redshifts[file_redshifts < z_bracket_high_new].max()
         
         #Do we need a new file for the low z?
         if z_bracket_low_new != z_bracket_low:
@@ -241,8 +242,9 @@ def make_velocity_lightcone(vel_filenames, dens_filenames, z_low = None, \
     time.sleep(1)
     for ii in tqdm(range(len(output_z))):
         z = output_z[ii]
-        z_bracket_low_new = file_redshifts[file_redshifts <= z].max()
-        z_bracket_high_new = file_redshifts[file_redshifts > z].min()
+        # a slice at the highest redshift belongs to the last bracket
+        z_bracket_high_new = file_redshifts[(file_redshifts > z) | (file_redshifts == np.max(file_redshifts))].min()
+        z_bracket_low_new = file_redshifts[file_redshifts < z_bracket_high_new].max()
         
         if z_bracket_low_new != z_bracket_low:
             z_bracket_low = z_bracket_low_new
-- 
2.43.0


From 2b73e4533f403954b8435234140812e488eccb4f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:44:51 +0000
Subject: [PATCH 14/95] fix: get_lightcone_subvolume reports the last slice it
 returns, not one past the end

---
 src/tools21cm/lightcone.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/tools21cm/lightcone.py b/src/tools21cm/lightcone.py
index 41b18e2..62f15ab 100755
--- a/src/tools21cm/lightcone.py
+++ b/src/tools21cm/lightcone.py
@@ -421,7 +421,7 @@ def get_lightcone_subvolume(lightcone, redshifts, central_z, \
     box_depth = max_cdist-min_cdist
     box_dims = (fov_Mpc, fov_Mpc, box_depth)
     if(verbose): 
-        print('Slice redshift: %.3f %.3f' %(redshifts[low_n], redshifts[high_n]))
+        print('Slice redshift: %.3f %.3f' %(redshifts[low_n], redshifts[high_n-1]))
         print('Slice frequencies (MHz): %.1f %.1f' %(min_freq, max_freq))
         print('Slice comoving distances (cMpc): %.2f %.2f' %(min_cdist, max_cdist))
         print('Slice indices:', low_n, high_n)
-- 
2.43.0


From e7136d04013efaa07f3d0e0031f80eb075f219af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:46:25 +0000
Subject: [PATCH 15/95] fix: get_distorted_dt does not truncate the result for
 integer input

---
 src/tools21cm/pv_mpm.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/tools21cm/pv_mpm.py b/src/tools21cm/pv_mpm.py
index a2c01a9..761e42d 100755
--- a/src/tools21cm/pv_mpm.py
+++ b/src/tools21cm/pv_mpm.py
@@ -83,7 +83,7 @@ def get_distorted_dt(dT, kms, redsh, los_axis=0, velocity_axis = 0, num_particle
     dr = (1.+z_obs)*vpar/const.Hz(z_obs)
 
     #Make the distorted box
-    distbox = np.zeros_like(dT)
+    distbox = np.zeros(dT.shape, dtype=np.result_type(dT.dtype, np.float32))
     particle_dT = np.zeros(grid_depth*num_particles)
 
     last_percent = 0
-- 
2.43.0


From 16c5b59683f580ba0adc33c77b0b882d8cbce271 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:50:40 +0000
Subject: [PATCH 16/95] fix: circular fftconvolve does not shift the result of
 odd-sized kernels by one cell

---
 src/tools21cm/fft_functions.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/tools21cm/fft_functions.py b/src/tools21cm/fft_functions.py
index 11b752c..d5758b5 100644
--- a/src/tools21cm/fft_functions.py
+++ b/src/tools21cm/fft_functions.py
@@ -107,7 +107,7 @@ def fftconvolve(in1, in2, mode='same', boundary='circular', backend='numpy', dev
             ret = torch_fft.ifftn(f1 * f2, s=fsize, dim=calc_axes)
 
         if boundary == 'circular':
-            return torch.roll(ret, shifts=tuple((-s2 // 2).tolist()), dims=calc_axes)
+            return torch.roll(ret, shifts=tuple((-(s2 // 2)).tolist()), dims=calc_axes)
 
     # --- 3. JAX Backend ---
     elif backend == 'jax':
@@ -132,7 +132,7 @@ def fftconvolve(in1, in2, mode='same', boundary='circular', backend='numpy', dev
             ret = jnp.fft.ifftn(f1 * f2, s=fsize, axes=calc_axes)
 
         if boundary == 'circular':
-            return jnp.roll(ret, shift=tuple((-s2 // 2).tolist()), axis=calc_axes)
+            return jnp.roll(ret, shift=tuple((-(s2 // 2)).tolist()), axis=calc_axes)
 
     # --- 4. NumPy Backend ---
     elif backend == 'numpy':
@@ -154,7 +154,7 @@ def fftconvolve(in1, in2, mode='same', boundary='circular', backend='numpy', dev
             ret = np.fft.ifftn(f1 * f2, s=fsize, axes=calc_axes)
 
         if boundary == 'circular':
-            return np.roll(ret, shift=tuple((-s2 // 2).tolist()), axis=calc_axes)
+            return np.roll(ret, shift=tuple((-(s2 // 2)).tolist()), axis=calc_axes)
 
     # --- 5. Cropping Logic (Applies to all backends) ---
     if do_pad:
-- 
2.43.0


From 6244483f3c4df83b2a3de8310b74fe8bba7c1a31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:50:40 +0000
Subject: [PATCH 17/95] fix: padded fftconvolve is centred for even-sized
 kernels

---
 src/tools21cm/fft_functions.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/tools21cm/fft_functions.py b/src/tools21cm/fft_functions.py
index d5758b5..226b6dd 100644
--- a/src/tools21cm/fft_functions.py
+++ b/src/tools21cm/fft_functions.py
@@ -71,8 +71,8 @@ def fftconvolve(in1, in2, mode='same', boundary='circular', backend='numpy', dev
         do_pad = False
     else: 
         do_pad = True
-        pad_before = s2 - 1 if mode == 'full' else s2 // 2
-        pad_after = s2 - 1 if mode == 'full' else s2 - 1 - (s2 // 2)
+        pad_before = s2 - 1 if mode == 'full' else s2 - 1 - (s2 // 2)
+        pad_after = s2 - 1 if mode == 'full' else s2 // 2
         fsize = tuple((s1 + pad_before + pad_after + s2 - 1).tolist())
 
     # --- 2. PyTorch Backend ---
-- 
2.43.0


From cb4628119f8cba831676372edf6653728db78a5e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:50:40 +0000
Subject: [PATCH 18/95] fix: smooth_tophat is periodic for even array sizes and
 preserves the mean

---
 src/tools21cm/smoothing.py | 9 ---------
 1 file changed, 9 deletions(-)

diff --git a/src/tools21cm/smoothing.py b/src/tools21cm/smoothing.py
index 2a5e27b..d4d2f4d 100755
--- a/src/tools21cm/smoothing.py
+++ b/src/tools21cm/smoothing.py
@@ -197,15 +197,6 @@ def smooth_tophat(input_array, tophat_width):
                 The smoothed array. A numpy array with the same
                 dimensions as the input.
         '''
-        #For some reason fftconvolve works produces edge effects with
-        #an even number of cells, so we pad the array with an extra pixel
-        #if this is the case
-        if input_array.shape[0] % 2 == 0:
-                from .angular_coordinates import _get_padded_slice
-                padded = _get_padded_slice(input_array, input_array.shape[0]+1)
-                out = smooth_tophat(padded, tophat_width)
-                return out[:-1,:-1]
-        
         kernel = tophat_kernel(input_array.shape[0], tophat_width)
         return smooth_with_kernel(input_array, kernel)
 
-- 
2.43.0


From a5202f9b17ae855af8c882475c30a3b545f5a9ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:50:40 +0000
Subject: [PATCH 19/95] fix: top-hat kernels wider than the array cover the
 whole array

---
 src/tools21cm/smoothing.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/tools21cm/smoothing.py b/src/tools21cm/smoothing.py
index d4d2f4d..88af97b 100755
--- a/src/tools21cm/smoothing.py
+++ b/src/tools21cm/smoothing.py
@@ -98,7 +98,7 @@ def tophat_kernel(size, tophat_width):
         '''
         kernel   = np.zeros((size,size))
         center   = kernel.shape[0]/2
-        idx_low  = int(center-np.floor(tophat_width/2.))
+        idx_low  = max(int(center-np.floor(tophat_width/2.)), 0)
         idx_high = int(center+np.ceil(tophat_width/2.))
         kernel[idx_low:idx_high, idx_low:idx_high] = 1.
         kernel /= np.sum(kernel)
@@ -122,7 +122,7 @@ def tophat_kernel_3d(size, tophat_width, shape="cube"):
         kernel = np.zeros((size, size, size))
         if shape == "cube":
                 center   = kernel.shape[0]/2 
-                idx_low  = int(center-np.floor(tophat_width/2.))
+                idx_low  = max(int(center-np.floor(tophat_width/2.)), 0)
                 idx_high = int(center+np.ceil(tophat_width/2.))
                 kernel[idx_low:idx_high, idx_low:idx_high, idx_low:idx_high ] = 1.
         else:
-- 
2.43.0


From c5f0f3266bd8ba53c9680b151488ba2d67aa5533 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:50:40 +0000
Subject: [PATCH 20/95] fix: every smooth_line window is normalised

---
 src/tools21cm/smoothing.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/tools21cm/smoothing.py b/src/tools21cm/smoothing.py
index 88af97b..6e4e126 100755
--- a/src/tools21cm/smoothing.py
+++ b/src/tools21cm/smoothing.py
@@ -634,13 +634,15 @@ def smooth_line(y, window=3, kind='tophat'):
             window = window / window.sum()
         elif kind.lower() == 'hamming':
             window = np.hamming(window)
+            window /= np.sum(window)
         elif kind.lower() == 'hanning':
             window = np.hanning(window)
+            window /= np.sum(window)
         else:
             raise ValueError(f"Unsupported window kind: '{kind}'. Choose from 'tophat', 'gaussian', 'triangular', 'hamming', or 'hanning'.")
     elif isinstance(window, (list, np.ndarray)):
         window = np.array(window)
-        window /= np.sum(window)  # Ensure the custom window is normalized
+        window = window / np.sum(window)  # Ensure the custom window is normalized
     else:
         raise ValueError("Window must be an integer or an array-like object.")
 
-- 
2.43.0


From 32050a51eb2d9e5b980f7f47eebe028e84e3a62b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:50:40 +0000
Subject: [PATCH 21/95] fix: smooth_lightcone accepts the lowest redshift as a
 number

---
 src/tools21cm/smoothing.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/tools21cm/smoothing.py b/src/tools21cm/smoothing.py
index 6e4e126..3950335 100755
--- a/src/tools21cm/smoothing.py
+++ b/src/tools21cm/smoothing.py
@@ -339,8 +339,8 @@ def smooth_lightcone(lightcone, z_array, box_size_mpc=False, max_baseline=2., ra
                 (Smoothed_lightcone, redshifts) 
         """
         if (not box_size_mpc): box_size_mpc=conv.LB
-        if(z_array.shape[0] == lightcone.shape[2]):
-                input_redshifts = z_array.copy()
+        if(np.size(z_array) == lightcone.shape[2]):
+                input_redshifts = np.array(z_array)
         else:
                 z_low = z_array
                 cell_size = 1.0*box_size_mpc/lightcone.shape[0]
-- 
2.43.0


From 5bedf9545a6063df51c248d6467433bdb226f936 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:50:40 +0000
Subject: [PATCH 22/95] fix: convolve_uvmap_coeval keeps the axes of the cube

---
 src/tools21cm/smoothing.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/tools21cm/smoothing.py b/src/tools21cm/smoothing.py
index 3950335..8238063 100755
--- a/src/tools21cm/smoothing.py
+++ b/src/tools21cm/smoothing.py
@@ -565,7 +565,7 @@ def convolve_uvmap_coeval(cube, z, box_size_mpc=False, max_baseline=2., ratio=1.
         if isinstance(max_baseline,u.Quantity):
                max_baseline = max_baseline.to('km').value
         if uv_map is None: 
-                uv_map, N_ant  = get_uv_map(array.shape[0],
+                uv_map, N_ant  = get_uv_map(cube.shape[0],
                                                 z,
                                                 filename=filename,
                                                 total_int_time=total_int_time,
@@ -582,6 +582,7 @@ def convolve_uvmap_coeval(cube, z, box_size_mpc=False, max_baseline=2., ratio=1.
         output_cube = smooth_coeval_tophat(cube, output_ang_res*ratio, nu_axis=nu_axis, verbose=verbose)
         if nu_axis not in [2,-1]: output_cube = np.swapaxes(output_cube,nu_axis,2)
         output_cube = np.array([convolve_uvmap(output_cube[:,:,i], uv_map=uv_map, verbose=verbose, box_size_mpc=box_size_mpc) for i in tqdm(range(output_cube.shape[2]),disable=not verbose)])
+        output_cube = np.moveaxis(output_cube, 0, 2)
         if nu_axis not in [2,-1]: output_cube = np.swapaxes(output_cube,nu_axis,2)
         return output_cube
 
-- 
2.43.0


From 41dee6303ce15d0ff3550da69349d0d6e8ff56e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:50:41 +0000
Subject: [PATCH 23/95] fix: find_idx does not clamp the caller's array

---
 src/tools21cm/helper_functions.py | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/src/tools21cm/helper_functions.py b/src/tools21cm/helper_functions.py
index bcf86a6..408f031 100755
--- a/src/tools21cm/helper_functions.py
+++ b/src/tools21cm/helper_functions.py
@@ -526,9 +526,7 @@ def find_idx(ar, values):
         '''
         
         #Make input into an array and clamp outliers
-        values = np.atleast_1d(values)
-        values[values > ar.max()] = ar.max()
-        values[values < ar.min()] = ar.min()
+        values = np.clip(np.atleast_1d(values), ar.min(), ar.max())
         
         #Make sure that the values are monotonically increasing/decreasing
         dv = ar[1:]-ar[:-1]
-- 
2.43.0


From 0f6428b6a03195d5e2e0ff151b01ea3c9104a6d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:57:31 +0000
Subject: [PATCH 24/95] fix: spectral windows leave the input unchanged and may
 be arrays

---
 src/tools21cm/power_spectrum.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/tools21cm/power_spectrum.py b/src/tools21cm/power_spectrum.py
index 2faaa86..33dca4e 100755
--- a/src/tools21cm/power_spectrum.py
+++ b/src/tools21cm/power_spectrum.py
@@ -12,12 +12,14 @@ from scipy import fftpack, stats
 def apply_window(input_array, window):
     if window is None: return input_array
     from scipy.signal import windows
-    if window.lower()=='blackmanharris':
-            input_array *= windows.blackmanharris(input_array.shape[-1])[None,None,:]
+    if not isinstance(window, str):
+            input_array = input_array * window
+    elif window.lower()=='blackmanharris':
+            input_array = input_array * windows.blackmanharris(input_array.shape[-1])[None,None,:]
     elif window.lower()=='tukey':
-            input_array *= windows.tukey(input_array.shape[-1])[None,None,:]
+            input_array = input_array * windows.tukey(input_array.shape[-1])[None,None,:]
     else:
-            input_array *= window
+            raise ValueError('Unknown window: %s' % window)
     return input_array
 
 
-- 
2.43.0


From 96076e473a9970db0f491cd85731165f6bd0125c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:57:31 +0000
Subject: [PATCH 25/95] fix: box dimensions of power spectra may be a numpy
 array

---
 src/tools21cm/power_spectrum.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/tools21cm/power_spectrum.py b/src/tools21cm/power_spectrum.py
index 33dca4e..517e328 100755
--- a/src/tools21cm/power_spectrum.py
+++ b/src/tools21cm/power_spectrum.py
@@ -529,7 +529,7 @@ def _get_dims(box_dims, ashape):
         size
         Otherwise, return as it is
         '''
-        if box_dims == None:
+        if box_dims is None:
                 return [conv.LB]*len(ashape)
         if not hasattr(box_dims, '__iter__'):
                 return [box_dims]*len(ashape)
-- 
2.43.0


From 39e37ddb125e765dbedafd3a0c74092734df02fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:57:31 +0000
Subject: [PATCH 26/95] fix: weights of the mu-binned power spectrum may be an
 array

---
 src/tools21cm/power_spectrum.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/tools21cm/power_spectrum.py b/src/tools21cm/power_spectrum.py
index 517e328..3b99352 100755
--- a/src/tools21cm/power_spectrum.py
+++ b/src/tools21cm/power_spectrum.py
@@ -385,8 +385,8 @@ def mu_binning(powerspectrum, los_axis = 0, mubins=20, kbins=10, box_dims=None,
         This function is for internal use only.
         '''
         
-        if weights != None:
-                powerspectrum *= weights
+        if weights is not None:
+                powerspectrum = powerspectrum * weights
 
         assert(len(powerspectrum.shape)==3)
 
@@ -431,7 +431,7 @@ def mu_binning(powerspectrum, los_axis = 0, mubins=20, kbins=10, box_dims=None,
                         idx = (mu >= mu_min) & (mu < mu_max) & kidx.astype(bool)
                         outdata[i,ki] = np.mean(powerspectrum[idx])
                         n_modes[i,ki] = np.size(powerspectrum[idx])
-                        if weights != None:
+                        if weights is not None:
                                 outdata[i,ki] /= weights[idx].mean()
 
         return outdata, mubins[:-1]+dmu, kbins[:-1]+dk, n_modes
-- 
2.43.0


From 032ea27f13ffa825c2090ac9c485e489c0622413 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:57:31 +0000
Subject: [PATCH 27/95] fix: wavenumbers of 1-d and 2-d fields are centred on
 the zero mode

---
 src/tools21cm/power_spectrum.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/tools21cm/power_spectrum.py b/src/tools21cm/power_spectrum.py
index 3b99352..03961e4 100755
--- a/src/tools21cm/power_spectrum.py
+++ b/src/tools21cm/power_spectrum.py
@@ -457,12 +457,12 @@ def _get_k(input_array, box_dims):
     dim = len(input_array.shape)
     if dim == 1:
         x = np.arange(len(input_array))
-        center = x.max()/2.
+        center = len(input_array)//2
         kx = 2.*np.pi*(x-center)/box_dims[0]
-        return [kx], kx
+        return [kx], np.abs(kx)
     elif dim == 2:
         x,y = np.indices(input_array.shape, dtype='int32')
-        center = np.array([(x.max()-x.min())/2, (y.max()-y.min())/2])
+        center = np.array(input_array.shape)//2
         kx = 2.*np.pi * (x-center[0])/box_dims[0]
         ky = 2.*np.pi * (y-center[1])/box_dims[1]
         k = np.sqrt(kx**2 + ky**2)
-- 
2.43.0


From 92ada69c7919a2fb7af0248b600079917eb53794 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:57:31 +0000
Subject: [PATCH 28/95] fix: the last k and mu bin of power_spectrum_mu include
 their upper edge

---
 src/tools21cm/power_spectrum.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/tools21cm/power_spectrum.py b/src/tools21cm/power_spectrum.py
index 03961e4..fccfb42 100755
--- a/src/tools21cm/power_spectrum.py
+++ b/src/tools21cm/power_spectrum.py
@@ -423,12 +423,12 @@ def mu_binning(powerspectrum, los_axis = 0, mubins=20, kbins=10, box_dims=None,
                 print_msg('Bin %d of %d' % (ki, n_kbins))
                 kmin = kbins[ki]
                 kmax = kbins[ki+1]
-                kidx = (k >= kmin) & (k < kmax)
+                kidx = (k >= kmin) & ((k < kmax) | ((ki == n_kbins-1) & (k == kmax)))
                 kidx = kidx*good_idx
                 for i in range(n_mubins):
                         mu_min = mubins[i]
                         mu_max = mubins[i+1]
-                        idx = (mu >= mu_min) & (mu < mu_max) & kidx.astype(bool)
+                        idx = (mu >= mu_min) & ((mu < mu_max) | ((i == n_mubins-1) & (mu == mu_max))) & kidx.astype(bool)
                         outdata[i,ki] = np.mean(powerspectrum[idx])
                         n_modes[i,ki] = np.size(powerspectrum[idx])
                         if weights is not None:
-- 
2.43.0


From 7a53b04cf0c87e3272e49dfcc6d9d95d48776666 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:57:31 +0000
Subject: [PATCH 29/95] fix: k_perp=0 modes are excluded for odd box sizes too

---
 src/tools21cm/power_spectrum.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/tools21cm/power_spectrum.py b/src/tools21cm/power_spectrum.py
index fccfb42..2ad4861 100755
--- a/src/tools21cm/power_spectrum.py
+++ b/src/tools21cm/power_spectrum.py
@@ -568,11 +568,11 @@ def _get_nonzero_idx(ps_shape, los_axis):
         '''
         x,y,z = np.indices(ps_shape)
         if los_axis == 0:
-                zero_idx = (y == ps_shape[1]/2)*(z == ps_shape[2]/2)
+                zero_idx = (y == ps_shape[1]//2)*(z == ps_shape[2]//2)
         elif los_axis == 1:
-                zero_idx = (x == ps_shape[0]/2)*(z == ps_shape[2]/2)
+                zero_idx = (x == ps_shape[0]//2)*(z == ps_shape[2]//2)
         else:
-                zero_idx = (x == ps_shape[0]/2)*(y == ps_shape[1]/2)
+                zero_idx = (x == ps_shape[0]//2)*(y == ps_shape[1]//2)
         good_idx = np.invert(zero_idx)
         return good_idx
 
-- 
2.43.0


From eeb9262e63d17a49031a0cb96c826204bc36a15e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:57:31 +0000
Subject: [PATCH 30/95] fix: mu is defined for every non-zero mode of large
 boxes

---
 src/tools21cm/power_spectrum.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/tools21cm/power_spectrum.py b/src/tools21cm/power_spectrum.py
index 2ad4861..f9fe533 100755
--- a/src/tools21cm/power_spectrum.py
+++ b/src/tools21cm/power_spectrum.py
@@ -499,7 +499,7 @@ def _get_mu(k_comp, k, los_axis, absolute_mus):
 
         #mu=cos(theta) = k_par/k
         mu = np.abs(los_dist/k) if absolute_mus else los_dist/np.abs(k)
-        mu[np.where(k < 0.001)] = np.nan
+        mu[np.where(k == 0)] = np.nan
         
         return mu
 
-- 
2.43.0


From aeb7a7c8b83b5fae0f3a62f6307588527f6bad2b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:57:31 +0000
Subject: [PATCH 31/95] fix: get_kbins works from k alone

---
 src/tools21cm/power_spectrum.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/tools21cm/power_spectrum.py b/src/tools21cm/power_spectrum.py
index f9fe533..a7f5c5d 100755
--- a/src/tools21cm/power_spectrum.py
+++ b/src/tools21cm/power_spectrum.py
@@ -442,7 +442,7 @@ def get_k(input_array, box_dims):
         
 def get_kbins(kbins, box_dims, k=None, array=None, binning='log'):
         assert k is not None or array is not None
-        box_dims = _get_dims(box_dims, array.shape)
+        box_dims = _get_dims(box_dims, k.shape if array is None else array.shape)
         if k is None: k_comp, k = _get_k(array, box_dims)
         return _get_kbins(kbins, box_dims, k, binning=binning)
 
-- 
2.43.0


From 2c3efd25be30d587c62d9ec9c4b0829b379e170d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:57:31 +0000
Subject: [PATCH 32/95] fix: bin edges of power spectra may be a list

---
 src/tools21cm/power_spectrum.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/tools21cm/power_spectrum.py b/src/tools21cm/power_spectrum.py
index a7f5c5d..0e9b47c 100755
--- a/src/tools21cm/power_spectrum.py
+++ b/src/tools21cm/power_spectrum.py
@@ -509,7 +509,7 @@ def _get_kbins(kbins, box_dims, k, binning='log', breakpoint=0.1, kmin=None, kma
         Make a list of bin edges if kbins is an integer,
         otherwise return it as it is.
         '''
-        if isinstance(kbins,int):
+        if isinstance(kbins,(int,np.integer)):
                 kmin = 2.*np.pi/min(box_dims) if kmin is None else kmin
                 kmax = k.max() if kmax is None else kmax
                 if binning=='linear': kbins = np.linspace(kmin, kmax, kbins+1)
@@ -518,7 +518,7 @@ def _get_kbins(kbins, box_dims, k, binning='log', breakpoint=0.1, kmin=None, kma
                         kbins_low  = np.linspace(kmin, kmax, kbins+1)
                         kbins_high = 10**np.linspace(np.log10(kmin), np.log10(kmax), kbins+1)
                         kbins = np.hstack((kbins_low[kbins_low<breakpoint],kbins_high[kbins_high>breakpoint]))          
-        return kbins
+        return np.asarray(kbins)
 
 
 def _get_dims(box_dims, ashape):
-- 
2.43.0


From 339828ac2f274b3e698b0a644c63c3b2bbbf6f70 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:57:31 +0000
Subject: [PATCH 33/95] fix: power_spectrum_2d accepts a list of two bin counts

---
 src/tools21cm/power_spectrum.py | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/src/tools21cm/power_spectrum.py b/src/tools21cm/power_spectrum.py
index 0e9b47c..663d82d 100755
--- a/src/tools21cm/power_spectrum.py
+++ b/src/tools21cm/power_spectrum.py
@@ -209,11 +209,9 @@ def power_spectrum_2d(input_array, kbins=10, binning='log', box_dims=244/.7, ret
         '''
         input_array = apply_window(input_array, window)
         
-        if type(kbins) == list:
-                binning = None
-        elif np.array(kbins).size==1: 
+        if not hasattr(kbins, '__len__'):
                 kbins = [kbins, kbins]
-        elif not isinstance(kbins[0], int): 
+        elif np.ndim(kbins[0]) > 0:
                 binning = None
 
         if kwargs.get('boxsize') is not None: box_dims = kwargs.get('boxsize')
-- 
2.43.0


From b0ea586594910a4908b080fe7243da77e4ddf870 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:57:31 +0000
Subject: [PATCH 34/95] fix: power_spectrum_multipoles runs and counts modes

---
 src/tools21cm/power_legendre.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/tools21cm/power_legendre.py b/src/tools21cm/power_legendre.py
index d3fc984..e4773d1 100755
--- a/src/tools21cm/power_legendre.py
+++ b/src/tools21cm/power_legendre.py
@@ -44,13 +44,13 @@ def power_spectrum_multipoles(input_array, kbins = 10, box_dims = None,\
     k_comp, k = _get_k(input_array, box_dims)
     kbins = _get_kbins(kbins, box_dims, k)
     dk = (kbins[1:]-kbins[:-1])/2.
-    mu = _get_mu(k_comp, k, los_axis)
+    mu = _get_mu(k_comp, k, los_axis, absolute_mus=True)
     
     #Exclude k_perp = 0 modes
     if exclude_zero_modes:
         good_idx = _get_nonzero_idx(ps.shape, los_axis)
     else:
-        good_idx = np.ones_like(ps)
+        good_idx = np.ones_like(ps, dtype=bool)
 
     #Legendre polynomials
     if 'P0' in output:
@@ -77,7 +77,7 @@ def power_spectrum_multipoles(input_array, kbins = 10, box_dims = None,\
         kmax = kbins[i+1]
         idx = get_eval()('(k >= kmin) & (k < kmax)')
         idx *= good_idx
-        nmodes[i] = len(np.nonzero(idx))
+        nmodes[i] = np.count_nonzero(idx)
         if 'P0' in output:
             multipoles['P0'][i] = np.sum(ps[idx]*P0[idx])/np.sum(P0[idx]**2)
         if 'P2' in output:
-- 
2.43.0


From 9ce37fc2a6651a723c8200eeafb1b3eb9832a99e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:18:56 +0000
Subject: [PATCH 35/95] fix: logarithmic k bins start and end exactly at the
 box's smallest and largest wavenumber

---
 src/tools21cm/power_spectrum.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/tools21cm/power_spectrum.py b/src/tools21cm/power_spectrum.py
index 663d82d..99d1846 100755
--- a/src/tools21cm/power_spectrum.py
+++ b/src/tools21cm/power_spectrum.py
@@ -511,10 +511,13 @@ def _get_kbins(kbins, box_dims, k, binning='log', breakpoint=0.1, kmin=None, kma
                 kmin = 2.*np.pi/min(box_dims) if kmin is None else kmin
                 kmax = k.max() if kmax is None else kmax
                 if binning=='linear': kbins = np.linspace(kmin, kmax, kbins+1)
-                elif binning=='log': kbins = 10**np.linspace(np.log10(kmin), np.log10(kmax), kbins+1)
+                elif binning=='log':
+                        kbins = 10**np.linspace(np.log10(kmin), np.log10(kmax), kbins+1)
+                        kbins[0], kbins[-1] = kmin, kmax
                 else:
                         kbins_low  = np.linspace(kmin, kmax, kbins+1)
                         kbins_high = 10**np.linspace(np.log10(kmin), np.log10(kmax), kbins+1)
+                        kbins_high[0], kbins_high[-1] = kmin, kmax
                         kbins = np.hstack((kbins_low[kbins_low<breakpoint],kbins_high[kbins_high>breakpoint]))          
         return np.asarray(kbins)
 
-- 
2.43.0


From 700bd4d0547b2bc645f543fd0b343c6f76e2517b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:18:56 +0000
Subject: [PATCH 36/95] fix: dimensionless_ps does not leave its interpolation
 range by rounding

---
 src/tools21cm/power_spectrum.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/tools21cm/power_spectrum.py b/src/tools21cm/power_spectrum.py
index 99d1846..c782422 100755
--- a/src/tools21cm/power_spectrum.py
+++ b/src/tools21cm/power_spectrum.py
@@ -561,6 +561,7 @@ def dimensionless_ps(data, kbins=100, box_dims=None, binning='log', factor=10):
         Pk, ks = power_spectrum_1d(data, kbins=kbins*factor, box_dims=box_dims, binning=binning)
         f_Dlta = interp1d(ks, Pk*ks**3/2/np.pi**2)
         knew   = 10**np.linspace(np.log10(ks[1]),np.log10(ks[-1]), kbins) if binning=='log' else np.linspace(ks[1],ks[-1], kbins)
+        knew   = np.clip(knew, ks[1], ks[-1])
         return f_Dlta(knew), knew
 
 def _get_nonzero_idx(ps_shape, los_axis):
-- 
2.43.0


From 60427065dcafbbca3bab621c401b59e97d646611 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:18:56 +0000
Subject: [PATCH 37/95] fix: the last bin of power_spectrum_multipoles includes
 its upper edge

---
 src/tools21cm/power_legendre.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/tools21cm/power_legendre.py b/src/tools21cm/power_legendre.py
index e4773d1..d2f42a0 100755
--- a/src/tools21cm/power_legendre.py
+++ b/src/tools21cm/power_legendre.py
@@ -75,7 +75,7 @@ def power_spectrum_multipoles(input_array, kbins = 10, box_dims = None,\
     for i in range(n_kbins):
         kmin = kbins[i]
         kmax = kbins[i+1]
-        idx = get_eval()('(k >= kmin) & (k < kmax)')
+        idx = (k >= kmin) & ((k < kmax) | ((i == n_kbins-1) & (k == kmax)))
         idx *= good_idx
         nmodes[i] = np.count_nonzero(idx)
         if 'P0' in output:
-- 
2.43.0


From 8b85ba56e588f58572e0b421f1b925c12f911c0c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:30:59 +0000
Subject: [PATCH 38/95] fix: fof returns the size of a region that fills the
 whole box

---
 src/tools21cm/bubble_stats.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/tools21cm/bubble_stats.py b/src/tools21cm/bubble_stats.py
index 59e10b1..f1821eb 100755
--- a/src/tools21cm/bubble_stats.py
+++ b/src/tools21cm/bubble_stats.py
@@ -40,7 +40,7 @@ def fof(data, xth=0.5, connectivity=1):
 		from skimage import morphology
 		out_map = morphology.label(data, connectivity=connectivity)
 		elements, size_list = np.unique(out_map, return_counts=True)
-		size_list = size_list[1:]
+		size_list = size_list[elements>0]
 	else: out_map, size_list = FoF_search(data, xth)
 	t2 = datetime.datetime.now()
 	runtime = (t2-t1).total_seconds()/60
-- 
2.43.0


From c06ae98144e9ae201f437e9a76ac5886fef442cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:30:59 +0000
Subject: [PATCH 39/95] fix: FoF_search finds groups

---
 src/tools21cm/Friends_of_Friends.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/tools21cm/Friends_of_Friends.py b/src/tools21cm/Friends_of_Friends.py
index f1c6100..0f8e8bc 100755
--- a/src/tools21cm/Friends_of_Friends.py
+++ b/src/tools21cm/Friends_of_Friends.py
@@ -11,7 +11,7 @@ sizes_list = ast.literal_eval(sizes_string)
 import numpy as np
 from itertools import count
 #from Queue import Queue
-from multiprocessing import Queue
+from queue import Queue
 
 
 def FoF_search(array, threshold):
@@ -29,7 +29,7 @@ def FoF_search(array, threshold):
                 yield tuple(new_coordinate)
 
     out_map = np.zeros(array.shape, dtype=int)   # creates an array with the same shape as the input search array
-    possibilities = zip(*np.where(array > threshold))  # creates a list of indices of points above the threshold
+    possibilities = list(zip(*np.where(array > threshold)))  # creates a list of indices of points above the threshold
     poss_set = set(possibilities)
     
     def recursive_search(point, current_group, currentsize):     # function to calculate group membership of a point
-- 
2.43.0


From 5a7d5d0aeb59a657b25841fe6388f392e753fec4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:32:33 +0000
Subject: [PATCH 40/95] fix: superpixels are stitched when their lowest
 histogram bin is the fullest

---
 src/tools21cm/superpixels.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/tools21cm/superpixels.py b/src/tools21cm/superpixels.py
index 457c0c8..f5fa21b 100755
--- a/src/tools21cm/superpixels.py
+++ b/src/tools21cm/superpixels.py
@@ -81,7 +81,7 @@ def stitch_using_histogram(data, mns, labels, bins='knuth', binary=True, on_supe
 	ht  = histogram(mns, bins=bins)
 	if ht[0].argmax()==0: peaks = argrelextrema(np.hstack((0,ht[0])), np.greater)[0]
 	else: peaks = argrelextrema(ht[0], np.greater)[0]
-	if peaks.size==1:
+	if peaks.size==1 and ht[0].argmax()>0:
 		x1,y1 = ht[1][0], ht[0][0]
 		y0 = ht[0].max()
 		bla = ht[0].argmax()
-- 
2.43.0


From bc2e67b12bfa6b0d37ac0e7d4c18e12771f882df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:34:19 +0000
Subject: [PATCH 41/95] fix: slic_cube segments three-dimensional data with
 current scikit-image

---
 src/tools21cm/superpixels.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/tools21cm/superpixels.py b/src/tools21cm/superpixels.py
index f5fa21b..ecb185e 100755
--- a/src/tools21cm/superpixels.py
+++ b/src/tools21cm/superpixels.py
@@ -25,7 +25,7 @@ def slic_cube(cube, n_segments=5000, compactness=0.1,
 	except: 
 		labels = slic(cube, n_segments=n_segments, compactness=compactness, 
 					  max_num_iter=max_iter, sigma=sigma, max_size_factor=max_size_factor, 
-					  slic_zero=True, start_label=0)
+					  slic_zero=True, start_label=0, channel_axis=-1 if multichannel else None)
 	if verbose: print("The output contains the labels with %d segments"%(labels.max()+1))
 	return labels
 
-- 
2.43.0


From 420b7fa81234dfb8d22d4bc8151f94313b8095d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:36:41 +0000
Subject: [PATCH 42/95] fix: 3-D mean free paths are counted up to the box
 diagonal

---
 src/tools21cm/mfp_np.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/tools21cm/mfp_np.py b/src/tools21cm/mfp_np.py
index 845bb60..75bf1f3 100755
--- a/src/tools21cm/mfp_np.py
+++ b/src/tools21cm/mfp_np.py
@@ -7,7 +7,7 @@ from tqdm import tqdm
 def _ray3d(ar, xs, ys, zs, ls, ms, ns, verbose):
 
     info = ar.shape
-    longest = max(info)
+    longest = int(np.ceil(np.sqrt(3) * max(info)))
     num_sz  = np.zeros(longest)
 
     # Ensure coordinates are of type float64 for compatibility with interpolation
-- 
2.43.0


From a3e1799122cf0fcd7c732c22c5eb0413ac42af74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:36:55 +0000
Subject: [PATCH 43/95] fix: mean-free-path sizes of a box without regions for
 thresholds above one

---
 src/tools21cm/bubble_stats.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/tools21cm/bubble_stats.py b/src/tools21cm/bubble_stats.py
index f1821eb..a4577d8 100755
--- a/src/tools21cm/bubble_stats.py
+++ b/src/tools21cm/bubble_stats.py
@@ -133,7 +133,7 @@ def mfp(data, xth=0.5, boxsize=None, iterations=10000000, verbose=True, upper_li
 	if verbose:
 		print(f'{check_box}/{data.size} cells are marked as region of interest (ROI).')
 	if check_box==0:
-		data = np.ones(data.shape)
+		data = np.full(data.shape, xth)
 		iterations = 3
 	if dim == 2:
 		if verbose: print("MFP method applied on 2D data.")
@@ -207,7 +207,7 @@ def averaged_mfp(data, xth=0.5, boxsize=None, iterations=10000000, rays_per_poin
 		xth  = -1.*xth
 	check_box = (data>=xth).sum()
 	if check_box==0:
-		data = np.ones(data.shape)
+		data = np.full(data.shape, xth)
 		iterations = 3
 	if dim == 3:
 		ar = np.zeros_like(data)
@@ -296,7 +296,7 @@ def mfp_from_point(data, point, xth=0.5, boxsize=None, iterations=10000000, verb
 		xth  = -1.*xth
 	check_box = (data>=xth).sum()
 	if check_box==0:
-		data = np.ones(data.shape)
+		data = np.full(data.shape, xth)
 		iterations = 3
 	if dim == 2:
 		print("MFP method applied on 2D data")
-- 
2.43.0


From 0d87e3998af53436e74a6fd56aa648579e7b9d2d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:38:06 +0000
Subject: [PATCH 44/95] fix: spheres of fractional radius in the SPA method are
 centred on their cell

---
 src/tools21cm/spa_np.py | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/tools21cm/spa_np.py b/src/tools21cm/spa_np.py
index dddbaeb..53ac602 100755
--- a/src/tools21cm/spa_np.py
+++ b/src/tools21cm/spa_np.py
@@ -17,7 +17,7 @@ def spa_np(data, xth=0.95, nscales=30, binning='log', verbose=True, use_fftconvo
 	for i in tqdm(range(nscales), disable=not verbose):
 		ra = Rs_[i]
 		#kernel = put_sphere(np.zeros((Rmx,Rmx,Rmx)), [Rmx/2.,Rmx/2.,Rmx/2.], ra, label=1.)
-		kernel = morphology.ball(ra)
+		kernel = sphere_kernel(ra)
 		smooth = fftconvolve(data, kernel/kernel.sum(), mode='same') if use_fftconvolve else convolve(data, kernel/kernel.sum(), mode='same')
 		rad[smooth>=xth] = ra
 		#print("Comepleted {0:.1f} %".format(100*(i+1)/nscales))
@@ -26,6 +26,13 @@ def spa_np(data, xth=0.95, nscales=30, binning='log', verbose=True, use_fftconvo
 	return Rs_, ins
 
 
+def sphere_kernel(radius):
+	"""
+	The cells within the given radius (in cells, need not be an integer) of the central cell.
+	"""
+	x = np.arange(-int(radius+1e-6), int(radius+1e-6)+1)**2
+	return (x[:,None,None]+x[None,:,None]+x[None,None,:]<=radius**2+1e-6).astype(float)
+
 def put_sphere(array, centre, radius, label=1, periodic=True, verbose=False):
 	assert array.ndim == 3
 	nx, ny, nz = array.shape
-- 
2.43.0


From 788e9b94b44df5cfcf6ed3b309dc45aafe1e1f20 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:43:47 +0000
Subject: [PATCH 45/95] fix: DensityFile.write_to_file with cgs_density used a
 missing attribute

---
 src/tools21cm/density_file.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/tools21cm/density_file.py b/src/tools21cm/density_file.py
index 305b9d6..b653c35 100755
--- a/src/tools21cm/density_file.py
+++ b/src/tools21cm/density_file.py
@@ -95,7 +95,7 @@ class DensityFile:
 			self.cgs_density = cgs_density
 			self.mesh_x, self.mesh_y, self.mesh_z = self.cgs_density.shape
 			conv_factor = const.rho_crit_0*(float(self.mesh_x)/float(conv.nbox_fine))**3*const.OmegaB
-			self.raw_density = cgs_density/self.conv_factor
+			self.raw_density = cgs_density/conv_factor
 		else:
 			pass 
 
-- 
2.43.0


From a5e8642f9f27914d97dbaea7a5957dbff2012c2b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:43:47 +0000
Subject: [PATCH 46/95] fix: old-format temperature and ionisation-rate files
 were returned as a flat list of cells

---
 src/tools21cm/irate_file.py  | 7 ++-----
 src/tools21cm/temper_file.py | 7 ++-----
 2 files changed, 4 insertions(+), 10 deletions(-)

diff --git a/src/tools21cm/irate_file.py b/src/tools21cm/irate_file.py
index 3b72a9a..595d21b 100755
--- a/src/tools21cm/irate_file.py
+++ b/src/tools21cm/irate_file.py
@@ -51,11 +51,8 @@ class IonRateFile:
             temp_mesh = np.fromfile(f, count=6, dtype='int32')
             self.mesh_x, self.mesh_y, self.mesh_z = temp_mesh[1:4]
 
-        if old_format:
-                self.irate = np.fromfile(f, dtype='float32')
-        else:
-                self.irate = np.fromfile(f, count=self.mesh_x*self.mesh_y*self.mesh_z, dtype='float32')
-                self.irate = self.irate.reshape((self.mesh_x, self.mesh_y, self.mesh_z), order='F')
+        self.irate = np.fromfile(f, count=self.mesh_x*self.mesh_y*self.mesh_z, dtype='float32')
+        self.irate = self.irate.reshape((self.mesh_x, self.mesh_y, self.mesh_z), order='F')
 
         f.close()
         print_msg('...done')
diff --git a/src/tools21cm/temper_file.py b/src/tools21cm/temper_file.py
index 3af9e2f..8b64446 100755
--- a/src/tools21cm/temper_file.py
+++ b/src/tools21cm/temper_file.py
@@ -47,11 +47,8 @@ class TemperFile:
         temp_mesh = np.fromfile(f, count=6, dtype='int32')
         self.mesh_x, self.mesh_y, self.mesh_z = temp_mesh[1:4]
 
-        if old_format:
-                self.temper = np.fromfile(f, dtype='float32')
-        else:
-                self.temper = np.fromfile(f, count=self.mesh_x*self.mesh_y*self.mesh_z, dtype='float32')
-                self.temper = self.temper.reshape((self.mesh_x, self.mesh_y, self.mesh_z), order='F')
+        self.temper = np.fromfile(f, count=self.mesh_x*self.mesh_y*self.mesh_z, dtype='float32')
+        self.temper = self.temper.reshape((self.mesh_x, self.mesh_y, self.mesh_z), order='F')
 
         f.close()
         print_msg('...done')
-- 
2.43.0


From 8b28a2d9860b73f98894782967faa3068475c57b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:43:47 +0000
Subject: [PATCH 47/95] fix: read_cbin ignored dimensions other than three when
 shaping the data

---
 src/tools21cm/helper_functions.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/tools21cm/helper_functions.py b/src/tools21cm/helper_functions.py
index 408f031..c8264e5 100755
--- a/src/tools21cm/helper_functions.py
+++ b/src/tools21cm/helper_functions.py
@@ -182,8 +182,8 @@ def read_cbin(filename, bits=32, order='C', dimensions=3, records=False):
 
         counter=dimensions+3 if records else dimensions 
         header = np.fromfile(f, count=counter, dtype='int32')
-        if records: temp_mesh=header[1:4]
-        else: temp_mesh=header[0:3]
+        if records: temp_mesh=header[1:dimensions+1]
+        else: temp_mesh=header[:dimensions]
         
         datatype = np.float32 if bits == 32 else np.float64
         data = np.fromfile(f, dtype=datatype, count=np.prod(temp_mesh))
-- 
2.43.0


From e6570c56e577c90dda72b3a958e5a6069a97bf4b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:43:47 +0000
Subject: [PATCH 48/95] fix: get_mesh_size returned two of the three dimensions
 of a temperature file

---
 src/tools21cm/helper_functions.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/tools21cm/helper_functions.py b/src/tools21cm/helper_functions.py
index c8264e5..bf64ab2 100755
--- a/src/tools21cm/helper_functions.py
+++ b/src/tools21cm/helper_functions.py
@@ -436,7 +436,7 @@ def get_mesh_size(filename):
                 temp_mesh = np.fromfile(f, count=6, dtype='int32')
                 mesh_size = temp_mesh[1:4]
         elif datatype == 'temper':
-                temp_mesh = np.fromfile(f,count=3,dtype='int32')
+                temp_mesh = np.fromfile(f,count=6,dtype='int32')
                 mesh_size = temp_mesh[1:4]
         elif datatype == 'density':
                 mesh_size = np.fromfile(f,count=3,dtype='int32')
-- 
2.43.0


From bde9be1abd97bfa010401cbec6e6a812ca8e0452 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:43:47 +0000
Subject: [PATCH 49/95] fix: save_fits and read_fits depended on a module that
 is never imported and on a test-data lookup

---
 src/tools21cm/helper_functions.py | 29 ++++++++---------------------
 1 file changed, 8 insertions(+), 21 deletions(-)

diff --git a/src/tools21cm/helper_functions.py b/src/tools21cm/helper_functions.py
index bf64ab2..5c1805d 100755
--- a/src/tools21cm/helper_functions.py
+++ b/src/tools21cm/helper_functions.py
@@ -272,19 +272,12 @@ def read_fits(filename, header=True):
         Returns:
                 numpy array containing the data
         '''
-        try:
-                import pyfits as pf
-                hdulist = pf.open(filename)
-                header = hdulist[0].header
+        from astropy.io import fits
+        with fits.open(filename) as hdulist:
+                fits_header = hdulist[0].header
                 data = hdulist[0].data.astype('float64')
-        except:
-                from astropy.io import fits
-                fits_image_filename = fits.util.get_testdata_filepath(filename)
-                hdul = fits.open(fits_image_filename)
-                header = hdul[0].header
-                data = hdul[1].data.astype('float64')
-
-        if header: return data, header
+
+        if header: return data, fits_header
         else: return data
 
 
@@ -305,15 +298,9 @@ def save_fits(data, filename, header=None):
         
         save_data, datatype = get_data_and_type(data)
 
-        try:
-                import pyfits as pf
-                if type(header)==pf.header.Header: pf.writeto(filename, save_data, header)
-                else: pf.writeto(filename, save_data)
-        except:
-                from astropy.io import fits
-                hdu = pf.PrimaryHDU(save_data.astype('float64'))
-                hdulist = pf.HDUList([hdu])
-                hdulist.writeto(filename, clobber=True)
+        from astropy.io import fits
+        hdu = fits.PrimaryHDU(save_data.astype('float64'), header=header)
+        hdu.writeto(filename, overwrite=True)
 
         
 
-- 
2.43.0


From 3ef9185f981780b5a806c0dc39b609b5fe0282b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:43:47 +0000
Subject: [PATCH 50/95] fix: writing a loaded file without passing its data
 again discarded the data and wrote nothing

---
 src/tools21cm/density_file.py | 4 ++--
 src/tools21cm/source_file.py  | 4 ++--
 src/tools21cm/vel_file.py     | 4 ++--
 3 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/tools21cm/density_file.py b/src/tools21cm/density_file.py
index b653c35..397d08e 100755
--- a/src/tools21cm/density_file.py
+++ b/src/tools21cm/density_file.py
@@ -189,8 +189,8 @@ class ClumpingFile:
 		Returns:
 			Nothing
 		'''
-		self.raw_clumping = raw_clumping
-		if self.raw_clumping is None:
+		if raw_clumping is not None: self.raw_clumping = raw_clumping
+		if getattr(self, 'raw_clumping', None) is None:
 			print_msg("Error: No raw clumping data to write. Please load a clumping file first or set the 'raw_clumping' attribute.")
 			return
 
diff --git a/src/tools21cm/source_file.py b/src/tools21cm/source_file.py
index c7c85bc..ed50d54 100755
--- a/src/tools21cm/source_file.py
+++ b/src/tools21cm/source_file.py
@@ -101,8 +101,8 @@ class SourceFile:
         Returns:
             Nothing
         '''
-        self.sources_list = sources_list
-        if self.sources_list is None or self.sources_list.shape[0] == 0:
+        if sources_list is not None: self.sources_list = sources_list
+        if getattr(self, 'sources_list', None) is None or self.sources_list.shape[0] == 0:
             print_msg("Error: No sources_list data to write. Please load a source file first or set the 'sources_list' attribute.")
             return
 
diff --git a/src/tools21cm/vel_file.py b/src/tools21cm/vel_file.py
index 3c39ef8..335b0dc 100755
--- a/src/tools21cm/vel_file.py
+++ b/src/tools21cm/vel_file.py
@@ -79,8 +79,8 @@ class VelocityFile:
 		Returns:
 			Nothing
 		'''
-		self.raw_velocity = raw_velocity
-		if self.raw_velocity is None:
+		if raw_velocity is not None: self.raw_velocity = raw_velocity
+		if getattr(self, 'raw_velocity', None) is None:
 			print_msg("Error: No raw velocity data to write. Please load a velocity file first or set the 'raw_velocity' attribute.")
 			return
 
-- 
2.43.0


From fd1a337b7f462ffacf387806d12824cc158a1194 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:43:47 +0000
Subject: [PATCH 51/95] fix: source files were not readable back: log masses in
 a single column, and both masses at once raised

---
 src/tools21cm/source_file.py | 37 +++++++++++-------------------------
 1 file changed, 11 insertions(+), 26 deletions(-)

diff --git a/src/tools21cm/source_file.py b/src/tools21cm/source_file.py
index ed50d54..23c54b1 100755
--- a/src/tools21cm/source_file.py
+++ b/src/tools21cm/source_file.py
@@ -67,7 +67,8 @@ class SourceFile:
             idx = 2*i+1
             text = lines[idx].split()
             self.sources_list[i,:3] = np.array(text[:3], dtype=int)-1
-            self.sources_list[i,3:] = np.power(10, conv.gridmass_to_msol(float(text[idx_mass]))) # Msun
+            mass = np.array(text, dtype=float)[idx_mass]
+            self.sources_list[i,3:] = np.power(10, conv.gridmass_to_msol(mass)) # Msun
 
         print_msg('...done')
 
@@ -115,42 +116,26 @@ class SourceFile:
                 # The read method only uses the first number, so 0.0 is a safe placeholder for the second value.
                 f.write(f"{nr_src} 0.0\n") 
 
-                # Determine which column contains the mass for writing
-                # This depends on how sources_list was populated (by read_from_file or manually).
-                # The original file format has coordinates as 1-indexed integers and log10 of grid mass.
-                
-                # Default to 'hm' column if self.mass is 'hm' or not specified,
-                # otherwise 'lm' column if self.mass is 'lm'.
-                # If self.sources_list has 5 columns, it means both hm and lm are stored.
-                # We need to decide which one to write back to the file format.
-                # Assuming the original file structure implies a single mass value per source line.
-                # Let's prioritize writing the 'hm' mass if available (index 3 for 5-col array).
-
                 for i in range(nr_src):
                     # Convert coordinates back to 1-indexed integers for writing
                     x, y, z = self.sources_list[i,:3].astype(int) + 1 
                     
                     # Get the mass value(s) in Msun
-                    current_mass_msun = None
                     if self.sources_list.shape[1] == 5: # (x, y, z, hm_mass, lm_mass)
-                        # Decide which mass to write back: if self.mass is specified use that, else default to hm
-                        if self.mass == 'lm':
-                            current_mass_msun = self.sources_list[i,4] # Use lm_mass
-                        else: # self.mass is 'hm' or default
-                            current_mass_msun = self.sources_list[i,3] # Use hm_mass
+                        hm_mass, lm_mass = self.sources_list[i,3:]
                     elif self.sources_list.shape[1] == 4: # (x, y, z, mass) for hm or lm
-                        current_mass_msun = self.sources_list[i,3]
+                        hm_mass, lm_mass = self.sources_list[i,3], 0.
+                        if self.mass == 'lm': hm_mass, lm_mass = lm_mass, hm_mass
                     else:
                         raise ValueError("Unexpected sources_list shape. Expected 4 or 5 columns.")
 
-                    # Convert Msun back to log10 of grid mass as expected by the file format
-                    # Ensure it's not log10(0) if mass is 0, to avoid errors.
-                    log10_grid_mass = conv.gridmass_to_msol(current_mass_msun) if current_mass_msun > 0 else -99.0 # Use a placeholder for zero mass
+                    # Convert Msun back to grid mass as expected by the file format
+                    grid_mass = conv.M_grid*const.solar_masses_per_gram
+                    hm_mass, lm_mass = hm_mass/grid_mass, lm_mass/grid_mass
 
-                    # Write each source line: x y z log10(grid_mass)
-                    # The original file format has two lines per source, the first is coordinates and log10 grid mass
-                    # and the second is empty. Let's replicate this based on the original parsing logic that does `lines[2*i+1]`
-                    f.write(f"{x} {y} {z} {log10_grid_mass:.6f}\n") # Using .6f for precision
+                    # Write each source line: x y z hm_mass lm_mass, followed by an empty line,
+                    # as the reading method takes every second line.
+                    f.write(f"{x} {y} {z} {hm_mass:.16e} {lm_mass:.16e}\n")
                     f.write("\n") # Empty line as per typical C2Ray source file format
 
             print_msg('...done')
-- 
2.43.0


From e285ddd049d105da14f3a9f2fd0ab8b0ec34e420 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:43:47 +0000
Subject: [PATCH 52/95] fix: read_21cmfast_files used the removed binary mode
 of np.fromstring

---
 src/tools21cm/read_files.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/tools21cm/read_files.py b/src/tools21cm/read_files.py
index 62538df..e4608bc 100755
--- a/src/tools21cm/read_files.py
+++ b/src/tools21cm/read_files.py
@@ -17,7 +17,7 @@ def _load_binary_data(filename, dtype=np.float32):
 	f = open(filename, "rb") 
 	data = f.read() 
 	f.close() 
-	_data = np.fromstring(data, dtype) 
+	_data = np.frombuffer(data, dtype).copy() 
 	if sys.byteorder == 'big':
 		_data = _data.byteswap()
 	return _data 
-- 
2.43.0


From 78a22d741f4b3c6f3fc7b1d6613502c46ec7af0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:43:47 +0000
Subject: [PATCH 53/95] fix: read_c2ray_files could not read velocities (names
 shadowed)

---
 src/tools21cm/read_files.py | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/src/tools21cm/read_files.py b/src/tools21cm/read_files.py
index e4608bc..5d541da 100755
--- a/src/tools21cm/read_files.py
+++ b/src/tools21cm/read_files.py
@@ -5,7 +5,7 @@ Methods to read simulations outputs of few popular codes.
 import numpy as np
 import glob
 from .xfrac_file import XfracFile
-from . import helper_functions, density_file, vel_file, lightcone
+from . import helper_functions, density_file as df, vel_file as vf, lightcone
 from . import temperature as tm
 import sys, os
 
@@ -57,9 +57,8 @@ def read_c2ray_files(filename, file_type='xfrac', density_file=None):
 		out = dens.astype(np.float64)
 	elif file_type=='vel':
 		assert density_file is not None
-		dfile = density_file.DensityFile(density_file)
-		vel_file = vel_file.VelocityFile(filename)
-		out = vel_file.get_kms_from_density(dfile)
+		dfile = df.DensityFile(density_file)
+		out = vf.VelocityFile(filename).get_kms_from_density(dfile)
 	return out
 
 def read_grizzly_files(filename):
-- 
2.43.0


From 6062707bd5520b381ad77ecb89ab1fc44f43c89a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:43:47 +0000
Subject: [PATCH 54/95] fix: write_dictionary_data did not accept the format
 names read_dictionary_data accepts

---
 src/tools21cm/read_files.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/tools21cm/read_files.py b/src/tools21cm/read_files.py
index 5d541da..2de68c3 100755
--- a/src/tools21cm/read_files.py
+++ b/src/tools21cm/read_files.py
@@ -243,7 +243,9 @@ def write_dictionary_data(data_dict, filename, format=None):
 	Supports: pickle, json, yaml, hdf5, npz, netcdf (xarray), csv, xlsx
 	"""
 	if format is None:
-		format = os.path.splitext(filename)[1].lstrip('.').lower()
+		format = os.path.splitext(filename)[1].lstrip('.')
+
+	format = format.lower()
 
 	if format in ['pickle', 'pkl']:
 		import pickle
-- 
2.43.0


From 0e9d0001a05d5bc968465bde8b8366f8385f7408 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:59:22 +0000
Subject: [PATCH 55/95] fix: file names with a dot next to no digit raised
 ValueError instead of giving their redshift

---
 src/tools21cm/helper_functions.py | 11 ++++-------
 1 file changed, 4 insertions(+), 7 deletions(-)

diff --git a/src/tools21cm/helper_functions.py b/src/tools21cm/helper_functions.py
index 5c1805d..323819e 100755
--- a/src/tools21cm/helper_functions.py
+++ b/src/tools21cm/helper_functions.py
@@ -486,16 +486,13 @@ def determine_redshift_from_filename(filename):
                 else:
                         last_was_char = True
         
-        longest_idx = 0
-        for i in range(len(number_strs)):
-                if len(number_strs[i]) > len(number_strs[longest_idx]):
-                        longest_idx = i
-                number_strs[i] = ''.join(number_strs[i])
-                
+        number_strs = [''.join(n).strip('.') for n in number_strs]
+        number_strs = [n for n in number_strs if len(n) > 0 and n.count('.') <= 1]
+
         if len(number_strs) == 0:
                 return -1
                 
-        return float(number_strs[longest_idx])
+        return float(max(number_strs, key=len))
 
 
 def find_idx(ar, values):
-- 
2.43.0


From aeb79e0d0cd232b4b8cda3b21b960237db51f123 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:59:22 +0000
Subject: [PATCH 56/95] fix: listing the redshifts of an empty folder raised
 ValueError

---
 src/tools21cm/helper_functions.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/tools21cm/helper_functions.py b/src/tools21cm/helper_functions.py
index 323819e..d092e1b 100755
--- a/src/tools21cm/helper_functions.py
+++ b/src/tools21cm/helper_functions.py
@@ -118,9 +118,9 @@ def _get_redshifts_in_range(redshifts, z_low, z_high, bracket):
                 z_low = redshifts[redshifts <= z_low][-1]
                 z_high = redshifts[redshifts >= z_high][0]
         if z_low == None:
-                z_low = redshifts.min()-1
+                z_low = -np.inf
         if z_high == None:
-                z_high = redshifts.max()+1
+                z_high = np.inf
         idx = (redshifts >= z_low)*(redshifts <= z_high)
         redshifts = redshifts[idx]
 
-- 
2.43.0


From 36a627b632ffc64537f1144e4208017880ddb8ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:59:22 +0000
Subject: [PATCH 57/95] fix: lightcones from a folder, a list file or a file of
 redshifts: strings were taken for lists

---
 src/tools21cm/lightcone.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/tools21cm/lightcone.py b/src/tools21cm/lightcone.py
index 62f15ab..7726a85 100755
--- a/src/tools21cm/lightcone.py
+++ b/src/tools21cm/lightcone.py
@@ -524,10 +524,10 @@ def _get_filenames(filenames_in):
     If it is a text file, read the list of files from the file
     '''
     
-    if hasattr(filenames_in, '__iter__'):
+    if not isinstance(filenames_in, str) and hasattr(filenames_in, '__iter__'):
         filenames_out = filenames_in
     elif os.path.isdir(filenames_in):
-        files_in_dir = glob.glob(filenames_in + '/*')
+        files_in_dir = sorted(glob.glob(filenames_in + '/*'))
         extensions = [os.path.splitext(f)[-1] for f in files_in_dir]
         if not _all_same(extensions):
             raise Exception('The directory may only contain one file type.')
@@ -550,8 +550,8 @@ def _get_file_redshifts(redshifts_in, filenames):
     Else, return as is
     '''
     
-    if hasattr(redshifts_in, '__iter__'):
-        redshifts_out = redshifts_in
+    if not isinstance(redshifts_in, str) and hasattr(redshifts_in, '__iter__'):
+        redshifts_out = np.array(redshifts_in)
     elif redshifts_in is None:
         redshifts_out = [determine_redshift_from_filename(f) for f in filenames]
         redshifts_out = np.array(redshifts_out)
-- 
2.43.0


From 1eb6b68b2f75f17b77975e5ce9b9fd24ae308398 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:59:22 +0000
Subject: [PATCH 58/95] fix: coeval cubes were read from the wrong files unless
 the folder was listed in a particular order

---
 src/tools21cm/read_files.py | 12 ++++++------
 src/tools21cm/usefuls.py    | 12 ++++++------
 2 files changed, 12 insertions(+), 12 deletions(-)

diff --git a/src/tools21cm/read_files.py b/src/tools21cm/read_files.py
index 2de68c3..ce9c118 100755
--- a/src/tools21cm/read_files.py
+++ b/src/tools21cm/read_files.py
@@ -119,12 +119,12 @@ def coeval_xfrac_c2ray(xfrac_dir, z, interpolation='linear'):
 	xfrac_zs = None
 	xfrac_zs = lightcone._get_file_redshifts(xfrac_zs, xfrac_files)
 	if z in xfrac_zs:
-		xfrac = XfracFile(xfrac_files[np.argwhere(z==xfrac_zs)]).xi
+		xfrac = XfracFile(xfrac_files[np.argmax(xfrac_zs==z)]).xi
 	else:
 		z_l = xfrac_zs[xfrac_zs<z].max()
 		z_h = xfrac_zs[xfrac_zs>z].min()
-		xfrac_l = XfracFile(xfrac_files[xfrac_zs[xfrac_zs<z].argmax()]).xi
-		xfrac_h = XfracFile(xfrac_files[xfrac_zs[xfrac_zs>z].argmin()]).xi
+		xfrac_l = XfracFile(xfrac_files[np.argmax(xfrac_zs==z_l)]).xi
+		xfrac_h = XfracFile(xfrac_files[np.argmax(xfrac_zs==z_h)]).xi
 		xfrac = xfrac_h + (xfrac_l-xfrac_h)*(z-z_h)/(z_l-z_h)
 		print("The xfrac cube has been interpolated using %s interpolation." %interpolation)
 		print("CAUTION: This data should be used with care.")
@@ -147,12 +147,12 @@ def coeval_dens_c2ray(dens_dir, z):
 	dens_zs  = None
 	dens_zs  = lightcone._get_file_redshifts(dens_zs, dens_files)
 	if z in dens_zs:
-		dens, dtype = helper_functions.get_data_and_type(dens_files[np.argwhere(z==dens_zs)])
+		dens, dtype = helper_functions.get_data_and_type(dens_files[np.argmax(dens_zs==z)])
 	else:
 		#z_l = dens_zs[dens_zs<z].max()
 		z_h = dens_zs[dens_zs>z].min()
-		#dens_l,dtype = helper_functions.get_data_and_type(dens_files[dens_zs[dens_zs<z].argmax()])
-		dens_h, dtype = helper_functions.get_data_and_type(dens_files[dens_zs[dens_zs>z].argmin()])
+		#dens_l,dtype = helper_functions.get_data_and_type(dens_files[np.argmax(dens_zs==z_l)])
+		dens_h, dtype = helper_functions.get_data_and_type(dens_files[np.argmax(dens_zs==z_h)])
 		#dens = dens_h + (dens_l-dens_h)*(z-z_h)/(z_l-z_h)
 		dens = dens_h*(1+z_h)**3/(1+z)**3
 		#print("The density cube has been interpolated using %s interpolation."%interpolation)
diff --git a/src/tools21cm/usefuls.py b/src/tools21cm/usefuls.py
index 7a54b32..5ba8e20 100755
--- a/src/tools21cm/usefuls.py
+++ b/src/tools21cm/usefuls.py
@@ -62,12 +62,12 @@ def coeval_xfrac(xfrac_dir, z, interpolation='linear'):
 	xfrac_zs = None
 	xfrac_zs = lightcone._get_file_redshifts(xfrac_zs, xfrac_files)
 	if z in xfrac_zs:
-		xfrac = xfrac_file.XfracFile(xfrac_files[np.argwhere(z==xfrac_zs)]).xi
+		xfrac = xfrac_file.XfracFile(xfrac_files[np.argmax(xfrac_zs==z)]).xi
 	else:
 		z_l = xfrac_zs[xfrac_zs<z].max()
 		z_h = xfrac_zs[xfrac_zs>z].min()
-		xfrac_l = xfrac_file.XfracFile(xfrac_files[xfrac_zs[xfrac_zs<z].argmax()]).xi
-		xfrac_h = xfrac_file.XfracFile(xfrac_files[xfrac_zs[xfrac_zs>z].argmin()]).xi
+		xfrac_l = xfrac_file.XfracFile(xfrac_files[np.argmax(xfrac_zs==z_l)]).xi
+		xfrac_h = xfrac_file.XfracFile(xfrac_files[np.argmax(xfrac_zs==z_h)]).xi
 		xfrac = xfrac_h + (xfrac_l-xfrac_h)*(z-z_h)/(z_l-z_h)
 		print("The xfrac cube has been interpolated using", interpolation, "interpolation.")
 	return xfrac
@@ -84,12 +84,12 @@ def coeval_dens(dens_dir, z, interpolation='linear'):
 	dens_zs  = None
 	dens_zs  = lightcone._get_file_redshifts(dens_zs, dens_files)
 	if z in dens_zs:
-		dens, dtype = helper_functions.get_data_and_type(dens_files[np.argwhere(z==dens_zs)])
+		dens, dtype = helper_functions.get_data_and_type(dens_files[np.argmax(dens_zs==z)])
 	else:
 		z_l = dens_zs[dens_zs<z].max()
 		z_h = dens_zs[dens_zs>z].min()
-		dens_l, dtype = helper_functions.get_data_and_type(dens_files[dens_zs[dens_zs<z].argmax()])
-		dens_h, dtype = helper_functions.get_data_and_type(dens_files[dens_zs[dens_zs>z].argmin()])
+		dens_l, dtype = helper_functions.get_data_and_type(dens_files[np.argmax(dens_zs==z_l)])
+		dens_h, dtype = helper_functions.get_data_and_type(dens_files[np.argmax(dens_zs==z_h)])
 		dens = dens_h + (dens_l-dens_h)*(z-z_h)/(z_l-z_h)
 		print("The density cube has been interpolated using", interpolation, "interpolation.")
 	return dens.astype(np.float64)
-- 
2.43.0


From 1e78e1b9d0db45042d63b2df393a8b7bba3764a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:59:22 +0000
Subject: [PATCH 59/95] fix: coeval_vel raised on a shadowed name and paired
 velocity and density files by listing position

---
 src/tools21cm/usefuls.py | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/src/tools21cm/usefuls.py b/src/tools21cm/usefuls.py
index 5ba8e20..b4065e2 100755
--- a/src/tools21cm/usefuls.py
+++ b/src/tools21cm/usefuls.py
@@ -116,18 +116,18 @@ def coeval_vel(dens_dir, vel_dir, z, interpolation='linear'):
 	vel_files  = glob.glob(vel_dir + '/*v_all.dat')
 	vel_zs     = None
 	vel_zs     = lightcone._get_file_redshifts(vel_zs, vel_files)
-	def get_vel(vel_file, dens_file):
-		dfile = density_file.DensityFile(dens_file)
-		vel_file = vel_file.VelocityFile(vel_file)
-		vel = vel_file.get_kms_from_density(dfile)
-		return vel
+	dens_zs    = lightcone._get_file_redshifts(None, dens_files)
+	def get_vel(z_file):
+		dfile = density_file.DensityFile(dens_files[np.flatnonzero(dens_zs==z_file)[0]])
+		vfile = vel_file.VelocityFile(vel_files[np.flatnonzero(vel_zs==z_file)[0]])
+		return vfile.get_kms_from_density(dfile)
 	if z in vel_zs:
-		vel = get_vel(vel_files[np.argwhere(z==vel_zs)],dens_files[np.argwhere(z==vel_zs)])
+		vel = get_vel(z)
 	else:
 		z_l = vel_zs[vel_zs<z].max()
 		z_h = vel_zs[vel_zs>z].min()
-		vel_l = get_vel(vel_files[vel_zs[vel_zs<z].argmax()],dens_files[vel_zs[vel_zs<z].argmax()])
-		vel_h = get_vel(vel_files[vel_zs[vel_zs>z].argmin()],dens_files[vel_zs[vel_zs>z].argmin()])
+		vel_l = get_vel(z_l)
+		vel_h = get_vel(z_h)
 		vel = vel_h + (vel_l-vel_h)*(z-z_h)/(z_l-z_h)
 		print("The velocity cube has been interpolated using", interpolation, "interpolation.")
 	return vel
-- 
2.43.0


From 22a999756fcf625a93eac7d52dc67911f02ea4f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:57:21 +0000
Subject: [PATCH 60/95] fix: earth_rotation_effect lost the baseline axis for
 two antennas

---
 src/tools21cm/radio_telescope_layout.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/tools21cm/radio_telescope_layout.py b/src/tools21cm/radio_telescope_layout.py
index ed23305..4a6209f 100755
--- a/src/tools21cm/radio_telescope_layout.py
+++ b/src/tools21cm/radio_telescope_layout.py
@@ -143,7 +143,7 @@ def earth_rotation_effect(Nbase, slice_nums, int_time, total_int_time, declinati
     new_Nbase[:, :, 2] = (cos_delta * cos_HA[:, None] * Nbase[:, 0] -
                           cos_delta * sin_HA[:, None] * Nbase[:, 1] + sin_delta * Nbase[:, 2])
     
-    return new_Nbase.squeeze() if len(slice_nums) == 1 else new_Nbase
+    return new_Nbase[0] if len(slice_nums) == 1 else new_Nbase
 
 def get_uv_daily_observation(ncells, z, antxyz=None, total_int_time=4., int_time=10., boxsize=None, declination=-30., include_mirror_baselines=False, verbose=True):
     """
-- 
2.43.0


From 17976b4da827701eede17ae5aafa930ccb88545c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:57:21 +0000
Subject: [PATCH 61/95] fix: grid_uv_tracks did not put the zero frequency at
 [0,0] for odd numbers of cells

---
 src/tools21cm/radio_telescope_layout.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/tools21cm/radio_telescope_layout.py b/src/tools21cm/radio_telescope_layout.py
index 4a6209f..7e30bbe 100755
--- a/src/tools21cm/radio_telescope_layout.py
+++ b/src/tools21cm/radio_telescope_layout.py
@@ -265,7 +265,7 @@ def grid_uv_tracks(Nbase, z, ncells, boxsize=None, include_mirror_baselines=Fals
         # uv_map += np.flip(np.flip(uv_map, axis=0), axis=1)  # Flip along both axes for mirror effect
         uv_map = uv_map/2.  # Average with mirrored baselines
     
-    return np.fft.fftshift(uv_map)
+    return np.fft.ifftshift(uv_map)
 
 def geographic_to_cartesian_coordinate_system(antll):
     """
-- 
2.43.0


From 70584d2ff590769d989224e450b8f026f7a25792 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:57:21 +0000
Subject: [PATCH 62/95] fix: antenna positions given as plain arrays in metres
 raised AttributeError

---
 src/tools21cm/radio_telescope_calibration.py | 5 +++--
 src/tools21cm/radio_telescope_layout.py      | 2 +-
 2 files changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/tools21cm/radio_telescope_calibration.py b/src/tools21cm/radio_telescope_calibration.py
index 1bc88e5..75d99e3 100755
--- a/src/tools21cm/radio_telescope_calibration.py
+++ b/src/tools21cm/radio_telescope_calibration.py
@@ -15,6 +15,7 @@ from . import smoothing as sm
 from glob import glob
 from time import time, sleep
 import pickle
+import astropy.units as u
 from joblib import cpu_count, Parallel, delayed
 from tqdm import tqdm
 
@@ -55,7 +56,7 @@ def from_antenna_config_with_gains(antxyz, z, nu=None,
         antll  = antll[:,-2:].astype(float)
         antxyz = geographic_to_cartesian_coordinate_system(antll)
     else:
-        antxyz = antxyz.to('m').value
+        antxyz = antxyz.to('m').value if isinstance(antxyz, u.Quantity) else np.asarray(antxyz)
     if not nu: 
         nu = cm.z_to_nu(z)                           # MHz
 
@@ -312,7 +313,7 @@ def from_antenna_config_with_antenna_stamp(antxyz, z, nu=None):
         antll  = antll[:,-2:].astype(float)
         antxyz = geographic_to_cartesian_coordinate_system(antll)
     else:
-        antxyz = antxyz.to('m').value
+        antxyz = antxyz.to('m').value if isinstance(antxyz, u.Quantity) else np.asarray(antxyz)
     if not nu: 
         nu = cm.z_to_nu(z)                                 # MHz
 
diff --git a/src/tools21cm/radio_telescope_layout.py b/src/tools21cm/radio_telescope_layout.py
index 7e30bbe..3f8993e 100755
--- a/src/tools21cm/radio_telescope_layout.py
+++ b/src/tools21cm/radio_telescope_layout.py
@@ -68,7 +68,7 @@ def from_antenna_config(antxyz, z, nu=None):
         antll  = antll[:,-2:].astype(float)
         antxyz = geographic_to_cartesian_coordinate_system(antll)
     else:
-        antxyz = antxyz.to('m').value
+        antxyz = antxyz.to('m').value if isinstance(antxyz, u.Quantity) else np.asarray(antxyz)
     if not nu: 
         nu = cm.z_to_nu(z)                           # MHz
 
-- 
2.43.0


From 38c5afc32ef64af11eb790e1eda449a239500324 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:57:22 +0000
Subject: [PATCH 63/95] fix: cartesian_to_geographic_coordinate_system always
 failed on units

---
 src/tools21cm/radio_telescope_layout.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/tools21cm/radio_telescope_layout.py b/src/tools21cm/radio_telescope_layout.py
index 3f8993e..855f693 100755
--- a/src/tools21cm/radio_telescope_layout.py
+++ b/src/tools21cm/radio_telescope_layout.py
@@ -337,8 +337,8 @@ def cartesian_to_geographic_coordinate_system(antxyz):
     Re = 6371. * u.km  # Earth's radius
 
     # Extract Cartesian coordinates and attach units
-    if isinstance(antxyz, u.quantity.Quantity):
-        antxyz *= u.m
+    if not isinstance(antxyz, u.quantity.Quantity):
+        antxyz = antxyz*u.m
     x = antxyz[:, 0]
     y = antxyz[:, 1]
     z = antxyz[:, 2]
-- 
2.43.0


From e1d9297926897d1f7acad1bf4e758df9c957fc01 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:57:22 +0000
Subject: [PATCH 64/95] fix: get_SKA_Low_layout(unit='latlon') used an
 undefined variable

---
 src/tools21cm/radio_telescope_layout.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/tools21cm/radio_telescope_layout.py b/src/tools21cm/radio_telescope_layout.py
index 855f693..f29649f 100755
--- a/src/tools21cm/radio_telescope_layout.py
+++ b/src/tools21cm/radio_telescope_layout.py
@@ -504,6 +504,7 @@ def get_SKA_Low_layout(subarray_type="AA4", unit='ecef', verbose=True):
         ant_xyz = ecef_to_xyz(ant_ecef, lon, origin_ecef)
         return ant_xyz * u.m
     elif unit in ['latlon', 'geodetic']:
+        ant_ecef = enu_to_ecef(ant_enu, lat, lon, origin_ecef)
         locations = EarthLocation.from_geocentric(ant_ecef[:, 0], ant_ecef[:, 1], ant_ecef[:, 2], unit=u.m)
         return locations.lat.deg, locations.lon.deg, locations.height.to(u.m).value
     else:
-- 
2.43.0


From a28497ee9141ad874cc8754fa054b99d3b904a4a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:57:22 +0000
Subject: [PATCH 65/95] fix: uv maps with gains or antenna stamps took the
 declination for the observing time

---
 src/tools21cm/radio_telescope_calibration.py | 16 +++++++++-------
 1 file changed, 9 insertions(+), 7 deletions(-)

diff --git a/src/tools21cm/radio_telescope_calibration.py b/src/tools21cm/radio_telescope_calibration.py
index 75d99e3..315cdf4 100755
--- a/src/tools21cm/radio_telescope_calibration.py
+++ b/src/tools21cm/radio_telescope_calibration.py
@@ -173,7 +173,7 @@ def get_uv_map_with_gains(ncells, z,
             Nbase, N_ant = from_antenna_config_with_gains(antxyz, z, gain_model=gain_model)
 
         # Apply incremental rotation for the time step
-        rotated_Nbase = earth_rotation_effect(Nbase[:,:3], time_idx, int_time, declination)
+        rotated_Nbase = earth_rotation_effect(Nbase[:,:3], time_idx, int_time, total_int_time, declination)
 
         # Grid the rotated baselines with gain values
         _grid_uv_tracks_with_gains(rotated_Nbase, Nbase[:,3:], gain_uv_map, z, ncells,
@@ -393,7 +393,7 @@ def get_full_uv_map_with_antenna_stamp(ncells, z, subarray_type="AA4", total_int
     # Parallel processing with progress bar for the first chunk
     results = Parallel(n_jobs=n_jobs)(
         delayed(_process_chunk_get_full_uv_map_with_antenna_stamp)(
-            chunk_start, chunk_end, ncells, z, Nbase, int_time, declination, boxsize, include_mirror_baselines, verbose, show_progress=(i == 0))
+            chunk_start, chunk_end, ncells, z, Nbase, int_time, total_int_time, declination, boxsize, include_mirror_baselines, verbose, show_progress=(i == 0))
             for i, (chunk_start, chunk_end) in enumerate(chunks)
     )
 
@@ -405,7 +405,7 @@ def get_full_uv_map_with_antenna_stamp(ncells, z, subarray_type="AA4", total_int
 
     return ant_tag_uv_map, N_ant
 
-def _process_chunk_get_full_uv_map_with_antenna_stamp(chunk_start, chunk_end, ncells, z, Nbase, int_time, declination, boxsize, include_mirror_baselines, verbose, show_progress):
+def _process_chunk_get_full_uv_map_with_antenna_stamp(chunk_start, chunk_end, ncells, z, Nbase, int_time, total_int_time, declination, boxsize, include_mirror_baselines, verbose, show_progress):
     """
     Process a chunk of time slices.
 
@@ -423,6 +423,8 @@ def _process_chunk_get_full_uv_map_with_antenna_stamp(chunk_start, chunk_end, nc
         Array containing ux, uy, uz values of the antenna configuration.
     int_time : float
         Integration time (in seconds).
+    total_int_time : float
+        Total observation time (in hours).
     declination : float
         Declination angle in degrees.
     boxsize : float
@@ -450,7 +452,7 @@ def _process_chunk_get_full_uv_map_with_antenna_stamp(chunk_start, chunk_end, nc
         time_indices = tqdm(time_indices, desc="Gridding uv tracks", disable=not verbose)
 
     for time_idx in time_indices:
-        rotated_Nbase = earth_rotation_effect(Nbase[:, :3], time_idx, int_time, declination)
+        rotated_Nbase = earth_rotation_effect(Nbase[:, :3], time_idx, int_time, total_int_time, declination)
         _grid_uv_tracks_with_antenna_stamp(rotated_Nbase, Nbase[:, 3:], ant_tag_uv_map_chunk, z, ncells, time_idx - chunk_start,
                                           boxsize=boxsize, include_mirror_baselines=include_mirror_baselines)
 
@@ -592,7 +594,7 @@ def get_full_uv_lagrangian_with_antenna_stamp(ncells, z, subarray_type="AA4", to
     # Parallel processing with progress bar for the first chunk
     results = Parallel(n_jobs=n_jobs)(
         delayed(_process_chunk_get_full_uv_lagrangian_with_antenna_stamp)(
-            chunk_start, chunk_end, ncells, z, Nbase, int_time, declination, boxsize, include_mirror_baselines, verbose, show_progress=(i == 0))
+            chunk_start, chunk_end, ncells, z, Nbase, int_time, total_int_time, declination, boxsize, include_mirror_baselines, verbose, show_progress=(i == 0))
             for i, (chunk_start, chunk_end) in enumerate(chunks)
     )
 
@@ -605,7 +607,7 @@ def get_full_uv_lagrangian_with_antenna_stamp(ncells, z, subarray_type="AA4", to
     ant_pairs = Nbase[:,-2:]
     return ant_tag_uv_lagr, ant_pairs
 
-def _process_chunk_get_full_uv_lagrangian_with_antenna_stamp(chunk_start, chunk_end, ncells, z, Nbase, int_time, declination, boxsize, include_mirror_baselines, verbose, show_progress):
+def _process_chunk_get_full_uv_lagrangian_with_antenna_stamp(chunk_start, chunk_end, ncells, z, Nbase, int_time, total_int_time, declination, boxsize, include_mirror_baselines, verbose, show_progress):
     """
     Processes a chunk of observation time slices for parallel computation.
 
@@ -651,7 +653,7 @@ def _process_chunk_get_full_uv_lagrangian_with_antenna_stamp(chunk_start, chunk_
         time_indices = tqdm(time_indices, desc="Gridding uv tracks", disable=not verbose)
 
     for time_idx in time_indices:
-        rotated_Nbase = earth_rotation_effect(Nbase[:, :3], time_idx, int_time, declination)
+        rotated_Nbase = earth_rotation_effect(Nbase[:, :3], time_idx, int_time, total_int_time, declination)
         _grid_uv_lagrangian_tracks_with_antenna_stamp(rotated_Nbase, Nbase[:, 3:], ant_tag_uv_map_chunk, z, ncells, time_idx - chunk_start,
                                           boxsize=boxsize, include_mirror_baselines=include_mirror_baselines)
 
-- 
2.43.0


From 54fdf8f7cffa2fb3a58e686533f905f8b4fcc666 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:57:22 +0000
Subject: [PATCH 66/95] fix: antenna-stamped uv maps failed with more jobs than
 time samples

---
 src/tools21cm/radio_telescope_calibration.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/tools21cm/radio_telescope_calibration.py b/src/tools21cm/radio_telescope_calibration.py
index 315cdf4..73721eb 100755
--- a/src/tools21cm/radio_telescope_calibration.py
+++ b/src/tools21cm/radio_telescope_calibration.py
@@ -387,7 +387,7 @@ def get_full_uv_map_with_antenna_stamp(ncells, z, subarray_type="AA4", total_int
         print(f"Starting UV map generation on {n_jobs} CPUs...")
 
     # Split the workload into chunks
-    chunk_size = total_observations // n_jobs
+    chunk_size = max(total_observations // n_jobs, 1)
     chunks = [(i, min(i + chunk_size, total_observations)) for i in range(0, total_observations, chunk_size)]
 
     # Parallel processing with progress bar for the first chunk
@@ -588,7 +588,7 @@ def get_full_uv_lagrangian_with_antenna_stamp(ncells, z, subarray_type="AA4", to
         print(f"Starting UV map generation on {n_jobs} CPUs...")
 
     # Split the workload into chunks
-    chunk_size = total_observations // n_jobs
+    chunk_size = max(total_observations // n_jobs, 1)
     chunks = [(i, min(i + chunk_size, total_observations)) for i in range(0, total_observations, chunk_size)]
 
     # Parallel processing with progress bar for the first chunk
-- 
2.43.0


From 1e2be7f3a1f60b1de21171d249466379436df633 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:57:22 +0000
Subject: [PATCH 67/95] fix: antenna-stamped uv maps used the default cosmology
 and box in parallel jobs

---
 src/tools21cm/radio_telescope_calibration.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/tools21cm/radio_telescope_calibration.py b/src/tools21cm/radio_telescope_calibration.py
index 73721eb..fffaa7c 100755
--- a/src/tools21cm/radio_telescope_calibration.py
+++ b/src/tools21cm/radio_telescope_calibration.py
@@ -391,7 +391,8 @@ def get_full_uv_map_with_antenna_stamp(ncells, z, subarray_type="AA4", total_int
     chunks = [(i, min(i + chunk_size, total_observations)) for i in range(0, total_observations, chunk_size)]
 
     # Parallel processing with progress bar for the first chunk
-    results = Parallel(n_jobs=n_jobs)(
+    results = Parallel(n_jobs=n_jobs, require='sharedmem')( #other processes would not know the cosmology and box set here
+       
         delayed(_process_chunk_get_full_uv_map_with_antenna_stamp)(
             chunk_start, chunk_end, ncells, z, Nbase, int_time, total_int_time, declination, boxsize, include_mirror_baselines, verbose, show_progress=(i == 0))
             for i, (chunk_start, chunk_end) in enumerate(chunks)
@@ -592,7 +593,8 @@ def get_full_uv_lagrangian_with_antenna_stamp(ncells, z, subarray_type="AA4", to
     chunks = [(i, min(i + chunk_size, total_observations)) for i in range(0, total_observations, chunk_size)]
 
     # Parallel processing with progress bar for the first chunk
-    results = Parallel(n_jobs=n_jobs)(
+    results = Parallel(n_jobs=n_jobs, require='sharedmem')( #other processes would not know the cosmology and box set here
+       
         delayed(_process_chunk_get_full_uv_lagrangian_with_antenna_stamp)(
             chunk_start, chunk_end, ncells, z, Nbase, int_time, total_int_time, declination, boxsize, include_mirror_baselines, verbose, show_progress=(i == 0))
             for i, (chunk_start, chunk_end) in enumerate(chunks)
-- 
2.43.0


From fc44eaefa08383ca8496c6f5aa1b2eff72a73d21 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:57:22 +0000
Subject: [PATCH 68/95] fix: positions of tracked baselines were stored under
 other baselines when some left the grid

---
 src/tools21cm/radio_telescope_calibration.py | 13 +++++--------
 1 file changed, 5 insertions(+), 8 deletions(-)

diff --git a/src/tools21cm/radio_telescope_calibration.py b/src/tools21cm/radio_telescope_calibration.py
index fffaa7c..699cdfb 100755
--- a/src/tools21cm/radio_telescope_calibration.py
+++ b/src/tools21cm/radio_telescope_calibration.py
@@ -713,13 +713,10 @@ def _grid_uv_lagrangian_tracks_with_antenna_stamp(Nbase, ant_tag, ant_tag_uv_map
         (Nb[:, 0] < ncells / 2) & (Nb[:, 1] < ncells / 2) &
         (Nb[:, 0] >= -ncells / 2) & (Nb[:, 1] >= -ncells / 2)
     )
-    ant_tag1, ant_tag2 = ant_tag[:,0], ant_tag[:,1]
-    Nb, ant_tag1, ant_tag2 = Nb[in_bounds], ant_tag1[in_bounds], ant_tag2[in_bounds]
+    Nb = Nb[in_bounds]
     
-    count = 0
-    for (x, y), ant1, ant2 in zip(Nb[:, :2].astype(int), ant_tag1.astype(int), ant_tag2.astype(int)):
-        ant_tag_uv_map[time_idx, count, 0] = x
-        ant_tag_uv_map[time_idx, count, 1] = y
-        count += 1
+    for ib, (x, y) in zip(np.flatnonzero(in_bounds), Nb[:, :2].astype(int)):
+        ant_tag_uv_map[time_idx, ib, 0] = x
+        ant_tag_uv_map[time_idx, ib, 1] = y
         if include_mirror_baselines:
-            print('include_mirror_baselines is not implemented yet.')
\ No newline at end of file
+            print('include_mirror_baselines is not implemented yet.')
-- 
2.43.0


From 910b602ae418dca1f600dc081edf08e18a9b7902 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:05:56 +0000
Subject: [PATCH 69/95] fix: get_SEFD with constant system temperature and
 aperture efficiency failed or lost the shape of the frequencies

---
 src/tools21cm/radio_telescope_sensitivity.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/tools21cm/radio_telescope_sensitivity.py b/src/tools21cm/radio_telescope_sensitivity.py
index ab00297..307fcda 100755
--- a/src/tools21cm/radio_telescope_sensitivity.py
+++ b/src/tools21cm/radio_telescope_sensitivity.py
@@ -90,7 +90,7 @@ def get_SEFD(nu_obs, T_sys=None, sefd_data=None, nu_data=None, D_station=40., ep
 	A_eff = ep_aperture_val * np.pi * ant_radius_ska ** 2  # m^2
 
 	# SEFD in Jy
-	sefd = 2 * KB_SI * T_sys_val / A_eff / janskytowatt  # Jy
+	sefd = 2 * KB_SI * T_sys_val / A_eff / janskytowatt * np.ones(nu_obs.shape)  # Jy
 
 	# Return a scalar if input was scalar
 	return sefd[0] if nu_obs.size == 1 else sefd
-- 
2.43.0


From 463ac477bb33f8667309a8792e54bddbb942cd0e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:05:56 +0000
Subject: [PATCH 70/95] fix: uniform weighting wrote the uv response into the
 noise array of the caller

---
 src/tools21cm/radio_telescope_noise.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/tools21cm/radio_telescope_noise.py b/src/tools21cm/radio_telescope_noise.py
index 7f20458..64b976a 100755
--- a/src/tools21cm/radio_telescope_noise.py
+++ b/src/tools21cm/radio_telescope_noise.py
@@ -466,7 +466,7 @@ def apply_uv_response_noise(noise, uv_map, boxsize=None, uv_weighting='natural',
 			uv_map_smooth = uv_map
 		out = noise/np.sqrt(uv_map_smooth)
 	elif uv_weighting.lower() in ['uni', 'uniform', 'uniform_weighting']:
-		out = noise
+		out = np.array(noise)
 	else:
 		print(f'{uv_weighting} scheme is not known or implemented')
 	out[uv_map<uv_map_min] = 0.
-- 
2.43.0


From ca89cc2fc2b98f742ca7bd313a3b71bd167c3296 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:05:57 +0000
Subject: [PATCH 71/95] fix: window of noise maps was not centred on the zero
 mode for odd numbers of cells

---
 src/tools21cm/radio_telescope_noise.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/tools21cm/radio_telescope_noise.py b/src/tools21cm/radio_telescope_noise.py
index 64b976a..c97dbae 100755
--- a/src/tools21cm/radio_telescope_noise.py
+++ b/src/tools21cm/radio_telescope_noise.py
@@ -391,7 +391,7 @@ def noise_map(ncells, z, depth_mhz, obs_time=1000, subarray_type="AA4", boxsize=
 	noise_four = apply_uv_response_noise(noise_arr, uv_map, boxsize=boxsize, uv_weighting=uv_weighting, suppress_sharp_features_uv_map=suppress_sharp_features_uv_map)
 	# noise_four = apply_uv_response_noise_briggs(noise_arr, uv_map, robust=2.0, epsilon=1e-6)
 	win_2d = signal_window(ncells, 'blackmanharris', ndim=2)
-	noise_four = noise_four*np.fft.fftshift(win_2d)
+	noise_four = noise_four*np.fft.ifftshift(win_2d)
 	if fft_wrap: noise_map  = ifft2_wrap(noise_four)*np.sqrt(int_time/3600./obs_time)
 	else: noise_map  = np.fft.ifft2(noise_four)*np.sqrt(int_time/3600./obs_time)
 	return np.real(noise_map)
-- 
2.43.0


From e9aec9abe54c10c1172c6c9786dfcdb10ddccc49 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:05:57 +0000
Subject: [PATCH 72/95] fix: cut on the maximum baseline was not centred on the
 zero mode

---
 src/tools21cm/radio_telescope_noise.py | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/src/tools21cm/radio_telescope_noise.py b/src/tools21cm/radio_telescope_noise.py
index c97dbae..1be3c84 100755
--- a/src/tools21cm/radio_telescope_noise.py
+++ b/src/tools21cm/radio_telescope_noise.py
@@ -614,12 +614,10 @@ def get_uv_map(ncells, z, subarray_type="AA4", total_int_time=6., int_time=10.,
 	uv_map, N_ant  = get_uv_daily_observation(ncells, z, antxyz, total_int_time=total_int_time, int_time=int_time, boxsize=boxsize, declination=declination, include_mirror_baselines=include_mirror_baselines, verbose=verbose)
 	if max_baseline is not None:
 		kcut = max_baseline_to_max_k(z, max_baseline)
-		kk = np.linspace(-ncells/2, ncells/2, ncells) * np.pi / boxsize
+		kk = np.fft.fftfreq(ncells, 1./ncells) * np.pi / boxsize #modes in the order of uv_map
 		kx, ky = np.meshgrid(kk, kk)
 		ksq = kx**2 + ky**2
-		uv_map_shift = np.fft.fftshift(uv_map)
-		uv_map_shift[ksq>kcut**2] = 0.0
-		uv_map = np.fft.fftshift(uv_map_shift)
+		uv_map[ksq>kcut**2] = 0.0
 	return uv_map, N_ant
 
 def make_uv_map_lightcone(ncells, zs, subarray_type="AA4", total_int_time=6., int_time=10., boxsize=None, declination=-30., verbose=True):
-- 
2.43.0


From 2712f0fe093aed0189ed6e057f7f638b72bb7a8b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:05:57 +0000
Subject: [PATCH 73/95] fix: uv response of a cube took the number of slices
 for the number of cells across

---
 src/tools21cm/radio_telescope_noise.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/tools21cm/radio_telescope_noise.py b/src/tools21cm/radio_telescope_noise.py
index 1be3c84..78fa76a 100755
--- a/src/tools21cm/radio_telescope_noise.py
+++ b/src/tools21cm/radio_telescope_noise.py
@@ -667,13 +667,13 @@ def apply_uv_response_on_coeval(array, z, subarray_type="AA4", boxsize=None, tot
 	np.ndarray
 		The observed 3D data cube after applying the UV mask to each slice.
 	"""
-	ncells = array.shape[-1]
+	ncells = array.shape[0]
 	if boxsize is None: boxsize = conv.LB
 	if uv_map is None: 
 		uv_map, N_ant  = get_uv_map(ncells, z, subarray_type=subarray_type, total_int_time=total_int_time, int_time=int_time, boxsize=boxsize, declination=declination)
 	data3d = np.zeros(array.shape)
 	print("Applying the uv tracks to the the coeval signal cube...")
-	for k in tqdm(range(ncells)):
+	for k in tqdm(range(array.shape[-1])):
 		data2d = apply_uv_response_on_image(array[:,:,k], uv_map=uv_map)
 		data3d[:,:,k] = data2d
 	return data3d
-- 
2.43.0


From 2adfbc535578ed5807859fdf95c6f6f347319d4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:05:57 +0000
Subject: [PATCH 74/95] fix: noise_cube_lightcone passed an argument that
 noise_lightcone does not take

---
 src/tools21cm/radio_telescope_noise.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/tools21cm/radio_telescope_noise.py b/src/tools21cm/radio_telescope_noise.py
index 78fa76a..fd05581 100755
--- a/src/tools21cm/radio_telescope_noise.py
+++ b/src/tools21cm/radio_telescope_noise.py
@@ -759,7 +759,7 @@ def noise_cube_lightcone(ncells, z, obs_time=1000, subarray_type="AA4", boxsize=
 
 	# This function body is very similar to `noise_lightcone`. Consider refactoring.
 	return noise_lightcone(ncells, zs, obs_time, subarray_type, boxsize, save_uvmap, 
-						total_int_time, int_time, declination, N_ant, uv_weighting, fft_wrap, verbose, n_jobs, checkpoint, 
+						total_int_time, int_time, declination, uv_weighting, fft_wrap, verbose, n_jobs, checkpoint, 
 						T_sys, sefd_data, nu_data, D_station, ep_aperture,
 						suppress_sharp_features_uv_map)
 
-- 
2.43.0


From b2593514887c7173d2728baf2f7de1e3f78599b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:05:57 +0000
Subject: [PATCH 75/95] fix: lightcones of uv maps failed for antenna layouts
 given as arrays

---
 src/tools21cm/radio_telescope_noise.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/tools21cm/radio_telescope_noise.py b/src/tools21cm/radio_telescope_noise.py
index fd05581..569642d 100755
--- a/src/tools21cm/radio_telescope_noise.py
+++ b/src/tools21cm/radio_telescope_noise.py
@@ -217,7 +217,7 @@ def get_uv_map_lightcone(ncells, zs, subarray_type="AA4", total_int_time=6., int
 	antxyz, N_ant = subarray_type_to_antxyz(subarray_type, verbose=verbose)
 	if boxsize is None: boxsize = conv.LB
 	if isinstance(zs, list): zs = np.array(zs)
-	if subarray_type.upper()=='AA*': subarray_type = 'AAstar'
+	if isinstance(subarray_type, str) and subarray_type.upper()=='AA*': subarray_type = 'AAstar'
 
 	# Define a dictionary of simulation parameters 
 	params = {
@@ -240,7 +240,7 @@ def get_uv_map_lightcone(ncells, zs, subarray_type="AA4", total_int_time=6., int
 		for key, current_val in params.items():
 			cached_val = uvs.get(key)
 			# Check for a mismatch
-			if cached_val is not None and cached_val != current_val:
+			if cached_val is not None and not np.array_equal(cached_val, current_val):
 				# Add the error message to a list instead of raising immediately
 				mismatch_msg = f"  - '{key}': Cached value is '{cached_val}', but current call requested '{current_val}'."
 				mismatches.append(mismatch_msg)
-- 
2.43.0


From 57e8bd6cc27ab553bc048bd0017ecfb12e99b854 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:05:57 +0000
Subject: [PATCH 76/95] fix: parallel lightcones of uv maps used the default
 cosmology

---
 src/tools21cm/radio_telescope_noise.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/tools21cm/radio_telescope_noise.py b/src/tools21cm/radio_telescope_noise.py
index 569642d..be1e9ca 100755
--- a/src/tools21cm/radio_telescope_noise.py
+++ b/src/tools21cm/radio_telescope_noise.py
@@ -262,7 +262,7 @@ def get_uv_map_lightcone(ncells, zs, subarray_type="AA4", total_int_time=6., int
 	if z_to_run:
 		if verbose: print(f'Found {len(z_to_run)} new redshifts to generate UV maps for.')
 		
-		# Define the worker function for a single redshift
+		# Define the worker function for a single redshift (run in threads: other processes would not know the cosmology set here)
 		_uvmap_worker = lambda zi: get_uv_map(ncells, zi, subarray_type=antxyz, total_int_time=total_int_time, int_time=int_time, boxsize=boxsize, declination=declination, verbose=False)[0]
 		
 		# Condition for using chunked parallel processing with checkpoints
@@ -277,7 +277,7 @@ def get_uv_map_lightcone(ncells, zs, subarray_type="AA4", total_int_time=6., int
 				
 				# Run the parallel job on the current chunk
 				# Set inner verbose to 0 to avoid clutter; outer tqdm handles progress
-				results_chunk = Parallel(n_jobs=n_jobs, verbose=0)(delayed(_uvmap_worker)(zi) for zi in z_chunk)
+				results_chunk = Parallel(n_jobs=n_jobs, verbose=0, require='sharedmem')(delayed(_uvmap_worker)(zi) for zi in z_chunk)
 				
 				# Update the main dictionary with the results from the chunk
 				for zi, uv_map in zip(z_chunk, results_chunk):
@@ -292,7 +292,7 @@ def get_uv_map_lightcone(ncells, zs, subarray_type="AA4", total_int_time=6., int
 			if n_jobs > 1:
 				# Parallel processing for all z's at once
 				if verbose: print(f"Generating all {len(z_to_run)} maps in parallel...")
-				results = Parallel(n_jobs=n_jobs, verbose=10 if verbose else 0)(delayed(_uvmap_worker)(i) for i in z_to_run)
+				results = Parallel(n_jobs=n_jobs, verbose=10 if verbose else 0, require='sharedmem')(delayed(_uvmap_worker)(i) for i in z_to_run)
 				for zi, uv_map in zip(z_to_run, results):
 					uvs['{:.3f}'.format(zi)] = uv_map
 			else:
-- 
2.43.0


From 5e939ee34357eff98d6b2e98f339fc9b394bf916 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:05:57 +0000
Subject: [PATCH 77/95] fix: an interruption while saving destroyed the uv maps
 stored so far

---
 src/tools21cm/radio_telescope_noise.py | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/src/tools21cm/radio_telescope_noise.py b/src/tools21cm/radio_telescope_noise.py
index be1e9ca..9d22055 100755
--- a/src/tools21cm/radio_telescope_noise.py
+++ b/src/tools21cm/radio_telescope_noise.py
@@ -179,6 +179,14 @@ def noise_coeval_power_spectrum_1d(ncells, z, depth_mhz, obs_time=1000, subarray
 		return pn, kn, n_modes
 	return pn, kn
 
+def _save_uv_maps(uvs, save_uvmap):
+	"""
+	(Internal) Saves the UV maps such that an interruption leaves the previous file intact.
+	"""
+	base, ext = os.path.splitext(save_uvmap)
+	write_dictionary_data(uvs, base+'.tmp'+ext)
+	os.replace(base+'.tmp'+ext, save_uvmap)
+
 def get_uv_map_lightcone(ncells, zs, subarray_type="AA4", total_int_time=6., int_time=10., boxsize=None, declination=-30., 
     save_uvmap=None, n_jobs=4, verbose=True, checkpoint=16):
 	"""
@@ -286,7 +294,7 @@ def get_uv_map_lightcone(ncells, zs, subarray_type="AA4", total_int_time=6., int
 				# Save after processing the chunk
 				if save_uvmap:
 					if verbose: print(f"\nCheckpoint: Saving results to {save_uvmap}")
-					write_dictionary_data(uvs, save_uvmap)
+					_save_uv_maps(uvs, save_uvmap)
 
 		else: # Original behavior: either sequential or parallel without checkpoints
 			if n_jobs > 1:
@@ -305,12 +313,12 @@ def get_uv_map_lightcone(ncells, zs, subarray_type="AA4", total_int_time=6., int
 					is_not_last_step = (i + 1) < len(z_to_run)
 					if save_uvmap and is_checkpoint_step and is_not_last_step:
 						if verbose: print(f"\nCheckpoint: Saving results to {save_uvmap}")
-						write_dictionary_data(uvs, save_uvmap)
+						_save_uv_maps(uvs, save_uvmap)
 		
 		# Final save to ensure the last chunk or the full result is written
 		if save_uvmap:
 			if verbose: print(f"Saving final updated UV maps to {save_uvmap}")
-			write_dictionary_data(uvs, save_uvmap)
+			_save_uv_maps(uvs, save_uvmap)
 			
 	elif verbose:
 		print("All requested redshift UV maps are already present.")
-- 
2.43.0


From 9f9dcfdc51e7cdb98e33feaea9caf44c15da7522 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:13:42 +0000
Subject: [PATCH 78/95] fix: primary_beam failed for a frequency axis other
 than the last one when the array is not cubic

---
 src/tools21cm/primary_beam.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/tools21cm/primary_beam.py b/src/tools21cm/primary_beam.py
index 14542cf..0a21aa4 100755
--- a/src/tools21cm/primary_beam.py
+++ b/src/tools21cm/primary_beam.py
@@ -34,12 +34,12 @@ def primary_beam(array, z, nu_axis=2, beam_func='Gaussian', boxsize=None, D_stat
 	assert array.ndim > 1
 	if boxsize is None: 
 		boxsize = conv.LB
-	beam = np.zeros(array.shape)
 	if array.ndim==2: 
 		beamed = array*circular_beam(array.shape[0], z, D_station=D_station, beam_func=beam_func, boxsize=boxsize)
 	else:
 		if nu_axis!=2: 
 			array = np.swapaxes(array, nu_axis, 2)
+		beam = np.zeros(array.shape)
 		if np.array(z).size==1: 
 			z = z*np.ones(array.shape[2])
 		for i in tqdm(range(z.size), disable=not verbose): 
-- 
2.43.0


From 6aaf815c2342a0ae88bc8799003bee11878e3373 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:13:42 +0000
Subject: [PATCH 79/95] fix: primary_beam ignored the first null given for a
 single slice

---
 src/tools21cm/primary_beam.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/tools21cm/primary_beam.py b/src/tools21cm/primary_beam.py
index 0a21aa4..d03d0d6 100755
--- a/src/tools21cm/primary_beam.py
+++ b/src/tools21cm/primary_beam.py
@@ -35,7 +35,7 @@ def primary_beam(array, z, nu_axis=2, beam_func='Gaussian', boxsize=None, D_stat
 	if boxsize is None: 
 		boxsize = conv.LB
 	if array.ndim==2: 
-		beamed = array*circular_beam(array.shape[0], z, D_station=D_station, beam_func=beam_func, boxsize=boxsize)
+		beamed = array*circular_beam(array.shape[0], z, D_station=D_station, beam_func=beam_func, boxsize=boxsize, l_null=l_null)
 	else:
 		if nu_axis!=2: 
 			array = np.swapaxes(array, nu_axis, 2)
-- 
2.43.0


From 8a100e0e6a1796f31d32c6e4d46caec961cf6e23 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:13:42 +0000
Subject: [PATCH 80/95] fix: primary_beam failed for a list of redshifts

---
 src/tools21cm/primary_beam.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/tools21cm/primary_beam.py b/src/tools21cm/primary_beam.py
index d03d0d6..cb37b7a 100755
--- a/src/tools21cm/primary_beam.py
+++ b/src/tools21cm/primary_beam.py
@@ -40,7 +40,8 @@ def primary_beam(array, z, nu_axis=2, beam_func='Gaussian', boxsize=None, D_stat
 		if nu_axis!=2: 
 			array = np.swapaxes(array, nu_axis, 2)
 		beam = np.zeros(array.shape)
-		if np.array(z).size==1: 
+		z = np.array(z)
+		if z.size==1: 
 			z = z*np.ones(array.shape[2])
 		for i in tqdm(range(z.size), disable=not verbose): 
 			beam[:,:,i] = circular_beam(array.shape[0], z[i], D_station=D_station, beam_func=beam_func, boxsize=boxsize, l_null=l_null)
-- 
2.43.0


From efd2161781a721372cbb370c8266bf7066459c06 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:13:42 +0000
Subject: [PATCH 81/95] fix: beam of an odd number of cells was not centred on
 a cell

---
 src/tools21cm/primary_beam.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/tools21cm/primary_beam.py b/src/tools21cm/primary_beam.py
index cb37b7a..e428541 100755
--- a/src/tools21cm/primary_beam.py
+++ b/src/tools21cm/primary_beam.py
@@ -72,7 +72,7 @@ def circular_beam(ncells, z, D_station=40., beam_func='Gaussian', boxsize=None,
         l_null = primary_beam_null(z, D_station=D_station)
     
 	# Create a grid of distances from the center
-    xx, yy = np.mgrid[-ncells/2:ncells/2,-ncells/2:ncells/2]*boxsize/ncells
+    xx, yy = (np.mgrid[0:ncells,0:ncells]-ncells//2)*boxsize/ncells
     rr = np.sqrt(xx**2+yy**2)
     
     if beam_func.lower()=='step':
-- 
2.43.0


From 0aa217540b9ee2b3f0574f37fd3c80abf7fe31ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:13:42 +0000
Subject: [PATCH 82/95] fix: label-wise operators used label values as
 positions and failed or mixed regions unless labels are 0..n-1

---
 src/tools21cm/superpixels.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/tools21cm/superpixels.py b/src/tools21cm/superpixels.py
index ecb185e..3982c5c 100755
--- a/src/tools21cm/superpixels.py
+++ b/src/tools21cm/superpixels.py
@@ -127,13 +127,13 @@ def apply_operator_labelled_data(data, labels, operator=np.mean, verbose=True):
 	idx_low = 0
 	if verbose:
 		time.sleep(1)
-		for i in tqdm(elems, disable=False if verbose else True):
-			idx_high = idx_low + num[i]
+		for n_pix in tqdm(num, disable=False if verbose else True):
+			idx_high = idx_low + n_pix
 			out.append(operator(X1[idx_low:idx_high]))
 			idx_low  = idx_high
 	else:
-		for i in elems:
-			idx_high = idx_low + num[i]
+		for n_pix in num:
+			idx_high = idx_low + n_pix
 			out.append(operator(X1[idx_low:idx_high]))
 			idx_low  = idx_high
 	return out
-- 
2.43.0


From b1bcd2a44b3d18192a580cdbe1627027200dd858 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:13:42 +0000
Subject: [PATCH 83/95] fix: pixels of a superpixel were not returned in the
 order of the data

---
 src/tools21cm/superpixels.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/tools21cm/superpixels.py b/src/tools21cm/superpixels.py
index 3982c5c..b390715 100755
--- a/src/tools21cm/superpixels.py
+++ b/src/tools21cm/superpixels.py
@@ -122,7 +122,7 @@ def apply_operator_labelled_data(data, labels, operator=np.mean, verbose=True):
 	X   = data.flatten()
 	y   = labels.flatten()
 	elems, num = np.unique(y, return_counts=1)
-	X1  = X[y.argsort()]
+	X1  = X[y.argsort(kind='stable')]
 	out = []
 	idx_low = 0
 	if verbose:
-- 
2.43.0


From 5bf47053210b00ed0de364b1f9932472619a6d1a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:13:42 +0000
Subject: [PATCH 84/95] fix: superpixel_map left regions at zero unless labels
 are 0..n-1

---
 src/tools21cm/superpixels.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/tools21cm/superpixels.py b/src/tools21cm/superpixels.py
index b390715..ebba21f 100755
--- a/src/tools21cm/superpixels.py
+++ b/src/tools21cm/superpixels.py
@@ -227,9 +227,9 @@ def superpixel_map(data, labels, mns=None, verbose=True):
 	if verbose:
 		print('Constructing the superpixel map...')
 		time.sleep(1)
-		for i in tqdm(range(mns.size)): sp_map[labels==i] = mns[i]
+		for i, mn in zip(tqdm(np.unique(labels)), mns): sp_map[labels==i] = mn
 	else:
-		for i in range(mns.size): sp_map[labels==i] = mns[i]
+		for i, mn in zip(np.unique(labels), mns): sp_map[labels==i] = mn
 	return sp_map
 
 
-- 
2.43.0


From 799a2b1054928f401fafe81dbf1cce036c1b76e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:13:42 +0000
Subject: [PATCH 85/95] fix: binary_stitch used label values as positions in
 the list of region means

---
 src/tools21cm/superpixels.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/tools21cm/superpixels.py b/src/tools21cm/superpixels.py
index ebba21f..3a35d50 100755
--- a/src/tools21cm/superpixels.py
+++ b/src/tools21cm/superpixels.py
@@ -43,7 +43,7 @@ def binary_stitch(data, labels, stitch='mean', thres=None):
 		if stitch=='otsu': thres = threshold_otsu(np.array(y1))
 		else: thres = X1.mean()
 	y2 = np.zeros(y.shape)
-	for i in np.unique(y): y2[y==i] = y1[i]
+	for i, mn in zip(np.unique(y), y1): y2[y==i] = mn
 	y2 = y2 < thres
 	return y2.reshape(data.shape)
 
-- 
2.43.0


From 8a822981203bbb4a629111c5734dab406cfe52da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:13:42 +0000
Subject: [PATCH 86/95] fix: get_superpixel_SNRs failed when the pixels are
 asked for

---
 src/tools21cm/superpixels.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/tools21cm/superpixels.py b/src/tools21cm/superpixels.py
index 3a35d50..a192cfa 100755
--- a/src/tools21cm/superpixels.py
+++ b/src/tools21cm/superpixels.py
@@ -177,7 +177,7 @@ def get_superpixel_SNRs(means=None, sigmas=None, n_pix=None, data=None, labels=N
 	means  = means[sorts]
 	if pixels:
 		pxls = get_superpixel_pixels(data=data, labels=labels, slic_segments=slic_segments)
-		pxls = pxls[sorts]
+		pxls = [pxls[i] for i in sorts]
 		return means/sigmas, means, sigmas, n_pix, pxls
 	return means/sigmas, means, sigmas, n_pix
 
-- 
2.43.0


From 6f97b7ceeb850cb0b0ae0cee108c83583a7ef5c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:15:28 +0000
Subject: [PATCH 87/95] fix: haloes were binned over the extent of the haloes
 instead of the box and landed in wrong cells

---
 src/tools21cm/nbody_file.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/tools21cm/nbody_file.py b/src/tools21cm/nbody_file.py
index 4a036fe..04f9173 100755
--- a/src/tools21cm/nbody_file.py
+++ b/src/tools21cm/nbody_file.py
@@ -248,7 +248,8 @@ class Halo2Grid:
 		# https://docs.scipy.org/doc/scipy/reference/generated/scipy.stats.binned_statistic_dd.html
 		statistic = kwargs.get('statistic', 'sum')
 		bins = kwargs.get('bins', self.n_grid)
-		binned_mass, bin_edges, bin_num = binned_statistic_dd(positions, values, statistic=statistic, bins=bins)
+		box_range = kwargs.get('range', [[0, self.n_grid]]*3) # positions are in grid units
+		binned_mass, bin_edges, bin_num = binned_statistic_dd(positions, values, statistic=statistic, bins=bins, range=box_range)
 		return binned_mass, bin_edges, bin_num
 	
 	def halo_mass_on_grid(self, **kwargs):
-- 
2.43.0


From 0244c355fd166adf0a95377475253aef386859ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:15:28 +0000
Subject: [PATCH 88/95] fix: gridding of haloes tested the units of the masses
 instead of the positions and mixed units of positions and box

---
 src/tools21cm/line_intensity.py | 4 ++--
 src/tools21cm/nbody_file.py     | 6 ++++--
 2 files changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/tools21cm/line_intensity.py b/src/tools21cm/line_intensity.py
index 0960084..e199851 100755
--- a/src/tools21cm/line_intensity.py
+++ b/src/tools21cm/line_intensity.py
@@ -49,10 +49,10 @@ def M_HI_on_grid(z, mass, pos_xyz, box_dim, n_grid, cosmo=None,
     else:
         print('The provided halo mass is assumed to be in Msun units.')
         mhalo = mass*units.Msun
-    if isinstance(mass, units.quantity.Quantity):
+    if isinstance(pos_xyz, units.quantity.Quantity):
         srcpos = pos_xyz.to('Mpc')
     else:
-        print('The provided halo mass is assumed to be in Mpc units.')
+        print('The provided halo positions are assumed to be in Mpc units.')
         srcpos = pos_xyz*units.Mpc
 
     if not isinstance(box_dim, units.quantity.Quantity):
diff --git a/src/tools21cm/nbody_file.py b/src/tools21cm/nbody_file.py
index 04f9173..b6bf2f7 100755
--- a/src/tools21cm/nbody_file.py
+++ b/src/tools21cm/nbody_file.py
@@ -309,11 +309,13 @@ def halo_list_to_grid(mass, pos_xyz, box_dim, n_grid):
 	else:
 		print('The provided halo mass is assumed to be in Msun units.')
 		mhalo_msun = mass 
-	if isinstance(mass, astropy.units.quantity.Quantity):
+	if isinstance(pos_xyz, astropy.units.quantity.Quantity):
 		srcpos_mpc = pos_xyz.to('Mpc').value
 	else:
-		print('The provided halo mass is assumed to be in Mpc units.')
+		print('The provided halo positions are assumed to be in Mpc units.')
 		srcpos_mpc = pos_xyz 
+	if isinstance(box_dim, astropy.units.quantity.Quantity):
+		box_dim = box_dim.to('Mpc').value
 
 	hg = Halo2Grid(box_len=box_dim, n_grid=n_grid)
 	hg.set_halo_pos(srcpos_mpc, unit='mpc')
-- 
2.43.0


From 1166aae01d1557ba918df19c197649df4d5ca5c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:15:28 +0000
Subject: [PATCH 89/95] fix: Halo2Grid used the positions as default masses and
 failed without units

---
 src/tools21cm/nbody_file.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/tools21cm/nbody_file.py b/src/tools21cm/nbody_file.py
index b6bf2f7..e3a833b 100755
--- a/src/tools21cm/nbody_file.py
+++ b/src/tools21cm/nbody_file.py
@@ -201,8 +201,10 @@ class Halo2Grid:
 		self.mpc_to_cm = 3.085677581491367e+24 # in cm
 		self.Msun_to_g = 1.988409870698051e+33 # in gram
 		self.pos_grid = None
+		self.mass_Msun = None
 
 	def set_halo_pos(self, pos, unit=None):
+		unit = str(unit)
 		if unit.lower()=='cm':
 			self.pos_cm_to_grid(pos) 
 		elif unit.lower()=='mpc':
@@ -211,6 +213,7 @@ class Halo2Grid:
 			self.pos_grid = pos 
 
 	def set_halo_mass(self, mass, unit=None):
+		unit = str(unit)
 		if unit.lower()=='kg':
 			self.mass_Msun = mass*1000/self.Msun_to_g
 		elif unit.lower() in ['gram','g']:
@@ -257,7 +260,7 @@ class Halo2Grid:
 		if pos is None:
 			print('Provide the halo positions via parameter "pos".')
 			return None
-		mass = kwargs.get('mass', self.pos_grid)
+		mass = kwargs.get('mass', self.mass_Msun)
 		if mass is None:
 			print('Provide the halo masses via parameter "mass".')
 			return None
-- 
2.43.0


From dbde3ddc79c949db33826b8a4da5d8a2d633c472 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:15:28 +0000
Subject: [PATCH 90/95] fix: limit on the number of Rockstar haloes read no
 halo at all, unknown file formats were not refused

---
 src/tools21cm/halo_list.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/tools21cm/halo_list.py b/src/tools21cm/halo_list.py
index 344066a..84ba77c 100755
--- a/src/tools21cm/halo_list.py
+++ b/src/tools21cm/halo_list.py
@@ -79,7 +79,8 @@ class HaloRockstar:
 					lnr_part = 6
 					lnr_vals = 19
 				else:
-					ValueError('ERROR: wrong file format (must be .list or .ascii).')
+					fileinput.close()
+					raise ValueError('ERROR: wrong file format (must be .list or .ascii).')
 			elif(linenumber == 1):
 				# Store the redshift from the file header
 				a = float(line.split()[-1])
@@ -95,7 +96,7 @@ class HaloRockstar:
 				vals = line.split()
 				
 				#Create a halo and add it to the list
-				if(len(self.halos) > max_select_number):
+				if(max_select_number < 0 or len(self.halos) < max_select_number):
 					halo = Halo()
 					halo.pos = np.array(vals[idx_pos:idx_pos+3]).astype(float) #* U.Mpc/self.h
 					halo.vel = np.array(vals[idx_vel:idx_vel+3]).astype(float) #* U.km/U.s
@@ -107,7 +108,8 @@ class HaloRockstar:
 					halo.mp = int(round(halo.m / self.part_mass, 0))
 					self.halos.append(halo)
 				else:
-					break
+					fileinput.close()
+					return False
 		
 		fileinput.close()
 		return True
-- 
2.43.0


From 173a1ac19e9851354bd36028b6a04b48dba3d31f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:15:28 +0000
Subject: [PATCH 91/95] fix: periodic padding of slices failed when more than
 twice as large

---
 src/tools21cm/angular_coordinates.py | 9 ++-------
 1 file changed, 2 insertions(+), 7 deletions(-)

diff --git a/src/tools21cm/angular_coordinates.py b/src/tools21cm/angular_coordinates.py
index 79a088d..ebed7af 100755
--- a/src/tools21cm/angular_coordinates.py
+++ b/src/tools21cm/angular_coordinates.py
@@ -326,13 +326,8 @@ def bin_lightcone_in_mpc(lightcone, frequencies, cell_size_mpc):
 
 
 def _get_padded_slice(input_slice, padded_n):
-    slice_n = input_slice.shape[0]
-    padded_slice = np.zeros((padded_n, padded_n))
-    padded_slice[:slice_n, :slice_n] = input_slice
-    padded_slice[slice_n:, :slice_n] = input_slice[:(padded_n-slice_n),:slice_n]
-    padded_slice[:slice_n, slice_n:] = input_slice[:,:(padded_n-slice_n)]
-    padded_slice[slice_n:, slice_n:] = input_slice[:(padded_n-slice_n), :(padded_n-slice_n)]
-    return padded_slice
+    idx = np.arange(padded_n) % input_slice.shape[0]
+    return input_slice[idx][:, idx]
 
 def padding_lightcone(lc, padded_n=None, mode='wrap', verbose=True):
     '''
-- 
2.43.0


From 4b0e0f5126e110fde348dc11a14cf02fb79fb43c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:15:28 +0000
Subject: [PATCH 92/95] fix: binning of lightcones shifted the slices by half a
 bin and lost signal at the ends

---
 src/tools21cm/angular_coordinates.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/tools21cm/angular_coordinates.py b/src/tools21cm/angular_coordinates.py
index ebed7af..3ca0d35 100755
--- a/src/tools21cm/angular_coordinates.py
+++ b/src/tools21cm/angular_coordinates.py
@@ -290,7 +290,7 @@ def bin_lightcone_in_frequency(lightcone, z_low, box_size_mpc, dnu):
     hf.print_msg('Smooth along LoS with scale %f' % smooth_scale)
     tophat3d = np.ones((1,1,int(smooth_scale)))
     tophat3d /= np.sum(tophat3d)
-    lightcone_smoothed = fftconvolve(lightcone, tophat3d)
+    lightcone_smoothed = _mean_along_los(lightcone, tophat3d)
     
     for i in range(output_lightcone.shape[2]):
         nu = output_frequencies[i]
@@ -314,7 +314,7 @@ def bin_lightcone_in_mpc(lightcone, frequencies, cell_size_mpc):
 
     tophat3d = np.ones((1,1,int(smooth_scale)))
     tophat3d /= np.sum(tophat3d)
-    lightcone_smoothed = fftconvolve(lightcone, tophat3d, mode='same')
+    lightcone_smoothed = _mean_along_los(lightcone, tophat3d)
     
     for i in range(output_lightcone.shape[2]):
         idx = int(hf.find_idx(distances, output_distances[i]))
@@ -325,6 +325,12 @@ def bin_lightcone_in_mpc(lightcone, frequencies, cell_size_mpc):
     return output_lightcone, output_redshifts
 
 
+def _mean_along_los(lightcone, tophat3d):
+    # Mean over the part of the window centred on each slice that is inside the lightcone
+    norm = fftconvolve(np.ones((1,1,lightcone.shape[2])), tophat3d, mode='same')
+    return fftconvolve(lightcone, tophat3d, mode='same')/norm
+
+
 def _get_padded_slice(input_slice, padded_n):
     idx = np.arange(padded_n) % input_slice.shape[0]
     return input_slice[idx][:, idx]
-- 
2.43.0


From e9786e14b370cef19f66a2f77eb77482c86809d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:15:28 +0000
Subject: [PATCH 93/95] fix: bin_lightcone_in_mpc returned more redshifts than
 slices

---
 src/tools21cm/angular_coordinates.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/tools21cm/angular_coordinates.py b/src/tools21cm/angular_coordinates.py
index 3ca0d35..1c3b4b3 100755
--- a/src/tools21cm/angular_coordinates.py
+++ b/src/tools21cm/angular_coordinates.py
@@ -306,7 +306,7 @@ def bin_lightcone_in_mpc(lightcone, frequencies, cell_size_mpc):
     '''
     distances = cm.nu_to_cdist(frequencies)
     n_output_cells = (distances[-1]-distances[0])/cell_size_mpc
-    output_distances = np.arange(distances[0], distances[-1], cell_size_mpc)
+    output_distances = distances[0] + np.arange(int(n_output_cells))*cell_size_mpc
     output_lightcone = np.zeros((lightcone.shape[0], lightcone.shape[1], int(n_output_cells)))
     
     #Bin in Mpc by smoothing and indexing
-- 
2.43.0


From c88210521d9229a87010b25c8c1a73bc19f644ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:21:11 +0000
Subject: [PATCH 94/95] fix: sigmoid beam raised the distance to the power
 2**0.5 and did not fall to half at half the first null

---
 src/tools21cm/primary_beam.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/tools21cm/primary_beam.py b/src/tools21cm/primary_beam.py
index e428541..00b8645 100755
--- a/src/tools21cm/primary_beam.py
+++ b/src/tools21cm/primary_beam.py
@@ -98,7 +98,7 @@ def circular_beam(ncells, z, D_station=40., beam_func='Gaussian', boxsize=None,
         beam[center_idx] = 1.0  # Manually set the peak to 1
     elif beam_func.lower()=='sigmoid':
         r0, b = l_null/2., 0.5
-        beam = 1.-1/(1+np.exp(b*r0-b*rr**2**0.5))
+        beam = 1.-1/(1+np.exp(b*r0-b*rr))
     else:
         raise ValueError("Please choose between 'step', 'gaussian', 'bessel', and 'sigmoid' for beam_func.")
     
-- 
2.43.0


From 4ef8bdc2e2467ad50a16ad9e07051392b7a603b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:35:04 +0000
Subject: [PATCH 95/95] fix: bin_lightcone_in_mpc failed for cells less than
 half as large as the input slices

---
 src/tools21cm/angular_coordinates.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/tools21cm/angular_coordinates.py b/src/tools21cm/angular_coordinates.py
index 1c3b4b3..c0c949c 100755
--- a/src/tools21cm/angular_coordinates.py
+++ b/src/tools21cm/angular_coordinates.py
@@ -311,6 +311,8 @@ def bin_lightcone_in_mpc(lightcone, frequencies, cell_size_mpc):
     
     #Bin in Mpc by smoothing and indexing
     smooth_scale = np.round(len(frequencies)/n_output_cells)
+    if smooth_scale < 1:
+        smooth_scale = 1
 
     tophat3d = np.ones((1,1,int(smooth_scale)))
     tophat3d /= np.sum(tophat3d)
-- 
2.43.0

