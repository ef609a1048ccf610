From 4c2d134fe8a08b823f731de02f4f289f779d90cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:58:18 +0000
Subject: [PATCH 01/47] fix: Pulse.center_wavelength_mks is in meters (nm *
 1e-9)

---
 src/pynlo/light/PulseBase.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pynlo/light/PulseBase.py b/src/pynlo/light/PulseBase.py
index 0b9b249..408ee47 100644
--- a/src/pynlo/light/PulseBase.py
+++ b/src/pynlo/light/PulseBase.py
@@ -137,7 +137,7 @@ class Pulse:
     def _get_center_wavelength_nm(self):
         return self._c_nmps / self._centerfrequency
     def _get_center_wavelength_mks(self):
-        return (self._c_nmps / self._centerfrequency )*1.0e9
+        return (self._c_nmps / self._centerfrequency )*1.0e-9
     def _get_center_frequency_THz(self):
         return self._centerfrequency        
     def _get_center_frequency_mks(self):
-- 
2.43.0


From bfb7445e9260aca895f5bd9b5edb95b6567845f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:58:18 +0000
Subject: [PATCH 02/47] fix: Pulse grid cache key includes the time window and
 separates its fields

---
 src/pynlo/light/PulseBase.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/pynlo/light/PulseBase.py b/src/pynlo/light/PulseBase.py
index 408ee47..12ac1e8 100644
--- a/src/pynlo/light/PulseBase.py
+++ b/src/pynlo/light/PulseBase.py
@@ -146,7 +146,8 @@ class Pulse:
     def _get_NPTS(self):
         return self._n
     def _get_hash(self):
-        return str(self._centerfrequency)+str(self.NPTS)    
+        return (str(self._centerfrequency) + ';' + str(self.NPTS) + ';' +
+                str(self._time_window))
     def _get_W_Hz(self):
         if (self._cache_W_Hz_hash == self.cache_hash):
             return self._cache_W_Hz
-- 
2.43.0


From 1f4195c22322b74ae143c50b2f5d8b03bb2cbde1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:58:18 +0000
Subject: [PATCH 03/47] fix: Pulse hands out copies of its cached wavelength
 and frequency grids

---
 src/pynlo/light/PulseBase.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/pynlo/light/PulseBase.py b/src/pynlo/light/PulseBase.py
index 12ac1e8..262d879 100644
--- a/src/pynlo/light/PulseBase.py
+++ b/src/pynlo/light/PulseBase.py
@@ -126,11 +126,11 @@ class Pulse:
     # Wavelength is dynamically derived from frequency grid
     def _get_wavelength_nm(self):
         if (self.cache_hash == self._cache_wl_nm_hash):
-           return self._cache_wl_nm
+           return self._cache_wl_nm.copy()
         else:
            self._cache_wl_nm_hash = self.cache_hash
            self._cache_wl_nm = 2*np.pi*self._c_nmps / self.W_THz
-           return self._cache_wl_nm
+           return self._cache_wl_nm.copy()
     # Wavelength is dynamically derived from frequency grid
     def _get_wavelength_m(self):    
         return 2*np.pi*self._c_mks / self.W_mks
@@ -150,11 +150,11 @@ class Pulse:
                 str(self._time_window))
     def _get_W_Hz(self):
         if (self._cache_W_Hz_hash == self.cache_hash):
-            return self._cache_W_Hz
+            return self._cache_W_Hz.copy()
         else:
             self._cache_W_Hz_hash = self.cache_hash
             self._cache_W_Hz                 =  self._W * 1e12
-            return self._cache_W_Hz
+            return self._cache_W_Hz.copy()
     def _get_F_Hz(self):
         return self._get_W_Hz() / (2.0*np.pi)            
     def _get_W_THz(self):
-- 
2.43.0


From 78a8b33c61847a671963d5b5c9cf01f7a320a2fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:58:18 +0000
Subject: [PATCH 04/47] fix: Pulse.expand_time_window validates new_pts_loc
 before altering the pulse

---
 src/pynlo/light/PulseBase.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/pynlo/light/PulseBase.py b/src/pynlo/light/PulseBase.py
index 262d879..ac7b42b 100644
--- a/src/pynlo/light/PulseBase.py
+++ b/src/pynlo/light/PulseBase.py
@@ -752,6 +752,8 @@ class Pulse:
             Where to put the new points. Valid options are "before", "even", 
             "after
         """
+        if new_pts_loc not in ("before", "after", "even"):
+            raise ValueError("new_pts_loc must be one of 'before', 'after', 'even'")
         num_new_pts = self.NPTS*(2**factor_log2 - 1)
         AT_current = self.AT
         
-- 
2.43.0


From 9933383c8759dba67eb01f8b69b8d0e64e030b38 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:58:18 +0000
Subject: [PATCH 05/47] fix: intensity autocorrelation correlates intensity
 with intensity

---
 src/pynlo/light/PulseBase.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pynlo/light/PulseBase.py b/src/pynlo/light/PulseBase.py
index ac7b42b..03df81c 100644
--- a/src/pynlo/light/PulseBase.py
+++ b/src/pynlo/light/PulseBase.py
@@ -876,7 +876,7 @@ class Pulse:
             time grid.
             
         """  
-        return np.correlate(abs(self.AT)**2, abs(self.AT), mode='same')  
+        return np.correlate(abs(self.AT)**2, abs(self.AT)**2, mode='same')  
         
     def write_frog(self,
                  fileloc = 'broadened_er_pulse.dat', # default EDFA spectrum
-- 
2.43.0


From 40b4ab928f899e65c265576a916288d62a464209 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:58:18 +0000
Subject: [PATCH 06/47] fix: Pulse.write_frog uses the existing accessors and
 honours flip_phase

---
 src/pynlo/light/PulseBase.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/pynlo/light/PulseBase.py b/src/pynlo/light/PulseBase.py
index 03df81c..4ab2644 100644
--- a/src/pynlo/light/PulseBase.py
+++ b/src/pynlo/light/PulseBase.py
@@ -893,9 +893,11 @@ class Pulse:
         is multiplied by frep to calculate pulse energy"""       
         
         self.fileloc   = fileloc             
-        phase_data = np.unwrap(np.angle(self.get_AW()))
-        inten_data = np.abs(self.get_AW())
-        wavel_data = self.internal_wl_to_nm(self.wl_nm)
+        phase_data = np.unwrap(np.angle(self.AW))
+        if flip_phase:
+            phase_data = -1 * phase_data
+        inten_data = np.abs(self.AW)
+        wavel_data = self.wl_nm
         
         # Write pulse data file
         np.savetxt(self.fileloc, np.vstack((wavel_data, inten_data, phase_data)).T) 
-- 
2.43.0


From b37235170fc1cc819e6ce7925fb402e7e6439d1f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:58:18 +0000
Subject: [PATCH 07/47] fix: raise, not merely construct, the unset-unit error

---
 src/pynlo/light/PulseBase.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/pynlo/light/PulseBase.py b/src/pynlo/light/PulseBase.py
index 4ab2644..a2d6fe8 100644
--- a/src/pynlo/light/PulseBase.py
+++ b/src/pynlo/light/PulseBase.py
@@ -475,11 +475,11 @@ class Pulse:
 
     def _ext_units_nmps(self):
         if self._external_units is None:
-            RuntimeError('Unit type has not been set.')
+            raise RuntimeError('Unit type has not been set.')
         return self._external_units == 'nmps'
     def _ext_units_mks(self):
         if self._external_units is None:
-            RuntimeError('Unit type has not been set.')
+            raise RuntimeError('Unit type has not been set.')
         return self._external_units == 'mks'
 
     ####### Core public  functions     ########################################        
-- 
2.43.0


From 2a84cebbd820d22a42049bc544aff9b9e03179a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:58:18 +0000
Subject: [PATCH 08/47] fix: SincPulse with average power uses the same sinc
 profile as with peak power

---
 src/pynlo/light/DerivedPulses.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pynlo/light/DerivedPulses.py b/src/pynlo/light/DerivedPulses.py
index 222ed6d..588d441 100644
--- a/src/pynlo/light/DerivedPulses.py
+++ b/src/pynlo/light/DerivedPulses.py
@@ -114,7 +114,7 @@ class SincPulse(Pulse):
             # numpy.sinc is sin(pi*x)/(pi*x), so we divide by pi
             self.set_AT( np.sqrt(power) * np.sinc(self.T_ps/(T0_ps*np.pi)) ) 
         else:
-            self.set_AT( 1 / np.sinc(np.pi * self.T_ps/(T0_ps*np.pi)) )
+            self.set_AT( np.sinc(self.T_ps/(T0_ps*np.pi)) )
             self.set_AT(self.AT * np.sqrt( power / ( frep_MHz*1.0e6 * self.calc_epp()) ))
         
         self.chirp_pulse_W(GDD, TOD)
-- 
2.43.0


From 3d777212af19ff2434c65285dfabec3945ae5a30 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:58:18 +0000
Subject: [PATCH 09/47] fix: NoisePulse applies a random phase (no second
 imaginary unit)

---
 src/pynlo/light/DerivedPulses.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pynlo/light/DerivedPulses.py b/src/pynlo/light/DerivedPulses.py
index 588d441..bfa2c00 100644
--- a/src/pynlo/light/DerivedPulses.py
+++ b/src/pynlo/light/DerivedPulses.py
@@ -183,7 +183,7 @@ class NoisePulse(Pulse):
         self.set_time_window_ps(time_window_ps)        
         
         self.set_AW( 1e-30 * np.ones(self.NPTS) * np.exp(1j * 2 * np.pi *
-                 1j * np.random.rand(self.NPTS)))
+                 np.random.rand(self.NPTS)))
                  
 class CWPulse(Pulse):
     def __init__(self, avg_power, center_wavelength_nm, time_window_ps = 10.0,
-- 
2.43.0


From 4b9b85044d2f92421553cb17f370f917439575f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:00:11 +0000
Subject: [PATCH 10/47] fix: SSFM.propagate no longer uses the removed np.float
 alias

---
 src/pynlo/interactions/FourWaveMixing/SSFM.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pynlo/interactions/FourWaveMixing/SSFM.py b/src/pynlo/interactions/FourWaveMixing/SSFM.py
index 91cc905..091a04e 100755
--- a/src/pynlo/interactions/FourWaveMixing/SSFM.py
+++ b/src/pynlo/interactions/FourWaveMixing/SSFM.py
@@ -524,7 +524,7 @@ class SSFM:
         
 
         for i in range(n_steps):                        
-            print ("Step:", i, "Distance remaining:", fiber.length * (1 - np.float(i)/n_steps) )
+            print ("Step:", i, "Distance remaining:", fiber.length * (1 - float(i)/n_steps) )
             
             if reload_fiber_each_step:
                 self.load_fiber_parameters(pulse_in, fiber, output_power, z=i*delta_z) 
-- 
2.43.0


From 8d0e968cc2685c4fc6df38ea2b54cf6e26cc5a18 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:00:11 +0000
Subject: [PATCH 11/47] fix: calculate_coherence honours random_seed,
 output_power and reload_fiber_each_step

---
 src/pynlo/interactions/FourWaveMixing/SSFM.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/pynlo/interactions/FourWaveMixing/SSFM.py b/src/pynlo/interactions/FourWaveMixing/SSFM.py
index 091a04e..d2c1f56 100755
--- a/src/pynlo/interactions/FourWaveMixing/SSFM.py
+++ b/src/pynlo/interactions/FourWaveMixing/SSFM.py
@@ -580,13 +580,18 @@ class SSFM:
             obtained from :func:`pynlo.interactions.FourWaveMixing.SSFM.propagate`.
         """
         
+        if random_seed is not None:
+            np.random.seed(random_seed)
+
         results = []
         for num in range(0, num_trials):
 
             pulse = pulse_in.create_cloned_pulse()
             pulse.add_noise(noise_type=noise_type)
 
-            y, AW, AT, pulse_out = self.propagate(pulse_in=pulse, fiber=fiber, n_steps=n_steps)
+            y, AW, AT, pulse_out = self.propagate(pulse_in=pulse, fiber=fiber, n_steps=n_steps,
+                                                  output_power=output_power,
+                                                  reload_fiber_each_step=reload_fiber_each_step)
 
             results.append((y, AW, AT, pulse_in, pulse_out))
 
-- 
2.43.0


From 5749e05178902a4b7770aa73ee6eca7e9d316f9e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:00:11 +0000
Subject: [PATCH 12/47] fix: propagate_to_gain_goal reads the pulse repetition
 rate by its accessor

---
 src/pynlo/interactions/FourWaveMixing/SSFM.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/pynlo/interactions/FourWaveMixing/SSFM.py b/src/pynlo/interactions/FourWaveMixing/SSFM.py
index d2c1f56..102dac1 100755
--- a/src/pynlo/interactions/FourWaveMixing/SSFM.py
+++ b/src/pynlo/interactions/FourWaveMixing/SSFM.py
@@ -633,15 +633,15 @@ class SSFM:
                                                  1,
                                                  output_power = scalefactor *\
                                                                  power_goal)         
-        scalefactor_revised = (power_goal / (pulse_out.calc_epp()*pulse_out.frep))
-        modeled_avg_power   = pulse_out.calc_epp()*pulse_out.frep                                                                 
+        scalefactor_revised = (power_goal / (pulse_out.calc_epp()*pulse_out.frep_mks))
+        modeled_avg_power   = pulse_out.calc_epp()*pulse_out.frep_mks                                                                 
         output_scale = scalefactor
         while abs(modeled_avg_power - power_goal) / power_goal > powertol:
             y, AW, AT, pulse_out = self.propagate(pulse_in, fiber,
                                                      1, output_power = 
                                                      power_goal * scalefactor_revised)
             modeled_avg_power_prev = modeled_avg_power
-            modeled_avg_power = pulse_out.calc_epp()*pulse_out.frep
+            modeled_avg_power = pulse_out.calc_epp()*pulse_out.frep_mks
             slope = (modeled_avg_power - modeled_avg_power_prev) /\
                             (scalefactor_revised - scalefactor)                            
             yint = modeled_avg_power_prev - slope*scalefactor    
-- 
2.43.0


From 0fdb93281d5d94ebef1a69207b045e0cd65f6cff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:00:11 +0000
Subject: [PATCH 13/47] fix: Raman plots use the pulse time grid accessor

---
 src/pynlo/interactions/FourWaveMixing/SSFM.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/pynlo/interactions/FourWaveMixing/SSFM.py b/src/pynlo/interactions/FourWaveMixing/SSFM.py
index 102dac1..ce6206d 100755
--- a/src/pynlo/interactions/FourWaveMixing/SSFM.py
+++ b/src/pynlo/interactions/FourWaveMixing/SSFM.py
@@ -212,9 +212,9 @@ class SSFM:
             plt.title('Angle[R(w)]')
             plt.xlabel('THz')
             plt.subplot(223)
-            plt.plot(pulse_in.T*1000, ifftshift(np.real(self.IFFT_t(\
+            plt.plot(pulse_in.T_ps*1000, ifftshift(np.real(self.IFFT_t(\
                     self.R - (1-self.f_R)))), 'bo')
-            plt.plot(pulse_in.T*1000, ifftshift(np.real(self.IFFT_t(\
+            plt.plot(pulse_in.T_ps*1000, ifftshift(np.real(self.IFFT_t(\
                     self.R0 - (1-self.f_R0)))), 'r')
             plt.title('Abs[R[t]]')
             plt.xlim([0,1000])
-- 
2.43.0


From 76873085f84133ba05591aa9cb9937116999ab07 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:00:11 +0000
Subject: [PATCH 14/47] fix: SSFM step clamp always lands on the end of the
 interval

---
 src/pynlo/interactions/FourWaveMixing/SSFM.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pynlo/interactions/FourWaveMixing/SSFM.py b/src/pynlo/interactions/FourWaveMixing/SSFM.py
index ce6206d..6a17b24 100755
--- a/src/pynlo/interactions/FourWaveMixing/SSFM.py
+++ b/src/pynlo/interactions/FourWaveMixing/SSFM.py
@@ -366,7 +366,7 @@ class SSFM:
             dist -= 2.0*old_dz
             self.iter += 1
 #            printf("-> [%d] dz = %g dist = %g (old_dz = %g) (z = %g)\n",n,dz,dist,old_dz,self.z)
-            if (2.0*dz > dist) and (dist>2.0*self.dz_min):
+            if (2.0*dz > dist) and (dist>0.0):
                 force_last_dz = True
                 return_dz = dz
                 dz = dist/2.0
-- 
2.43.0


From 8fba72d892211bb02eb3d538c581302b85334c10 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:00:11 +0000
Subject: [PATCH 15/47] fix: SSFM.propagate records fields in complex128 as
 documented

---
 src/pynlo/interactions/FourWaveMixing/SSFM.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/pynlo/interactions/FourWaveMixing/SSFM.py b/src/pynlo/interactions/FourWaveMixing/SSFM.py
index 6a17b24..8045a4c 100755
--- a/src/pynlo/interactions/FourWaveMixing/SSFM.py
+++ b/src/pynlo/interactions/FourWaveMixing/SSFM.py
@@ -511,8 +511,8 @@ class SSFM:
         else:
             delta_z = z_positions[1] - z_positions[0]
 
-        AW = np.complex64(np.zeros((pulse_in.NPTS, n_steps)))
-        AT = np.complex64(np.copy(AW))
+        AW = np.zeros((pulse_in.NPTS, n_steps), dtype='complex128')
+        AT = np.copy(AW)
         
         print ("Pulse energy before", fiber.fibertype,":", \
               1e9 * pulse_in.calc_epp(), 'nJ' )
-- 
2.43.0


From 768a0440fa4a52124fa0bb4109077a4c2254e965 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:00:38 +0000
Subject: [PATCH 16/47] fix: DTabulationToBetas no longer rescales the caller's
 table in place

---
 src/pynlo/media/fibers/calculators.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pynlo/media/fibers/calculators.py b/src/pynlo/media/fibers/calculators.py
index 5499a6c..3459fc1 100644
--- a/src/pynlo/media/fibers/calculators.py
+++ b/src/pynlo/media/fibers/calculators.py
@@ -38,7 +38,7 @@ def DTabulationToBetas(lambda0, DData, polyOrder, DDataIsFile = True, return_dia
     if DDataIsFile:
         DTab = np.genfromtxt(DData,delimiter=',',skiprows=1)
     else:
-        DTab = DData[:]
+        DTab = np.array(DData, dtype=float)
             
     # Units of D are ps/nm/km
     # Convert to s/m/m 
-- 
2.43.0


From 58d47911ccaecab0c31e77c68ef153279c0b67a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:00:38 +0000
Subject: [PATCH 17/47] fix: DTabulationToBetas reads files with genfromtxt's
 skip_header

---
 src/pynlo/media/fibers/calculators.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pynlo/media/fibers/calculators.py b/src/pynlo/media/fibers/calculators.py
index 3459fc1..0084cde 100644
--- a/src/pynlo/media/fibers/calculators.py
+++ b/src/pynlo/media/fibers/calculators.py
@@ -36,7 +36,7 @@ def DTabulationToBetas(lambda0, DData, polyOrder, DDataIsFile = True, return_dia
     # Expand about lambda0
     makePlots = 0
     if DDataIsFile:
-        DTab = np.genfromtxt(DData,delimiter=',',skiprows=1)
+        DTab = np.genfromtxt(DData,delimiter=',',skip_header=1)
     else:
         DTab = np.array(DData, dtype=float)
             
-- 
2.43.0


From 8f4f3b450a4fd62551ed61cf22c9ed8c16183e66 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:00:38 +0000
Subject: [PATCH 18/47] fix: every fiber owns its fiberspecs instead of sharing
 the class or database dict

---
 src/pynlo/media/fibers/fiber.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/pynlo/media/fibers/fiber.py b/src/pynlo/media/fibers/fiber.py
index 514bb4e..43482d1 100755
--- a/src/pynlo/media/fibers/fiber.py
+++ b/src/pynlo/media/fibers/fiber.py
@@ -61,6 +61,7 @@ class FiberInstance:
         self.c_mks = constants.speed_of_light
         self.c = constants.speed_of_light * 1e9/1e12 # c in nm/ps
         self.is_simple_fiber = False
+        self.fiberspecs = {}
         self.fiberloader = JSONFiberLoader.JSONFiberLoader(fiber_db, 
                                                            fiber_db_dir)
         self.dispersion_changes_with_z = False
@@ -70,7 +71,7 @@ class FiberInstance:
     def load_from_db(self, length, fibertype, poly_order = 2):
         """This loads a fiber from the database. """
         self.fibertype = fibertype
-        self.fiberspecs = self.fiberloader.get_fiber(fibertype)
+        self.fiberspecs = dict(self.fiberloader.get_fiber(fibertype))
         self.length = length
         self.betas = np.array([0])
         self.gamma = self.fiberspecs["gamma"]
-- 
2.43.0


From bdb939e0b0bd4f4e2302cb00ca671eaad1494943 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:00:38 +0000
Subject: [PATCH 19/47] fix: GVD database fibers given per meter keep their
 dispersion

---
 src/pynlo/media/fibers/fiber.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/pynlo/media/fibers/fiber.py b/src/pynlo/media/fibers/fiber.py
index 43482d1..f32861c 100755
--- a/src/pynlo/media/fibers/fiber.py
+++ b/src/pynlo/media/fibers/fiber.py
@@ -121,9 +121,10 @@ class FiberInstance:
         elif self.fiberspecs["dispersion_format"] == "GVD":
             self.dispersion_gvd_units = self.fiberspecs["dispersion_gvd_units"]
             self.center_wavelength = self.fiberspecs["dispersion_gvd_center_wavelength"]
+            self.betas = np.array(self.fiberspecs["dispersion_data"])
             # If in km^-1 units, scale to m^-1
             if self.dispersion_gvd_units == 'ps^n/km':
-                self.betas = np.array(self.fiberspecs["dispersion_data"]) / 1e3
+                self.betas = self.betas / 1e3
             return 1
         else:
             print( "Error: no dispersion found.")
-- 
2.43.0


From 71377eedb6d95c63dea3ff6f505bc5372a381ddb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:00:38 +0000
Subject: [PATCH 20/47] fix: index-format fibers use the same speed of light as
 the pulse grid

---
 src/pynlo/media/fibers/fiber.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pynlo/media/fibers/fiber.py b/src/pynlo/media/fibers/fiber.py
index f32861c..a1f7f52 100755
--- a/src/pynlo/media/fibers/fiber.py
+++ b/src/pynlo/media/fibers/fiber.py
@@ -281,7 +281,7 @@ class FiberInstance:
             # self.x is the wavelength in nm
             # self.y is the refractive index (unitless)
             
-            supplied_W_THz = 2 * np.pi * 1e-12 * 3e8 / (self.x*1e-9)
+            supplied_W_THz = 2 * np.pi * 1e-12 * self.c_mks / (self.x*1e-9)
             supplied_betas = self.y * 2 * np.pi / (self.x * 1e-9)
             
             # InterpolatedUnivariateSpline wants increasing x, so flip arrays
-- 
2.43.0


From 6ca261653a7c5d50cd04940ef954908c44c6e915 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:00:38 +0000
Subject: [PATCH 21/47] fix: get_gain reads the pulse repetition rate by its
 accessor

---
 src/pynlo/media/fibers/fiber.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pynlo/media/fibers/fiber.py b/src/pynlo/media/fibers/fiber.py
index a1f7f52..0abc35b 100755
--- a/src/pynlo/media/fibers/fiber.py
+++ b/src/pynlo/media/fibers/fiber.py
@@ -326,7 +326,7 @@ class FiberInstance:
                                  bounds_error=False,fill_value=0)
                     gain_spec = f(pulse.W_mks/ (2*np.pi))
 
-                    g = lambda k: np.abs(output_power - pulse.frep_Hz * pulse.dT_mks*
+                    g = lambda k: np.abs(output_power - pulse.frep_mks * pulse.dT_mks*
                                         np.trapz(np.abs(
                                             IFFT_t( pulse.AW *
                                                 np.exp(k*gain_spec*self.length/2.0)
-- 
2.43.0


From d9da5d324398b7de553959c9c5bb6289a3f077c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:00:38 +0000
Subject: [PATCH 22/47] fix: an unknown dispersion format is an error, not beta
 = -1

---
 src/pynlo/media/fibers/fiber.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/pynlo/media/fibers/fiber.py b/src/pynlo/media/fibers/fiber.py
index 0abc35b..866f7b5 100755
--- a/src/pynlo/media/fibers/fiber.py
+++ b/src/pynlo/media/fibers/fiber.py
@@ -302,7 +302,8 @@ class FiberInstance:
             return B
             
         else:
-            return -1
+            raise ValueError('Unknown dispersion format: %s'
+                             % self.fiberspecs["dispersion_format"])
             
             
     def get_gain(self,pulse,output_power = 1):
-- 
2.43.0


From a2ff42bb780c7066fb53e001ee86d4dd7c5b0123 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:00:38 +0000
Subject: [PATCH 23/47] fix: loading or generating a fiber discards a previous
 z-dependent profile

---
 src/pynlo/media/fibers/fiber.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/pynlo/media/fibers/fiber.py b/src/pynlo/media/fibers/fiber.py
index 866f7b5..92a0ef5 100755
--- a/src/pynlo/media/fibers/fiber.py
+++ b/src/pynlo/media/fibers/fiber.py
@@ -70,6 +70,8 @@ class FiberInstance:
         
     def load_from_db(self, length, fibertype, poly_order = 2):
         """This loads a fiber from the database. """
+        self.dispersion_changes_with_z = False
+        self.gamma_changes_with_z = False
         self.fibertype = fibertype
         self.fiberspecs = dict(self.fiberloader.get_fiber(fibertype))
         self.length = length
@@ -87,6 +89,8 @@ class FiberInstance:
         """
         import os
         
+        self.dispersion_changes_with_z = False
+        self.gamma_changes_with_z = False
         if fiberName == None:
             self.fibertype = os.path.basename(filename)
         else:
@@ -365,6 +369,8 @@ class FiberInstance:
                        gvd_units = 'ps^n/m', label = 'Simple Fiber'):
         """ This generates a fiber instance using the beta-coefficients."""
         
+        self.dispersion_changes_with_z = False
+        self.gamma_changes_with_z = False
         self.length = length
         self.fiberspecs= {}
         self.fiberspecs['dispersion_format'] = 'GVD'
-- 
2.43.0


From 92f49433bb502df7a50cee841276ef04efec39d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:01:29 +0000
Subject: [PATCH 24/47] fix: each crystal owns its properties instead of
 overwriting the class's

---
 src/pynlo/media/crystals/CrystalContainer.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/pynlo/media/crystals/CrystalContainer.py b/src/pynlo/media/crystals/CrystalContainer.py
index b6739e6..ffcc120 100644
--- a/src/pynlo/media/crystals/CrystalContainer.py
+++ b/src/pynlo/media/crystals/CrystalContainer.py
@@ -38,6 +38,7 @@ class Crystal:
                             'damage_threshold_info' : ''}
     
     def __init__(self, params):                
+        self._crystal_properties = dict(self._crystal_properties)
         if 'length' in params.keys():
             self._length = params['length']
         else:
-- 
2.43.0


From f17a73256e121b6801ffe9252d0b2fc8c8a72f11 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:01:29 +0000
Subject: [PATCH 25/47] fix: refractive index cache is per crystal, private and
 dropped when T or theta changes

---
 src/pynlo/media/crystals/CrystalContainer.py | 5 +++--
 src/pynlo/media/crystals/XTAL_AgGaS.py       | 1 +
 src/pynlo/media/crystals/XTAL_AgGaSe2.py     | 1 +
 src/pynlo/media/crystals/XTAL_PPLN.py        | 2 ++
 4 files changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/pynlo/media/crystals/CrystalContainer.py b/src/pynlo/media/crystals/CrystalContainer.py
index ffcc120..0b47ee8 100644
--- a/src/pynlo/media/crystals/CrystalContainer.py
+++ b/src/pynlo/media/crystals/CrystalContainer.py
@@ -39,6 +39,7 @@ class Crystal:
     
     def __init__(self, params):                
         self._crystal_properties = dict(self._crystal_properties)
+        self._cached_ns = {}
         if 'length' in params.keys():
             self._length = params['length']
         else:
@@ -63,13 +64,13 @@ class Crystal:
             frequency grid inside the crystal """
         if self._enable_caching:
             if pulse_instance.cache_hash + str(axis) in self._cached_ns.keys():
-                return self._cached_ns[pulse_instance.cache_hash + str(axis)]
+                return np.copy(self._cached_ns[pulse_instance.cache_hash + str(axis)])
             else:
                 if axis is None:
                     ns = self.n(pulse_instance.wl_nm)
                 else:
                     ns = self.n(pulse_instance.wl_nm, axis)
-                self._cached_ns[pulse_instance.cache_hash + str(axis)]= ns
+                self._cached_ns[pulse_instance.cache_hash + str(axis)]= np.copy(ns)
         else:
             if axis is None:
                 ns = self.n(pulse_instance.wl_nm)
diff --git a/src/pynlo/media/crystals/XTAL_AgGaS.py b/src/pynlo/media/crystals/XTAL_AgGaS.py
index 665c97a..10887ae 100644
--- a/src/pynlo/media/crystals/XTAL_AgGaS.py
+++ b/src/pynlo/media/crystals/XTAL_AgGaS.py
@@ -69,6 +69,7 @@ class AgGaSe2(Crystal):
         self.deff  = 8.69e-12 # from SNLO, original given in pm / V        
     def set_theta(self, angle):
         self.theta = angle
+        self._cached_ns = {}
     def n(self, wl_nm, axis = "mix"):        
         """ Axis specifies crystal axis, either o, e, or mix. If mix, class
             instances value for theta sets mixing angle (0 = pure ordinary). 
diff --git a/src/pynlo/media/crystals/XTAL_AgGaSe2.py b/src/pynlo/media/crystals/XTAL_AgGaSe2.py
index 905ed86..1a37931 100644
--- a/src/pynlo/media/crystals/XTAL_AgGaSe2.py
+++ b/src/pynlo/media/crystals/XTAL_AgGaSe2.py
@@ -63,6 +63,7 @@ class AgGaSe2(Crystal):
         self.deff  = 28.5e-12 # from SNLO, original given in pm / V        
     def set_theta(self, angle):
         self.theta = angle
+        self._cached_ns = {}
     def n(self, wl_nm, axis = "mix"):        
         """ Axis specifies crystal axis, either o, e, or mix. If mix, class
             instances value for theta sets mixing angle (0 = pure ordinary). 
diff --git a/src/pynlo/media/crystals/XTAL_PPLN.py b/src/pynlo/media/crystals/XTAL_PPLN.py
index 601987a..f08311b 100644
--- a/src/pynlo/media/crystals/XTAL_PPLN.py
+++ b/src/pynlo/media/crystals/XTAL_PPLN.py
@@ -93,6 +93,7 @@ class PPLN(Crystal):
             for MgO-doped congruent and stoichiometric LiNbO3'
         """
         self.T = T
+        self._cached_ns = {}
         self.mode = 'PP'
         self.sellmeier_type = data_source
         
@@ -115,6 +116,7 @@ class PPLN(Crystal):
             self.pp = lambda x: p(x)
     def set_T(self, T_degC):
         self.T = T_degC
+        self._cached_ns = {}
         self.set_xtalT(T_degC)
         
     def calculate_poling_period(self, pump_wl_nm, sgnl_wl_nm, idlr_wl_nm, 
-- 
2.43.0


From 82b00177096ac1d350387e939bdb7e1913e0d4d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:01:29 +0000
Subject: [PATCH 26/47] fix: Crystal.set_pp_chirp uses the existing length
 accessor

---
 src/pynlo/media/crystals/CrystalContainer.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pynlo/media/crystals/CrystalContainer.py b/src/pynlo/media/crystals/CrystalContainer.py
index 0b47ee8..e40689b 100644
--- a/src/pynlo/media/crystals/CrystalContainer.py
+++ b/src/pynlo/media/crystals/CrystalContainer.py
@@ -50,7 +50,7 @@ class Crystal:
             self._enable_caching = False
             
     def set_pp_chirp(self, start, stop):
-        self.pp   = lambda x: start + (stop-start) * x /self.length        
+        self.pp   = lambda x: start + (stop-start) * x /self.length_mks
     def get_pulse_k(self, pulse_instance, axis = None):
         """ Return vector of angular wavenumbers (m^-1) for the pulse_instance's 
             frequency grid inside the crystal """
-- 
2.43.0


From c1e979719ea01218c483d167abd4a0dc7c14a01f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:01:29 +0000
Subject: [PATCH 27/47] fix: group velocity and dispersion use the crystal's
 default axis when none is given

---
 src/pynlo/media/crystals/CrystalContainer.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/pynlo/media/crystals/CrystalContainer.py b/src/pynlo/media/crystals/CrystalContainer.py
index e40689b..e5df67f 100644
--- a/src/pynlo/media/crystals/CrystalContainer.py
+++ b/src/pynlo/media/crystals/CrystalContainer.py
@@ -81,7 +81,7 @@ class Crystal:
         """ Calculate group velocity vg at 'wavelengths_nm' [nm] along 'axis'
             in units of nm/ps """
         # Equation 4.7.7b in Verdeyen
-        fn = lambda x: self.n(x, axis)
+        fn = (lambda x: self.n(x)) if axis is None else (lambda x: self.n(x, axis))
         dn_dl = misc.derivative(fn, wavelengths_nm, dx = 0.1, n = 1, order = 11)
         vg_inverse = (1.0 / self._c_nm_ps) * (fn(wavelengths_nm) - wavelengths_nm * dn_dl)
         return 1.0 / vg_inverse
@@ -100,7 +100,7 @@ class Crystal:
     def calculate_D_ps_nm_km(self, wavelengths_nm, axis = None):
         """ Calculate crystal dispersion at 'wavelengths_nm' [nm] along 'axis' in
             standard photonic engineering units ps/nm/km"""        
-        fn = lambda x: self.n(x, axis)
+        fn = (lambda x: self.n(x)) if axis is None else (lambda x: self.n(x, axis))
         d2n_dl2 = misc.derivative(fn, wavelengths_nm, dx = 0.1, n = 2, order = 11)
         D1      = (wavelengths_nm / self._c_nm_ps) * d2n_dl2 # units are ps/nm/nm
         D       = D1 * 1.0e12
-- 
2.43.0


From c4f575651ac41f9d68c949a08548db0a09a113e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:01:29 +0000
Subject: [PATCH 28/47] fix: calculate_D_ps_nm_km has the sign of the D
 parameter

---
 src/pynlo/media/crystals/CrystalContainer.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pynlo/media/crystals/CrystalContainer.py b/src/pynlo/media/crystals/CrystalContainer.py
index e5df67f..d6631f0 100644
--- a/src/pynlo/media/crystals/CrystalContainer.py
+++ b/src/pynlo/media/crystals/CrystalContainer.py
@@ -102,7 +102,7 @@ class Crystal:
             standard photonic engineering units ps/nm/km"""        
         fn = (lambda x: self.n(x)) if axis is None else (lambda x: self.n(x, axis))
         d2n_dl2 = misc.derivative(fn, wavelengths_nm, dx = 0.1, n = 2, order = 11)
-        D1      = (wavelengths_nm / self._c_nm_ps) * d2n_dl2 # units are ps/nm/nm
+        D1      = -(wavelengths_nm / self._c_nm_ps) * d2n_dl2 # units are ps/nm/nm
         D       = D1 * 1.0e12
         return D    
     def calculate_D_fs_um_mm(self, wavelengths_nm, axis = None):
-- 
2.43.0


From 15a0f4b256c76d804dde62b0d5005d8df01fba38 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:01:29 +0000
Subject: [PATCH 29/47] fix: XTAL_AgGaS raises built-in exceptions (no Python 2
 exceptions module)

---
 src/pynlo/media/crystals/XTAL_AgGaS.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/src/pynlo/media/crystals/XTAL_AgGaS.py b/src/pynlo/media/crystals/XTAL_AgGaS.py
index 10887ae..ffeccca 100644
--- a/src/pynlo/media/crystals/XTAL_AgGaS.py
+++ b/src/pynlo/media/crystals/XTAL_AgGaS.py
@@ -25,7 +25,6 @@ from __future__ import print_function
 
 import numpy as np
 from pynlo.media.crystals.CrystalContainer import Crystal
-import exceptions 
 
 class AgGaSe2(Crystal):
     def __init__(self, theta = 0.0, **params):
@@ -97,7 +96,7 @@ class AgGaSe2(Crystal):
             return no
         elif axis == 'e':
             return ne
-        raise exceptions.ValueError("Axis was ",str(axis),"; must be 'mix', 'o', or 'e'")
+        raise ValueError("Axis was ",str(axis),"; must be 'mix', 'o', or 'e'")
     def phasematch(self, pump_wl_nm, sgnl_wl_nm, idlr_wl_nm, return_wavelength = False):
         """ Phase match mixing between pump (aligned to a mix of ne and no) and
             signal and idler (aligned to ordinary axis.)"""
@@ -134,7 +133,7 @@ class AgGaSe2(Crystal):
         if x < 0:
             x = ( -b - np.sqrt(b**2-4*a*c) )/ (2.0  * a)
         if np.isnan(np.arccos(x)) :
-            raise exceptions.AttributeError('No phase matching condition.')
+            raise AttributeError('No phase matching condition.')
         theta = np.arccos(x)
         print('Angle set to ',360*theta / (2.0*np.pi) )
         if RET_WL and return_wavelength:
-- 
2.43.0


From a47c5c13126eb1dbb2ec91cea80c1e7f0c58df9c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:01:40 +0000
Subject: [PATCH 30/47] fix: field_classes imports on Python 3 and range-checks
 the three field indices

---
 src/pynlo/interactions/ThreeWaveMixing/field_classes.py | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/src/pynlo/interactions/ThreeWaveMixing/field_classes.py b/src/pynlo/interactions/ThreeWaveMixing/field_classes.py
index c303d44..6da7c17 100644
--- a/src/pynlo/interactions/ThreeWaveMixing/field_classes.py
+++ b/src/pynlo/interactions/ThreeWaveMixing/field_classes.py
@@ -25,7 +25,6 @@ from __future__ import division
 from __future__ import print_function
 
 import numpy as np
-import exceptions
 
 PUMP = 0
 SGNL = 1
@@ -47,12 +46,12 @@ class beam_parameters:
         
     def calculate_overlap(self, A, B):
         """ calculate overlap integral between fields A and B. A & B must be
-        integers between 0-2 (0 = pump, 1 = signal, 3 = idler.)"""
+        integers between 0-2 (0 = pump, 1 = signal, 2 = idler.)"""
         if (type(A) is not int) or (type(B) is not int):
-            e = exceptions.TypeError('A & B must both be integers.')
+            e = TypeError('A & B must both be integers.')
             raise e
-        if A < 0 or A>3 or B<0 or B>3:
-            e = exceptions.ValueError('A & B must be in range [0,3].')
+        if A < 0 or A>2 or B<0 or B>2:
+            e = ValueError('A & B must be in range [0,2].')
             raise e
         return (self.waists[A]+self.waists[B]) / 2.0
         
-- 
2.43.0


From 5a205fdff12f8f2f8b56a7ef74f5c87284c30975 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:02:37 +0000
Subject: [PATCH 31/47] fix: Output.out stores the start point, not the end of
 the second step

---
 src/pynlo/util/ode_solve/steppers.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pynlo/util/ode_solve/steppers.py b/src/pynlo/util/ode_solve/steppers.py
index c43ea42..ba8777d 100644
--- a/src/pynlo/util/ode_solve/steppers.py
+++ b/src/pynlo/util/ode_solve/steppers.py
@@ -110,7 +110,7 @@ class Output:
         if not self.dense:
             e = AttributeError('Dense output is not set in Output!')
             raise e
-        if nstp == 1:
+        if nstp == -1:
             self.save(x,y)
             self.xout += self.dxout
         else:
-- 
2.43.0


From 6991fdbac333f3d1c778565fe2c7bdabec10873e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:02:37 +0000
Subject: [PATCH 32/47] fix: Output without saves can be used (nothing is
 stored)

---
 src/pynlo/util/ode_solve/steppers.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/pynlo/util/ode_solve/steppers.py b/src/pynlo/util/ode_solve/steppers.py
index ba8777d..3865664 100644
--- a/src/pynlo/util/ode_solve/steppers.py
+++ b/src/pynlo/util/ode_solve/steppers.py
@@ -94,11 +94,11 @@ class Output:
         self.xsave[self.count]      = xout
         self.count += 1
     def save(self, x, y):
+        if self.kmax <= 0:
+            return
         if self.ysave.dtype != y.dtype:            
             errmsg = 'Integrand returns ',str(y.dtype),' but workspaces are initialized to ',str(self.ysave.dtype),'!'
             raise TypeError(errmsg)
-        if self.kmax <= 0:
-            return
         if self.count == self.kmax:
             self.resize()
         self.ysave[self.count, :]   = y
-- 
2.43.0


From a66683154c6d29e6ba66edbfa7dbb7b2f5fdd0ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:02:37 +0000
Subject: [PATCH 33/47] fix: each Dopri853 stepper has its own step size
 controller

---
 src/pynlo/util/ode_solve/dopr853.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/pynlo/util/ode_solve/dopr853.py b/src/pynlo/util/ode_solve/dopr853.py
index 0c68a69..112ab4c 100644
--- a/src/pynlo/util/ode_solve/dopr853.py
+++ b/src/pynlo/util/ode_solve/dopr853.py
@@ -54,6 +54,7 @@ class StepperDopr853(StepperBase):
         self.rcont7 = self.gen_array()
         self.rcont8 = self.gen_array()
         self.EPS    = np.finfo(np.double).eps
+        self.con    = Controller()
     def step(self, htry, RHS_class):
         h = htry
         dydxnew  = self.gen_array()
-- 
2.43.0


From e3b03168f552f1e8073e302f98165b55bd772801 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:02:37 +0000
Subject: [PATCH 34/47] fix: a step with zero estimated error is accepted (no
 0/0)

---
 src/pynlo/util/ode_solve/dopr853.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pynlo/util/ode_solve/dopr853.py b/src/pynlo/util/ode_solve/dopr853.py
index 112ab4c..958926f 100644
--- a/src/pynlo/util/ode_solve/dopr853.py
+++ b/src/pynlo/util/ode_solve/dopr853.py
@@ -171,7 +171,7 @@ class StepperDopr853(StepperBase):
         err2 = np.sum( pow(np.abs(self.yerr )/sk, 2) )
         err1 = np.sum( pow(np.abs(self.yerr2)/sk, 2) )
         deno = err1 + 0.01 * err2
-        if deno < 0.0:
+        if deno <= 0.0:
             deno = 1.0
         return abs(abs(h) * np.abs(err1) * np.sqrt(1.0 / (deno*self.n)))
         
\ No newline at end of file
-- 
2.43.0


From a6a7f1155044777fec04b32f81be8999977ff218 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:02:37 +0000
Subject: [PATCH 35/47] fix: dfg_problem does not draw its poling domains as a
 side effect

---
 src/pynlo/interactions/ThreeWaveMixing/DFG_integrand.py | 2 --
 1 file changed, 2 deletions(-)

diff --git a/src/pynlo/interactions/ThreeWaveMixing/DFG_integrand.py b/src/pynlo/interactions/ThreeWaveMixing/DFG_integrand.py
index f1bcdaa..1f4fe17 100644
--- a/src/pynlo/interactions/ThreeWaveMixing/DFG_integrand.py
+++ b/src/pynlo/interactions/ThreeWaveMixing/DFG_integrand.py
@@ -277,8 +277,6 @@ class dfg_problem:
                 print("Error: poling period",self.crystal.pp(z_current)," at z=",z_current,"is too small")
         self.domain_lb = np.array(domain_lb)
         self.domain_ub = np.array(domain_ub)
-        plt.plot(self.domain_lb)
-        plt.plot(self.domain_ub)
         
     
     
-- 
2.43.0


From 56318ebde4ca245ebb186b93b9873afc4bbeff60 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:02:37 +0000
Subject: [PATCH 36/47] fix: process_stepper_output leaves the solver's saved
 fields as they are

---
 src/pynlo/interactions/ThreeWaveMixing/DFG_integrand.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/pynlo/interactions/ThreeWaveMixing/DFG_integrand.py b/src/pynlo/interactions/ThreeWaveMixing/DFG_integrand.py
index 1f4fe17..db8edf0 100644
--- a/src/pynlo/interactions/ThreeWaveMixing/DFG_integrand.py
+++ b/src/pynlo/interactions/ThreeWaveMixing/DFG_integrand.py
@@ -464,9 +464,9 @@ class dfg_problem:
         """
         npoints = self.veclength
         
-        pump_out = solver_out.ysave[0:solver_out.count, 0        :   npoints]
-        sgnl_out = solver_out.ysave[0:solver_out.count, npoints  : 2*npoints]
-        idlr_out = solver_out.ysave[0:solver_out.count, 2*npoints: 3*npoints]
+        pump_out = np.copy(solver_out.ysave[0:solver_out.count, 0        :   npoints])
+        sgnl_out = np.copy(solver_out.ysave[0:solver_out.count, npoints  : 2*npoints])
+        idlr_out = np.copy(solver_out.ysave[0:solver_out.count, 2*npoints: 3*npoints])
         zs       = solver_out.xsave[0:solver_out.count]
         print ('Pulse velocity is ~ '+str(self.approx_pulse_speed*1e-12)+'mm/fs' )
         print('ks: '+str(self.k_p_0)+' '+str(self.k_s_0)+' '+str(self.k_i_0))
-- 
2.43.0


From 40b8e0554229eac0189a74ef7d576616b7425469 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:02:37 +0000
Subject: [PATCH 37/47] fix: DFGWriter stores every saved point using existing
 attributes and the PyTables 3 API

---
 .../ThreeWaveMixing/multi_run_rw.py           | 28 +++++++++----------
 1 file changed, 14 insertions(+), 14 deletions(-)

diff --git a/src/pynlo/interactions/ThreeWaveMixing/multi_run_rw.py b/src/pynlo/interactions/ThreeWaveMixing/multi_run_rw.py
index 98fa86f..a37fe03 100644
--- a/src/pynlo/interactions/ThreeWaveMixing/multi_run_rw.py
+++ b/src/pynlo/interactions/ThreeWaveMixing/multi_run_rw.py
@@ -107,47 +107,47 @@ class DFGWriter:
             
     def add_run(self,integrand, odesolver, param):
         grp = self.tables_file.create_group(self.root, 'run'+str(self.run_ctr), title=str(param))
-        npts           = odesolver.nvar / 3
-        count          = odesolver.out.nsave
+        npts           = odesolver.nvar // 3
+        count          = odesolver.out.count
         
         # Store pump, signal, idler fields        
         atom = tables.Atom.from_dtype(odesolver.out.ysave[0:count, 0 : npts].T.dtype)
         data_shape = odesolver.out.ysave[0:count, 0 : npts].T.shape
-        pump_data = self.tables_file.createCArray(grp, 'pump', atom, data_shape)
+        pump_data = self.tables_file.create_carray(grp, 'pump', atom, data_shape)
         pump_data[:] = odesolver.out.ysave[0:count, 0 : npts].T
-        sgnl_data = self.tables_file.createCArray(grp, 'sgnl', atom, data_shape)      
+        sgnl_data = self.tables_file.create_carray(grp, 'sgnl', atom, data_shape)      
         sgnl_data[:] = odesolver.out.ysave[0:count, npts : 2 * npts].T
-        idlr_data = self.tables_file.createCArray(grp, 'idlr', atom, data_shape)
+        idlr_data = self.tables_file.create_carray(grp, 'idlr', atom, data_shape)
         idlr_data[:] = odesolver.out.ysave[0:count, 2*npts : 3 * npts].T
         
         # By the design of the pulse class, the three things we need are center
         # wavelength, time window, and rep rate (N points is set by the array sizes)
         atom = tables.Atom.from_dtype(np.dtype(np.double))
         data_shape = (1,)
-        pump_twind = self.tables_file.createCArray(grp, 'pump_Twind', atom, data_shape)
+        pump_twind = self.tables_file.create_carray(grp, 'pump_Twind', atom, data_shape)
         pump_twind[:] = integrand.pump.time_window_ps
-        sgnl_twind = self.tables_file.createCArray(grp, 'sgnl_Twind', atom, data_shape)
+        sgnl_twind = self.tables_file.create_carray(grp, 'sgnl_Twind', atom, data_shape)
         sgnl_twind[:] = integrand.sgnl.time_window_ps
-        idlr_twind = self.tables_file.createCArray(grp, 'idlr_Twind', atom, data_shape)
+        idlr_twind = self.tables_file.create_carray(grp, 'idlr_Twind', atom, data_shape)
         idlr_twind[:] = integrand.idlr.time_window_ps
         
         atom = tables.Atom.from_dtype(np.dtype(np.double))
         data_shape = (1,)
-        pump_wlc = self.tables_file.createCArray(grp, 'pump_center_nm', atom, data_shape)
+        pump_wlc = self.tables_file.create_carray(grp, 'pump_center_nm', atom, data_shape)
         pump_wlc[:] = integrand.pump.center_wavelength_nm
-        sgnl_wlc = self.tables_file.createCArray(grp, 'sgnl_center_nm', atom, data_shape)
+        sgnl_wlc = self.tables_file.create_carray(grp, 'sgnl_center_nm', atom, data_shape)
         sgnl_wlc[:] = integrand.sgnl.center_wavelength_nm
-        idlr_wlc = self.tables_file.createCArray(grp, 'idlr_center_nm', atom, data_shape)
+        idlr_wlc = self.tables_file.create_carray(grp, 'idlr_center_nm', atom, data_shape)
         idlr_wlc[:] = integrand.idlr.center_wavelength_nm
         
         atom = tables.Atom.from_dtype(np.dtype(np.double))
         data_shape = (1,)
-        fr = self.tables_file.createCArray(grp, 'frep_Hz', atom, data_shape)
-        fr[:] = integrand.pump.frep_Hz
+        fr = self.tables_file.create_carray(grp, 'frep_Hz', atom, data_shape)
+        fr[:] = integrand.pump.frep_mks
         
         atom = tables.Atom.from_dtype(np.dtype(np.double))
         data_shape = (1,)
-        para = self.tables_file.createCArray(grp, 'param', atom, data_shape)
+        para = self.tables_file.create_carray(grp, 'param', atom, data_shape)
         para[:] = param
         
         self.tables_file.flush()
-- 
2.43.0


From 2af4dd446ea81db86b91d63645218d1f7844a4f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:03:17 +0000
Subject: [PATCH 38/47] fix: calc_theta coerces scalar wavelengths too, as its
 warning says

---
 src/pynlo/devices/grating_compressor.py | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/src/pynlo/devices/grating_compressor.py b/src/pynlo/devices/grating_compressor.py
index 8e85320..1bbf9f8 100644
--- a/src/pynlo/devices/grating_compressor.py
+++ b/src/pynlo/devices/grating_compressor.py
@@ -79,9 +79,7 @@ class TreacyCompressor:
             print( "Bad value for argument of arcsin: ",\
                 l/self.d  - np.sin(self.g),'. You are probably asking for diffraction of an impossible color (this wavelength is ',l*1e9,'nm. Coercing to [-1,1].' )
         val = l/self.d  - np.sin(self.g)
-        if type(val) == np.ndarray:
-            val[val>1] = 1
-            val[val<-1] = -1
+        val = np.clip(val, -1, 1)
 
         alpha = np.arcsin(val )
         if display_angle:
-- 
2.43.0


From 1301dfda7427f332547e3a5b7781cdee486f157a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:03:17 +0000
Subject: [PATCH 39/47] fix: calc_compressor_dnphi_domega_n scales to fs^(n+1)
 once at every order

---
 src/pynlo/devices/grating_compressor.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/pynlo/devices/grating_compressor.py b/src/pynlo/devices/grating_compressor.py
index 1bbf9f8..e8526e5 100644
--- a/src/pynlo/devices/grating_compressor.py
+++ b/src/pynlo/devices/grating_compressor.py
@@ -148,8 +148,9 @@ class TreacyCompressor:
         dphidw = fn(ws)        
         y = signal.savgol_filter(dphidw, window_length = 11,
                              polyorder = 7, deriv = dispersion_order)
-        dw = (ws[1] - ws[0])*10**(-15*(1+dispersion_order))
-        return y[50]/(dw**dispersion_order)
+        dw = ws[1] - ws[0]
+        # Convert from s^(n+1) to fs^(n+1)
+        return y[50]/(dw**dispersion_order) * 10.0**(15*(1+dispersion_order))
     
     
     def apply_phase_to_pulse(self, grating_separation_meters, pulse):
-- 
2.43.0


From 8872d36e385ad9aa509fe935aa5a25a9db08e6e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:03:17 +0000
Subject: [PATCH 40/47] fix: calc_overlap_integral honours reverse_order

---
 src/pynlo/light/beam.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/pynlo/light/beam.py b/src/pynlo/light/beam.py
index 7423dc7..7d5eeb2 100644
--- a/src/pynlo/light/beam.py
+++ b/src/pynlo/light/beam.py
@@ -115,6 +115,9 @@ class OneDBeam:
         zr2 = othr_beam.calculate_zR(n2)
         k1 = self.get_k_in_crystal(this_pulse, crystal_instance)
         k2 = othr_beam.get_k_in_crystal(othr_pulse, crystal_instance)
+        if reverse_order:
+            zr2 = zr2[::-1]
+            k2 = k2[::-1]
 
         # This expression only accounts for beam size
         #return (2*w2*w2/(w1**2+w2**2))**2
-- 
2.43.0


From 5b3243ae3acb391cb3632f61ea9570162db0c485 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:04:00 +0000
Subject: [PATCH 41/47] fix: a field can be set (or a pulse cloned or loaded)
 after the number of points changed

---
 src/pynlo/light/PulseBase.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pynlo/light/PulseBase.py b/src/pynlo/light/PulseBase.py
index a2d6fe8..01fe775 100644
--- a/src/pynlo/light/PulseBase.py
+++ b/src/pynlo/light/PulseBase.py
@@ -212,7 +212,7 @@ class Pulse:
         """
         if not self._ready:
             raise RuntimeError(self._not_ready_msg)
-        if self._AW is None:
+        if self._AW is None or len(self._AW) != self._n:
             self._AW = np.zeros((self._n,), dtype = np.complex128)
         self._AW[:] = AW_new
         
-- 
2.43.0


From 91b0dbacb31a21626398720250ab76a5812ef028 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:04:00 +0000
Subject: [PATCH 42/47] fix: a Pulse is not ready until NPTS, time window and
 center wavelength are set

---
 src/pynlo/light/PulseBase.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/pynlo/light/PulseBase.py b/src/pynlo/light/PulseBase.py
index 01fe775..43986d5 100644
--- a/src/pynlo/light/PulseBase.py
+++ b/src/pynlo/light/PulseBase.py
@@ -46,9 +46,9 @@ class Pulse:
     # Private variables:
     # This set is the minimum number required to completely specify the light
     # field. All other representations are derived from them.
-    _n                  = 0       # Number of points on grid
-    _centerfrequency    = 1.0     # Center frequency (THz)
-    _time_window        = 1.0     # Time window (ps)
+    _n                  = None    # Number of points on grid
+    _centerfrequency    = None    # Center frequency (THz)
+    _time_window        = None    # Time window (ps)
     _V                  = None    # Relative angular frequency grid (2 pi THz)
     _AW                 = None    # Frequency-domain pulse amplitude
     _frep_MHz           = 100.0   # Pulse frequency (MHz); used for converting
@@ -848,9 +848,9 @@ class Pulse:
         # the time window fixed as well.
 
         p._frep_MHz = self.frep_MHz
+        p.set_NPTS(NPTS)
         p.set_center_wavelength_nm(self.wl_nm[center_idx] )
         p.set_time_window_ps(self.time_window_ps)
-        p.set_NPTS(NPTS)
         idx1 = center_idx - (NPTS >> 1)
         idx2 = center_idx + (NPTS >> 1)
         p.set_AW(self.AW[idx1:idx2])
-- 
2.43.0


From c8ad8a9bdd370bf53dbcfc3626fdee516f255327 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:35:54 +0000
Subject: [PATCH 43/47] fix: a pulse with incomplete settings says so every
 time it is asked, not only the first

---
 src/pynlo/light/PulseBase.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/pynlo/light/PulseBase.py b/src/pynlo/light/PulseBase.py
index 43986d5..0783a35 100644
--- a/src/pynlo/light/PulseBase.py
+++ b/src/pynlo/light/PulseBase.py
@@ -128,8 +128,8 @@ class Pulse:
         if (self.cache_hash == self._cache_wl_nm_hash):
            return self._cache_wl_nm.copy()
         else:
-           self._cache_wl_nm_hash = self.cache_hash
            self._cache_wl_nm = 2*np.pi*self._c_nmps / self.W_THz
+           self._cache_wl_nm_hash = self.cache_hash
            return self._cache_wl_nm.copy()
     # Wavelength is dynamically derived from frequency grid
     def _get_wavelength_m(self):    
@@ -152,8 +152,8 @@ class Pulse:
         if (self._cache_W_Hz_hash == self.cache_hash):
             return self._cache_W_Hz.copy()
         else:
-            self._cache_W_Hz_hash = self.cache_hash
             self._cache_W_Hz                 =  self._W * 1e12
+            self._cache_W_Hz_hash = self.cache_hash
             return self._cache_W_Hz.copy()
     def _get_F_Hz(self):
         return self._get_W_Hz() / (2.0*np.pi)            
-- 
2.43.0


From 5143af45b1b169ce895056fa9e32e32b9e586b89 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:50:12 +0000
Subject: [PATCH 44/47] fix: spectrogram's frequency axis was mirrored about
 the carrier

---
 src/pynlo/light/PulseBase.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/pynlo/light/PulseBase.py b/src/pynlo/light/PulseBase.py
index 0783a35..620afec 100644
--- a/src/pynlo/light/PulseBase.py
+++ b/src/pynlo/light/PulseBase.py
@@ -998,9 +998,10 @@ class Pulse:
             raise ValueError('Type \""%s\"" not recognized. Type must be \"xfrog\" or \"frog\".'%gate_type)
             
         # make a 2D array of E(time, delay)
-        E = amp * gate_function * np.exp(1j*(2 * np.pi * T * self.center_frequency_THz + phase) )
+        # the envelope of a pulse is the amplitude of exp(-i w0 t), and its spectrum an inverse DFT
+        E = amp * gate_function * np.exp(1j*(-2 * np.pi * T * self.center_frequency_THz + phase) )
         
-        spectrogram = np.fft.fft(E, axis=0)
+        spectrogram = np.fft.ifft(E, axis=0) * np.shape(E)[0]
         freqs = np.fft.fftfreq(np.shape(E)[0], t[1]-t[0])
         
         DELAYS, FREQS = np.meshgrid(delay, freqs)
-- 
2.43.0


From 09d2d62cd2944cb4fb023f285bb3e40eb005300a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:53:03 +0000
Subject: [PATCH 45/47] fix: CWPulse.gen_OSA loads a spectrum again (it used
 attributes that no longer exist)

---
 src/pynlo/light/DerivedPulses.py | 28 +++++++++-------------------
 1 file changed, 9 insertions(+), 19 deletions(-)

diff --git a/src/pynlo/light/DerivedPulses.py b/src/pynlo/light/DerivedPulses.py
index bfa2c00..101a45f 100644
--- a/src/pynlo/light/DerivedPulses.py
+++ b/src/pynlo/light/DerivedPulses.py
@@ -235,43 +235,33 @@ class CWPulse(Pulse):
             self.fileloc = fileloc
             
             self.set_time_window_ps(time_window_ps)
-                  
-            self.center_wl = center_wavelength_nm                 # reference wavelength (nm)             
-            
-            self.w0 = (2. * np.pi * self.c) / self.center_wl # reference angular frequency                
-            
-            self.setup_grids()
+            self.set_center_wavelength_nm(center_wavelength_nm)   # reference wavelength (nm)
         
             if not power_is_epp:                
-                power = power / self.frep
+                power = power / self.frep_mks
                 
             # Read in OSA data
-            osa_data = np.genfromtxt(self.fileloc, delimiter = ',', skiprows = rows)                
+            osa_data = np.genfromtxt(self.fileloc, delimiter = ',', skip_header = rows)                
             
             wavelengths = osa_data[:,0]# (nm)
-            wavelengths = self.internal_wl_from_nm(wavelengths)
-                    
             intensity   = osa_data[:,1]# (arb. units)
 
             if log:
                 intensity = 10.**(intensity / 10.)
                 
-            freq_abs = self.c/wavelengths
-            freq_abs = np.sort(freq_abs)
+            freq_abs = self._c_nmps/wavelengths # (THz)
             
-            self.freq_rel = freq_abs - self.c / self.center_wl
-            
-            pulse_envelope = interp1d(self.freq_rel, intensity, kind='linear',
+            pulse_envelope = interp1d(freq_abs, intensity, kind='linear',
                                       bounds_error = False, fill_value=0)
                                       
-            self.gridded_intensity = pulse_envelope(self.V / (2*np.pi))
+            gridded_intensity = pulse_envelope(self.W_THz / (2*np.pi))
             
-            # Calculate time domain complex electric field A
-            self.A  = IFFT_t(self.gridded_intensity)
+            # The spectrum analyzer measures power, so the field is its root
+            self.set_AW(np.sqrt(gridded_intensity))
             # Calculate normalization factor  to achieve requested 
             # pulse energy
             e_scale = np.sqrt(power / self.calc_epp() )
-            self.A  = self.A * e_scale
+            self.set_AT(self.AT * e_scale )
                 
         except IOError:
             print ('File not found.')
-- 
2.43.0


From 9cf4f5d5284e525b2a49f594b5a1fb9beb1f3930 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:53:03 +0000
Subject: [PATCH 46/47] fix: dispersive-wave script compiles under Python 3

---
 .../util/Calculators/DispersiveWave_ResonanceFrequency.py     | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/pynlo/util/Calculators/DispersiveWave_ResonanceFrequency.py b/src/pynlo/util/Calculators/DispersiveWave_ResonanceFrequency.py
index cea0c5e..6c50c86 100644
--- a/src/pynlo/util/Calculators/DispersiveWave_ResonanceFrequency.py
+++ b/src/pynlo/util/Calculators/DispersiveWave_ResonanceFrequency.py
@@ -80,8 +80,8 @@ P0 = 0.94 * EPP / t0 # Gaussian pulse
 ## Solve
 def fn(x):
     eqn = 0
-    for n in xrange(len(betas)):
-       print betas[n] * np.power(x, n+2) / math.factorial(n+2)
+    for n in range(len(betas)):
+       print(betas[n] * np.power(x, n+2) / math.factorial(n+2))
        eqn += betas[n] * np.power(x, n+2) / math.factorial(n+2)
     eqn -= fiber1.gamma * P0 / 2.0
     return abs(eqn)
-- 
2.43.0


From bc644ba2ed87b40bdfa2f1885ccfd20f79f3e8da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:27:02 +0000
Subject: [PATCH 47/47] fix: importing the ODE steppers no longer changes
 numpy's global error handling

---
 src/pynlo/util/ode_solve/steppers.py | 2 --
 1 file changed, 2 deletions(-)

diff --git a/src/pynlo/util/ode_solve/steppers.py b/src/pynlo/util/ode_solve/steppers.py
index 3865664..3689e6d 100644
--- a/src/pynlo/util/ode_solve/steppers.py
+++ b/src/pynlo/util/ode_solve/steppers.py
@@ -10,8 +10,6 @@ from __future__ import print_function
 
 import numpy as np
 
-np.seterr(all='warn')
-
 class Output:
     """ The output class is used by the ode solver to store the integrated output
     at specified *x* values. In addition to housing the matrices containing the
-- 
2.43.0

