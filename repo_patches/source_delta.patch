From 0451e5ede15164dc771a9f5f5bc86e713f82bed1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:12:00 +0000
Subject: [PATCH 01/17] fix: terminate the lines written by
 Airfoil.writeToAerodynFile

The file came out as one single line, so that it could not be read back.
---
 ccblade/airfoilprep.py | 30 +++++++++++++++---------------
 1 file changed, 15 insertions(+), 15 deletions(-)

diff --git a/ccblade/airfoilprep.py b/ccblade/airfoilprep.py
index cfad700..7446960 100644
--- a/ccblade/airfoilprep.py
+++ b/ccblade/airfoilprep.py
@@ -776,32 +776,32 @@ class Airfoil(object):
 
         f = open(filename, "w")
 
-        f.write("AeroDyn airfoil file.")
-        f.write("Compatible with AeroDyn v13.0.")
-        f.write("Generated by airfoilprep.py")
-        f.write("{0:<10d}\t\t{1:40}".format(len(af.polars), "Number of airfoil tables in this file"))
+        f.write("AeroDyn airfoil file.\n")
+        f.write("Compatible with AeroDyn v13.0.\n")
+        f.write("Generated by airfoilprep.py\n")
+        f.write("{0:<10d}\t\t{1:40}\n".format(len(af.polars), "Number of airfoil tables in this file"))
         for p in af.polars:
-            f.write("{0:<10f}\t{1:40}".format(p.Re / 1e6, "Reynolds number in millions."))
+            f.write("{0:<10f}\t{1:40}\n".format(p.Re / 1e6, "Reynolds number in millions."))
             param = p.unsteadyparam()
-            f.write("{0:<10f}\t{1:40}".format(param[0], "Control setting"))
-            f.write("{0:<10f}\t{1:40}".format(param[1], "Stall angle (deg)"))
-            f.write("{0:<10f}\t{1:40}".format(param[2], "Angle of attack for zero Cn for linear Cn curve (deg)"))
-            f.write("{0:<10f}\t{1:40}".format(param[3], "Cn slope for zero lift for linear Cn curve (1/rad)"))
+            f.write("{0:<10f}\t{1:40}\n".format(param[0], "Control setting"))
+            f.write("{0:<10f}\t{1:40}\n".format(param[1], "Stall angle (deg)"))
+            f.write("{0:<10f}\t{1:40}\n".format(param[2], "Angle of attack for zero Cn for linear Cn curve (deg)"))
+            f.write("{0:<10f}\t{1:40}\n".format(param[3], "Cn slope for zero lift for linear Cn curve (1/rad)"))
             f.write(
-                "{0:<10f}\t{1:40}".format(
+                "{0:<10f}\t{1:40}\n".format(
                     param[4], "Cn at stall value for positive angle of attack for linear Cn curve"
                 )
             )
             f.write(
-                "{0:<10f}\t{1:40}".format(
+                "{0:<10f}\t{1:40}\n".format(
                     param[5], "Cn at stall value for negative angle of attack for linear Cn curve"
                 )
             )
-            f.write("{0:<10f}\t{1:40}".format(param[6], "Angle of attack for minimum CD (deg)"))
-            f.write("{0:<10f}\t{1:40}".format(param[7], "Minimum CD value"))
+            f.write("{0:<10f}\t{1:40}\n".format(param[6], "Angle of attack for minimum CD (deg)"))
+            f.write("{0:<10f}\t{1:40}\n".format(param[7], "Minimum CD value"))
             for a, cl, cd, cm in zip(p.alpha, p.cl, p.cd, p.cm):
-                f.write("{:<10f}\t{:<10f}\t{:<10f}\t{:<10f}".format(a, cl, cd, cm))
-            f.write("EOT")
+                f.write("{:<10f}\t{:<10f}\t{:<10f}\t{:<10f}\n".format(a, cl, cd, cm))
+            f.write("EOT\n")
         f.close()
 
     def createDataGrid(self):
-- 
2.43.0


From 2ff44b47b3eeb7ea5ae2e538be1dd09b5b473256 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:12:00 +0000
Subject: [PATCH 02/17] fix: no repeated angle of attack in Polar.extrapolate
 when alpha[0] <= -alpha[-1]

---
 ccblade/airfoilprep.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/ccblade/airfoilprep.py b/ccblade/airfoilprep.py
index 7446960..4e6a7bc 100644
--- a/ccblade/airfoilprep.py
+++ b/ccblade/airfoilprep.py
@@ -280,6 +280,8 @@ class Polar(object):
         # -90 <-> -alpha_high
         alpha5 = np.linspace(-np.pi / 2, alpha5max, nalpha)
         alpha5 = alpha5[1:]
+        if alpha_low <= -alpha_high:
+            alpha5 = alpha5[:-1]  # last element is alpha_low, which the original data already supplies
         cl5, cd5 = self.__Viterna(-alpha5, -cl_adj)
 
         # -180+alpha_high <-> -90
-- 
2.43.0


From ba9e31a6263cf4d2b9c449ec5f3321719ce72599 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:12:00 +0000
Subject: [PATCH 03/17] fix: keep the moment coefficient at the ends of the
 original data in Polar.extrapolate

Where alpha[0] or alpha[-1] is a multiple of 10 degrees, that angle was in the
interpolation table twice and the moment coefficient there came out as zero.
---
 ccblade/airfoilprep.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/ccblade/airfoilprep.py b/ccblade/airfoilprep.py
index 4e6a7bc..cbeb4e3 100644
--- a/ccblade/airfoilprep.py
+++ b/ccblade/airfoilprep.py
@@ -306,6 +306,9 @@ class Polar(object):
         alpha_num = abs(int((-180.0 - cm1_alpha) / 10.0 - 1))
         alpha_cm1 = np.linspace(-180.0, cm1_alpha, alpha_num)
         alpha_cm2 = np.linspace(cm2_alpha, 180.0, int((180.0 - cm2_alpha) / 10.0 + 1))
+        # the ends of the original data may be on the 10 degree grid: do not override them
+        alpha_cm1 = alpha_cm1[alpha_cm1 < self.alpha[0]]
+        alpha_cm2 = alpha_cm2[alpha_cm2 > self.alpha[-1]]
         alpha_cm = np.concatenate(
             (alpha_cm1, self.alpha, alpha_cm2)
         )  # Specific alpha values are needed for cm function to work
-- 
2.43.0


From ada3265546158e6d848262406f279253729b93e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:12:00 +0000
Subject: [PATCH 04/17] fix: declare tempb1 in DEFINECURVATURE_BV with the n-2
 elements it is given

It was assigned from an array section two elements shorter than itself, which
reads past the end of coneb.
---
 ccblade/src/bem.f90 | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ccblade/src/bem.f90 b/ccblade/src/bem.f90
index de7085a..8a6a3a6 100644
--- a/ccblade/src/bem.f90
+++ b/ccblade/src/bem.f90
@@ -1127,7 +1127,7 @@ SUBROUTINE DEFINECURVATURE_BV(n, r, rb, precurve, precurveb, presweep, &
   REAL(dp) :: tempb4(nbdirs, n-2)
   REAL(dp) :: tempb3(nbdirs, n-2)
   REAL(dp) :: tempb2(nbdirs, n-2)
-  REAL(dp) :: tempb1(nbdirs, n)
+  REAL(dp) :: tempb1(nbdirs, n-2)
   REAL(dp) :: tempb0(nbdirs)
   REAL(dp) :: tempb11(nbdirs)
   REAL(dp) :: tempb10(nbdirs)
-- 
2.43.0


From 96d66469d062fba6801e0c7a116dc633d91beb8a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:13:23 +0000
Subject: [PATCH 05/17] fix: tip and hub loss factors use |sin(phi)|

For the negative inflow angles of the propeller brake region the exponent had the
wrong sign, acos was given an argument above one and the residual came out as NaN:
the brake region could never be selected with losses on.
---
 ccblade/src/bem.f90 | 20 ++++++++------------
 1 file changed, 8 insertions(+), 12 deletions(-)

diff --git a/ccblade/src/bem.f90 b/ccblade/src/bem.f90
index 8a6a3a6..3098f6e 100644
--- a/ccblade/src/bem.f90
+++ b/ccblade/src/bem.f90
@@ -57,15 +57,13 @@ subroutine inductionFactors(r, chord, Rhub, Rtip, phi, cl, cd, B, &
     ! Prandtl's tip and hub loss factor
     Ftip = 1.0_dp
     if ( tipLoss ) then
-        ! factortip = B/2.0_dp*(Rtip - r)/(r*abs(sphi))
-        factortip = B/2.0_dp*(Rtip - r)/(r*sphi)
+        factortip = B/2.0_dp*(Rtip - r)/(r*abs(sphi))
         Ftip = 2.0_dp/pi*acos(exp(-factortip))
     end if
 
     Fhub = 1.0_dp
     if ( hubLoss ) then
-        ! factorhub = B/2.0_dp*(r - Rhub)/(Rhub*abs(sphi))
-        factorhub = B/2.0_dp*(r - Rhub)/(Rhub*sphi)
+        factorhub = B/2.0_dp*(r - Rhub)/(Rhub*abs(sphi))
         Fhub = 2.0_dp/pi*acos(exp(-factorhub))
     end if
 
@@ -445,14 +443,13 @@ SUBROUTINE INDUCTIONFACTORS_DV(r, rd, chord, chordd, rhub, rhubd, rtip, &
 ! Prandtl's tip and hub loss factor
   ftip = 1.0_dp
   IF (tiploss) THEN
-! factortip = B/2.0_dp*(Rtip - r)/(r*abs(sphi))
-    temp = 2.0_dp*r*sphi
+    temp = 2.0_dp*r*ABS(sphi)
     temp0 = (rtip-r)/temp
     factortip = b*temp0
     arg1 = EXP(-factortip)
     DO nd=1,nbdirs
-      factortipd(nd) = b*(rtipd(nd)-rd(nd)-temp0*(sphi*2.0_dp*rd(nd)+&
-&       2.0_dp*r*sphid(nd)))/temp
+      factortipd(nd) = b*(rtipd(nd)-rd(nd)-temp0*(ABS(sphi)*2.0_dp*rd(nd)+&
+&       2.0_dp*r*SIGN(1.0_dp, sphi)*sphid(nd)))/temp
       arg1d(nd) = -(EXP(-factortip)*factortipd(nd))
       IF (arg1 .EQ. 1.0 .OR. arg1 .EQ. (-1.0)) THEN
         result1d(nd) = 0.0_dp
@@ -468,14 +465,13 @@ SUBROUTINE INDUCTIONFACTORS_DV(r, rd, chord, chordd, rhub, rhubd, rtip, &
   END IF
   fhub = 1.0_dp
   IF (hubloss) THEN
-! factorhub = B/2.0_dp*(r - Rhub)/(Rhub*abs(sphi))
-    temp0 = 2.0_dp*rhub*sphi
+    temp0 = 2.0_dp*rhub*ABS(sphi)
     temp = (r-rhub)/temp0
     factorhub = b*temp
     arg1 = EXP(-factorhub)
     DO nd=1,nbdirs
-      factorhubd(nd) = b*(rd(nd)-rhubd(nd)-temp*(sphi*2.0_dp*rhubd(nd)+&
-&       2.0_dp*rhub*sphid(nd)))/temp0
+      factorhubd(nd) = b*(rd(nd)-rhubd(nd)-temp*(ABS(sphi)*2.0_dp*rhubd(nd)+&
+&       2.0_dp*rhub*SIGN(1.0_dp, sphi)*sphid(nd)))/temp0
       arg1d(nd) = -(EXP(-factorhub)*factorhubd(nd))
       IF (arg1 .EQ. 1.0 .OR. arg1 .EQ. (-1.0)) THEN
         result1d(nd) = 0.0_dp
-- 
2.43.0


From b56da5c7a424aaecdb641e84ac95c7d01b1b7205 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:13:23 +0000
Subject: [PATCH 06/17] fix: gradients of the coefficients where a load or the
 rotation speed is zero

They were written with the logarithmic derivative of the load, which is 0/0 (NaN)
for a load that is exactly zero, as the z moment with a single sector is.
---
 ccblade/ccblade.py | 21 +++++++++------------
 1 file changed, 9 insertions(+), 12 deletions(-)

diff --git a/ccblade/ccblade.py b/ccblade/ccblade.py
index 6086cc2..9962e55 100644
--- a/ccblade/ccblade.py
+++ b/ccblade/ccblade.py
@@ -1394,34 +1394,31 @@ class CCBlade(object):
                 dU_ds = np.zeros((npts, 12))
                 dU_ds[:, 9] = 1.0
 
-                dOmega_ds = np.zeros((npts, 12))
-                dOmega_ds[:, 10] = 1.0
-
                 dq_ds = (self.rho * Uinf * dU_ds.T).T
 
-                dCT_ds = (CT * (dT_ds.T / T - dA_ds.T / A - dq_ds.T / q)).T
+                dCT_ds = (dT_ds.T / (q * A) - CT * (dA_ds.T / A + dq_ds.T / q)).T
                 dCT_dv = (dT_dv.T / (q * A)).T
 
-                dCY_ds = (CY * (dY_ds.T / Y - dA_ds.T / A - dq_ds.T / q)).T
+                dCY_ds = (dY_ds.T / (q * A) - CY * (dA_ds.T / A + dq_ds.T / q)).T
                 dCY_dv = (dY_dv.T / (q * A)).T
 
-                dCZ_ds = (CZ * (dZ_ds.T / Z - dA_ds.T / A - dq_ds.T / q)).T
+                dCZ_ds = (dZ_ds.T / (q * A) - CZ * (dA_ds.T / A + dq_ds.T / q)).T
                 dCZ_dv = (dZ_dv.T / (q * A)).T
 
-                dCQ_ds = (CQ * (dQ_ds.T / Q - dA_ds.T / A - dq_ds.T / q - dR_ds.T / self.rotorR)).T
+                dCQ_ds = (dQ_ds.T / (q * self.rotorR * A) - CQ * (dA_ds.T / A + dq_ds.T / q + dR_ds.T / self.rotorR)).T
                 dCQ_dv = (dQ_dv.T / (q * self.rotorR * A)).T
 
-                dCMy_ds = (CMy * (dMy_ds.T / My - dA_ds.T / A - dq_ds.T / q - dR_ds.T / self.rotorR)).T
+                dCMy_ds = (dMy_ds.T / (q * self.rotorR * A) - CMy * (dA_ds.T / A + dq_ds.T / q + dR_ds.T / self.rotorR)).T
                 dCMy_dv = (dMy_dv.T / (q * self.rotorR * A)).T
 
-                dCMz_ds = (CMz * (dMz_ds.T / Mz - dA_ds.T / A - dq_ds.T / q - dR_ds.T / self.rotorR)).T
+                dCMz_ds = (dMz_ds.T / (q * self.rotorR * A) - CMz * (dA_ds.T / A + dq_ds.T / q + dR_ds.T / self.rotorR)).T
                 dCMz_dv = (dMz_dv.T / (q * self.rotorR * A)).T
 
-                dCMb_ds = (CMb * (dMb_ds.T / Mb - dA_ds.T / A - dq_ds.T / q - dR_ds.T / self.rotorR)).T
+                dCMb_ds = (dMb_ds.T / (q * self.rotorR * A) - CMb * (dA_ds.T / A + dq_ds.T / q + dR_ds.T / self.rotorR)).T
                 dCMb_dv = (dMb_dv.T / (q * self.rotorR * A)).T
 
-                dCP_ds = (CP * (dQ_ds.T / Q + dOmega_ds.T / Omega - dA_ds.T / A - dq_ds.T / q - dU_ds.T / Uinf)).T
-                dCP_dv = (dQ_dv.T * CP / Q).T
+                dCP_ds = (dP_ds.T / (q * A * Uinf) - CP * (dA_ds.T / A + dq_ds.T / q + dU_ds.T / Uinf)).T
+                dCP_dv = (dP_dv.T / (q * A * Uinf)).T
 
                 # pack derivatives into dictionary
                 dCT, dCY, dCZ, dCQ, dCMy, dCMz, dCMb, dCP = self.__thrustTorqueDictionary(
-- 
2.43.0


From 1975f76774f853d72d470425c15cce5ae3b8e28d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:15:24 +0000
Subject: [PATCH 07/17] fix: loads of a parked blade in wind aligned with the
 rotor axis

With the rotor parked, zero yaw and zero azimuth the in-plane velocity is exactly
zero; all the loads came out as zero, and their gradients as NaN, although the
section sees the full axial wind.
---
 ccblade/ccblade.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/ccblade/ccblade.py b/ccblade/ccblade.py
index 9962e55..f36b960 100644
--- a/ccblade/ccblade.py
+++ b/ccblade/ccblade.py
@@ -716,7 +716,8 @@ class CCBlade(object):
 
     def __loads(self, phi, rotating, r, chord, theta, af, Vx, Vy):
         """normal and tangential loads at one section (and optionally derivatives)"""
-        if Vx != 0.0 and Vy != 0.0:
+        # a parked blade needs only one nonzero component, e.g., Vy is zero for wind aligned with the rotor axis
+        if (Vx != 0.0 and Vy != 0.0) or (not rotating and (Vx != 0.0 or Vy != 0.0)):
 
             cphi = np.cos(phi)
             sphi = np.sin(phi)
-- 
2.43.0


From 7178652b342ac3282dbfcd7381f17e3f71950b61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:16:51 +0000
Subject: [PATCH 08/17] fix: gradients with respect to r include the
 neighboring sections

Moving one section changes the local cone angle, hence the velocities, of its two
neighbors when the blade is precurved: dr is tridiagonal just as dprecurve is.
---
 ccblade/ccblade.py | 50 ++++++++++++++++++++++++++++++----------------
 1 file changed, 33 insertions(+), 17 deletions(-)

diff --git a/ccblade/ccblade.py b/ccblade/ccblade.py
index f36b960..7bcaaad 100644
--- a/ccblade/ccblade.py
+++ b/ccblade/ccblade.py
@@ -830,7 +830,7 @@ class CCBlade(object):
         )
 
         if not self.derivatives:
-            return Vx, Vy, 0.0, 0.0, 0.0, 0.0
+            return Vx, Vy, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0
 
         # y = [r, precurve, presweep, precone, tilt, hubHt, yaw, shear, azimuth, Uinf, Omega]  (derivative order)
         n = len(self.r)
@@ -861,8 +861,8 @@ class CCBlade(object):
             dy_dy[:, 3 * n + 4],
         )
 
-        dVx_dr = np.diag(Vxd[:n, :])  # off-diagonal terms are known to be zero and not needed
-        dVy_dr = np.diag(Vyd[:n, :])
+        dVx_dr = Vxd[:n, :]  # tri-diagonal through the local cone angle  (note: dVx_j / dr_i  i==row)
+        dVy_dr = Vyd[:n, :]
 
         dVx_dcurve = Vxd[n : 2 * n, :]  # tri-diagonal  (note: dVx_j / dcurve_i  i==row)
         dVy_dcurve = Vyd[n : 2 * n, :]  # off-diagonal are actually all zero, but leave for convenience
@@ -871,10 +871,10 @@ class CCBlade(object):
         dVy_dsweep = np.diag(Vyd[2 * n : 3 * n, :])
 
         # w = [r, presweep, precone, tilt, hubHt, yaw, shear, azimuth, Uinf, Omega]
-        dVx_dw = np.vstack((dVx_dr, dVx_dsweep, Vxd[3 * n :, :]))
-        dVy_dw = np.vstack((dVy_dr, dVy_dsweep, Vyd[3 * n :, :]))
+        dVx_dw = np.vstack((np.diag(dVx_dr), dVx_dsweep, Vxd[3 * n :, :]))
+        dVy_dw = np.vstack((np.diag(dVy_dr), dVy_dsweep, Vyd[3 * n :, :]))
 
-        return Vx, Vy, dVx_dw, dVy_dw, dVx_dcurve, dVy_dcurve
+        return Vx, Vy, dVx_dw, dVy_dw, dVx_dr, dVy_dr, dVx_dcurve, dVy_dcurve
 
     def distributedAeroLoads(self, Uinf, Omega, pitch, azimuth):
         """Compute distributed aerodynamic loads along blade.
@@ -916,8 +916,8 @@ class CCBlade(object):
             - dNp : dictionary containing arrays (present if ``self.derivatives = True``)
                 derivatives of normal loads.  Each item in the dictionary a 2D Jacobian.
                 The array sizes and keys are (where n = number of stations along blade):
-                n x n (diagonal): 'dr', 'dchord', 'dtheta', 'dpresweep'
-                n x n (tridiagonal): 'dprecurve'
+                n x n (diagonal): 'dchord', 'dtheta', 'dpresweep'
+                n x n (tridiagonal): 'dr', 'dprecurve'
                 n x 1: 'dRhub', 'dRtip', 'dprecone', 'dtilt', 'dhubHt', 'dyaw', 'dshear', 'dazimuth', 'dUinf', 'dOmega', 'dpitch'
                 for example dNp_dr = dNp['dr']  (where dNp_dr is an n x n array)
                 and dNp_dr[i, j] = dNp_i / dr_j
@@ -929,7 +929,7 @@ class CCBlade(object):
         azimuth = np.deg2rad(azimuth)
 
         # component of velocity at each radial station
-        Vx, Vy, dVx_dw, dVy_dw, dVx_dcurve, dVy_dcurve = self.__windComponents(Uinf, Omega, azimuth)
+        Vx, Vy, dVx_dw, dVy_dw, dVx_dr, dVy_dr, dVx_dcurve, dVy_dcurve = self.__windComponents(Uinf, Omega, azimuth)
 
         # initialize
         n = len(self.r)
@@ -1070,6 +1070,10 @@ class CCBlade(object):
             dNp_dprecurve = dNp_dVx * dVx_dcurve + dNp_dVy * dVy_dcurve
             dTp_dprecurve = dTp_dVx * dVx_dcurve + dTp_dVy * dVy_dcurve
 
+            # w.r.t. r: through the velocities of the neighboring sections too  (note: dNp_j / dr_i  i==row)
+            dNp_dr = dNp_dVx * dVx_dr + dNp_dVy * dVy_dr + np.diag(dNp_dz[0, :])
+            dTp_dr = dTp_dVx * dVx_dr + dTp_dVy * dVy_dr + np.diag(dTp_dz[0, :])
+
             # stack
             # z = [r, chord, theta, Rhub, Rtip, pitch]
             # w = [r, presweep, precone, tilt, hubHt, yaw, shear, azimuth, Uinf, Omega]
@@ -1089,6 +1093,8 @@ class CCBlade(object):
             # (intended for internal use only.  not to be accessed by user)
             self._dNp_dX = dNp_dX
             self._dTp_dX = dTp_dX
+            self._dNp_dr = dNp_dr
+            self._dTp_dr = dTp_dr
             self._dNp_dprecurve = dNp_dprecurve
             self._dTp_dprecurve = dTp_dprecurve
 
@@ -1097,8 +1103,6 @@ class CCBlade(object):
             dTp = {}
 
             # n x n (diagonal)
-            dNp["dr"] = np.diag(dNp_dX[0, :])
-            dTp["dr"] = np.diag(dTp_dX[0, :])
             dNp["dchord"] = np.diag(dNp_dX[1, :])
             dTp["dchord"] = np.diag(dTp_dX[1, :])
             dNp["dtheta"] = np.diag(dNp_dX[2, :])
@@ -1107,6 +1111,8 @@ class CCBlade(object):
             dTp["dpresweep"] = np.diag(dTp_dX[5, :])
 
             # n x n (tridiagonal)
+            dNp["dr"] = dNp_dr.T
+            dTp["dr"] = dTp_dr.T
             dNp["dprecurve"] = dNp_dprecurve.T
             dTp["dprecurve"] = dTp_dprecurve.T
 
@@ -1306,7 +1312,15 @@ class CCBlade(object):
                         dQ_dv_sub,
                         dM_dv_sub,
                     ) = self.__thrustTorqueDeriv(
-                        Np, Tp, self._dNp_dX, self._dTp_dX, self._dNp_dprecurve, self._dTp_dprecurve, *args
+                        Np,
+                        Tp,
+                        self._dNp_dX,
+                        self._dTp_dX,
+                        self._dNp_dr,
+                        self._dTp_dr,
+                        self._dNp_dprecurve,
+                        self._dTp_dprecurve,
+                        *args,
                     )
 
                     dT_ds[i, :] += self.B * dT_ds_sub / nsec
@@ -1491,6 +1505,8 @@ class CCBlade(object):
         Tp,
         dNp_dX,
         dTp_dX,
+        dNp_dr,
+        dTp_dr,
         dNp_dprecurve,
         dTp_dprecurve,
         r,
@@ -1533,11 +1549,11 @@ class CCBlade(object):
         dQ_dX = dQ_dNp * dNp_dX + dQ_dTp * dTp_dX
         dM_dX = dM_dNp * dNp_dX + dM_dTp * dTp_dX
 
-        dT_dr = dT_dX[0, :] + rb[0, :]
-        dY_dr = dY_dX[0, :] + rb[1, :]
-        dZ_dr = dZ_dX[0, :] + rb[2, :]
-        dQ_dr = dQ_dX[0, :] + rb[3, :]
-        dM_dr = dM_dX[0, :] + rb[4, :]
+        dT_dr = np.sum(dT_dNp * dNp_dr + dT_dTp * dTp_dr, axis=1) + rb[0, :]
+        dY_dr = np.sum(dY_dNp * dNp_dr + dY_dTp * dTp_dr, axis=1) + rb[1, :]
+        dZ_dr = np.sum(dZ_dNp * dNp_dr + dZ_dTp * dTp_dr, axis=1) + rb[2, :]
+        dQ_dr = np.sum(dQ_dNp * dNp_dr + dQ_dTp * dTp_dr, axis=1) + rb[3, :]
+        dM_dr = np.sum(dM_dNp * dNp_dr + dM_dTp * dTp_dr, axis=1) + rb[4, :]
 
         dT_dchord = dT_dX[1, :]
         dY_dchord = dY_dX[1, :]
-- 
2.43.0


From 1f5ba549d2b43d972c4bc4cac0c2d5fcc7ce36de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:16:51 +0000
Subject: [PATCH 09/17] fix: angle of attack for minimum drag in degrees, as in
 the AeroDyn file

---
 ccblade/airfoilprep.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ccblade/airfoilprep.py b/ccblade/airfoilprep.py
index cbeb4e3..29bac8c 100644
--- a/ccblade/airfoilprep.py
+++ b/ccblade/airfoilprep.py
@@ -471,7 +471,7 @@ class Polar(object):
 
         # return: control setting, stall angle, alpha for 0 cn, cn slope,
         #         cn at stall+, cn at stall-, alpha for min CD, min(CD)
-        return (0.0, np.degrees(alphaU), np.degrees(alpha0), m, cnStallUpper, cnStallLower, alpha[minIdx], cd[minIdx])
+        return (0.0, np.degrees(alphaU), np.degrees(alpha0), m, cnStallUpper, cnStallLower, np.degrees(alpha[minIdx]), cd[minIdx])
 
     def plot(self):
         """plot cl/cd/cm polar
-- 
2.43.0


From 0067b1f24c502c9652fc14ad67123d25de3224d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:57:44 +0000
Subject: [PATCH 10/17] fix: airfoil slopes in the load gradients at the
 Reynolds number used for the loads

---
 ccblade/ccblade.py | 28 +++++++++++++++++++++++++---
 1 file changed, 25 insertions(+), 3 deletions(-)

diff --git a/ccblade/ccblade.py b/ccblade/ccblade.py
index 7bcaaad..0ca78aa 100644
--- a/ccblade/ccblade.py
+++ b/ccblade/ccblade.py
@@ -781,12 +781,34 @@ class CCBlade(object):
                     self.mu,
                 )
 
+                # the airfoil is evaluated at the Reynolds number without induction (see __runBEM)
+                _, _, _, _, Re_af, dRe_af_dx = _bem.relativewind_dv(
+                    phi,
+                    dx_dx[0, :],
+                    0.0,
+                    np.zeros(9),
+                    0.0,
+                    np.zeros(9),
+                    Vx,
+                    dx_dx[3, :],
+                    Vy,
+                    dx_dx[4, :],
+                    self.pitch,
+                    dx_dx[8, :],
+                    chord,
+                    dx_dx[1, :],
+                    theta,
+                    dx_dx[2, :],
+                    self.rho,
+                    self.mu,
+                )
+
                 # cl, cd (spline derivatives)
-                dcl_dalpha, dcl_dRe, dcd_dalpha, dcd_dRe = af.derivatives(alpha_rad, Re)
+                dcl_dalpha, dcl_dRe, dcd_dalpha, dcd_dRe = af.derivatives(alpha_rad, Re_af)
 
                 # chain rule
-                dcl_dx = dcl_dalpha * dalpha_dx + dcl_dRe * dRe_dx
-                dcd_dx = dcd_dalpha * dalpha_dx + dcd_dRe * dRe_dx
+                dcl_dx = dcl_dalpha * dalpha_dx + dcl_dRe * dRe_af_dx
+                dcd_dx = dcd_dalpha * dalpha_dx + dcd_dRe * dRe_af_dx
 
                 # cn, cd
                 dcn_dx = dcl_dx * cphi - cl * sphi * dphi_dx + dcd_dx * sphi + cd * cphi * dphi_dx
-- 
2.43.0


From 08073fbbf8686cceb9ee30839d0e4dcb7b4fbcaa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:10:13 +0000
Subject: [PATCH 11/17] fix: write airfoils without data in the linear region
 of the normal force

---
 ccblade/airfoilprep.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ccblade/airfoilprep.py b/ccblade/airfoilprep.py
index 29bac8c..88fdf97 100644
--- a/ccblade/airfoilprep.py
+++ b/ccblade/airfoilprep.py
@@ -433,7 +433,7 @@ class Polar(object):
         idx = np.logical_and(alpha >= alpha_linear_min, alpha <= alpha_linear_max)
 
         # checks for inppropriate data (like cylinders)
-        if len(idx) < 10 or len(np.unique(cl)) < 10:
+        if len(idx) < 10 or len(np.unique(cl)) < 10 or np.count_nonzero(idx) < 2:
             return (
                 0.0,
                 0.0,
-- 
2.43.0


From ab7c4470648935e4cb4212892d6b9411183fb068 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:11:44 +0000
Subject: [PATCH 12/17] fix: slope with respect to the Reynolds number of
 airfoils with two Reynolds numbers

---
 ccblade/ccblade.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/ccblade/ccblade.py b/ccblade/ccblade.py
index 0ca78aa..e35ff1f 100644
--- a/ccblade/ccblade.py
+++ b/ccblade/ccblade.py
@@ -218,12 +218,13 @@ class CCAirfoil(object):
             dcl_dRe = 0.0
             dcd_dRe = 0.0
         else:
-            try:
+            Re_min, Re_max = tck_cl[1][0], tck_cl[1][-1]
+            if self.cl_spline.degrees[1] == 1:  # two Reynolds numbers: linear, which bisplev does not differentiate
+                dcl_dRe = (self.cl_spline.ev(alpha, Re_max) - self.cl_spline.ev(alpha, Re_min)) / (Re_max - Re_min)
+                dcd_dRe = (self.cd_spline.ev(alpha, Re_max) - self.cd_spline.ev(alpha, Re_min)) / (Re_max - Re_min)
+            else:
                 dcl_dRe = bisplev(alpha, Re, tck_cl, dx=0, dy=1)
                 dcd_dRe = bisplev(alpha, Re, tck_cd, dx=0, dy=1)
-            except:
-                dcl_dRe = 0.0
-                dcd_dRe = 0.0
         return dcl_dalpha, dcl_dRe, dcd_dalpha, dcd_dRe
 
     def eval_unsteady(self, alpha, cl, cd, cm):
-- 
2.43.0


From d218c7bb1fd68406ba1065cc51a756abc197e19b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:11:44 +0000
Subject: [PATCH 13/17] fix: zero airfoil slopes outside of the range of the
 data, where the coefficients are constant

---
 ccblade/ccblade.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/ccblade/ccblade.py b/ccblade/ccblade.py
index e35ff1f..66c1d11 100644
--- a/ccblade/ccblade.py
+++ b/ccblade/ccblade.py
@@ -225,6 +225,12 @@ class CCAirfoil(object):
             else:
                 dcl_dRe = bisplev(alpha, Re, tck_cl, dx=0, dy=1)
                 dcd_dRe = bisplev(alpha, Re, tck_cd, dx=0, dy=1)
+
+        # the coefficients are constant outside of the range of the data
+        if alpha < tck_cl[0][0] or alpha > tck_cl[0][-1]:
+            dcl_dalpha = dcd_dalpha = 0.0
+        if Re < tck_cl[1][0] or Re > tck_cl[1][-1]:
+            dcl_dRe = dcd_dRe = 0.0
         return dcl_dalpha, dcl_dRe, dcd_dalpha, dcd_dRe
 
     def eval_unsteady(self, alpha, cl, cd, cm):
-- 
2.43.0


From d1044c1b0552e94f3310acbe6942fbed9914b577 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:15:33 +0000
Subject: [PATCH 14/17] fix: derivatives of CCBladeEvaluate with respect to
 density and viscosity were zero

---
 ccblade/ccblade_component.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/ccblade/ccblade_component.py b/ccblade/ccblade_component.py
index 1c69302..f50ef56 100644
--- a/ccblade/ccblade_component.py
+++ b/ccblade/ccblade_component.py
@@ -763,6 +763,8 @@ class CCBladeEvaluate(ExplicitComponent):
         self.add_output("CMhub", val=np.zeros(3), desc="Aerodynamic moment coefficients at hub center in the hub c.s.")
 
         self.declare_partials("*", "*")
+        # CCBlade has no gradients with respect to the fluid properties
+        self.declare_partials("*", ["rho", "mu"], method="fd", form="central", step_calc="rel", step=1e-4)
         self.declare_partials("*", "airfoils*", dependent=False)
 
     def compute(self, inputs, outputs, discrete_inputs, discrete_outputs):
-- 
2.43.0


From 4dab97849e74d89221ca7f909fa9f0c60ea0f55f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:15:33 +0000
Subject: [PATCH 15/17] fix: unit of the blade root moment in CCBladeEvaluate

---
 ccblade/ccblade_component.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ccblade/ccblade_component.py b/ccblade/ccblade_component.py
index f50ef56..4fce2d7 100644
--- a/ccblade/ccblade_component.py
+++ b/ccblade/ccblade_component.py
@@ -754,7 +754,7 @@ class CCBladeEvaluate(ExplicitComponent):
 
         # outputs
         self.add_output("P", val=0.0, units="W", desc="Rotor aerodynamic power")
-        self.add_output("Mb", val=0.0, units="N/m", desc="Aerodynamic blade root flapwise moment")
+        self.add_output("Mb", val=0.0, units="N*m", desc="Aerodynamic blade root flapwise moment")
         self.add_output("Fhub", val=np.zeros(3), units="N", desc="Aerodynamic forces at hub center in the hub c.s.")
         self.add_output("Mhub", val=np.zeros(3), units="N*m", desc="Aerodynamic moments at hub center in the hub c.s.")
         self.add_output("CP", val=0.0, desc="Rotor aerodynamic power coefficient")
-- 
2.43.0


From 4c8dc15263f884441427f7deb2d123d8fb0db619 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:15:33 +0000
Subject: [PATCH 16/17] fix: CCBladeTwist left its outputs P, T, Q and M at
 zero

---
 ccblade/ccblade_component.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/ccblade/ccblade_component.py b/ccblade/ccblade_component.py
index 4fce2d7..f203fb9 100644
--- a/ccblade/ccblade_component.py
+++ b/ccblade/ccblade_component.py
@@ -500,7 +500,7 @@ class CCBladeTwist(ExplicitComponent):
         )
 
         self.add_output("P", val=0.0, units="W", desc="Rotor aerodynamic power")
-        self.add_output("T", val=0.0, units="N*m", desc="Rotor aerodynamic thrust")
+        self.add_output("T", val=0.0, units="N", desc="Rotor aerodynamic thrust")
         self.add_output("Q", val=0.0, units="N*m", desc="Rotor aerodynamic torque")
         self.add_output("M", val=0.0, units="N*m", desc="Blade root flapwise moment")
 
@@ -668,6 +668,10 @@ class CCBladeTwist(ExplicitComponent):
         outputs["theta"] = ccblade.theta
         outputs["CP"] = CP[0]
         outputs["CM"] = CMb[0]
+        outputs["P"] = myout["P"][0]
+        outputs["T"] = myout["T"][0]
+        outputs["Q"] = myout["Q"][0]
+        outputs["M"] = myout["Mb"][0]
         outputs["local_airfoil_velocities"] = np.nan_to_num(W)
         outputs["a"] = loads["a"]
         outputs["ap"] = loads["ap"]
-- 
2.43.0


From 75e1b325221cb8bcda097e5b5c339dd7b343f84c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:00:13 +0000
Subject: [PATCH 17/17] fix: Reynolds number in CCBladeTwist with the rotor
 speed in rad/s

Omega is in rpm; the Reynolds number for which the inverse design looks up
the lift and drag of a section was a factor 30/pi too large.
---
 ccblade/ccblade_component.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ccblade/ccblade_component.py b/ccblade/ccblade_component.py
index f203fb9..408cc74 100644
--- a/ccblade/ccblade_component.py
+++ b/ccblade/ccblade_component.py
@@ -593,7 +593,7 @@ class CCBladeTwist(ExplicitComponent):
             cd = np.zeros(self.n_span)
             alpha = np.zeros(self.n_span)
             margin2stall = self.options["opt_options"]["constraints"]["blade"]["stall"]["margin"] * 180.0 / np.pi
-            Re = np.array(Omega * inputs["r"] * inputs["chord"] * inputs["rho"] / inputs["mu"])
+            Re = np.array(Omega * np.pi / 30.0 * inputs["r"] * inputs["chord"] * inputs["rho"] / inputs["mu"])
             aoa_op = inputs["aoa_op"]
             for i in range(self.n_span):
                 # Use the required angle of attack if defined. If it isn't defined (==pi), then take the stall point minus the margin
-- 
2.43.0

