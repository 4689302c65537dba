From 294091c59e970518e5dffe9b8631cf0dfcedebdb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:58:28 +0000
Subject: [PATCH 01/56] fix: keep steady backwater iteration on the subcritical
 branch (no NaN or spurious non-convergence)

---
 hapuamod/riv.py | 24 ++++++++++++++++++++----
 1 file changed, 20 insertions(+), 4 deletions(-)

diff --git a/hapuamod/riv.py b/hapuamod/riv.py
index 1dba573..749115d 100644
--- a/hapuamod/riv.py
+++ b/hapuamod/riv.py
@@ -44,18 +44,34 @@ def solveSteady(ChanDx, ChanElev, ChanWidth, Roughness, Qin, DsWL,
         # h[i] + Beta*(Q^2/(2*g*B[i]^2))*h^(-2) - (Dx*Q^2*n^2/(2*B[i]^2))*h^(-10/3) - Energy[i+1]+z[i]-(Dx/2)*Sf[i+1] = 0
         # h[i] + A*h[i]^(-2) - B*h[i]^(-10/3) + C = 0
         
-        # initial estimate
-        ChanDep[XS] = (ChanDep[XS+1] + ChanElev[XS+1]) - ChanElev[XS] + S_f[XS+1]*ChanDx[XS] 
+        # initial estimate (not less than critical depth)
+        ChanDep[XS] = max((ChanDep[XS+1] + ChanElev[XS+1]) - ChanElev[XS] + S_f[XS+1]*ChanDx[XS], 
+                          CritDep[XS])
         
         # iterate solution for h
         Acoef = Beta * (Qin**2 / (2*Grav*ChanWidth[XS]**2))
         Bcoef = (ChanDx[XS] * Qin**2 * Roughness**2 / (2 * ChanWidth[XS]**2))
         Cconst = ChanElev[XS] - S_f[XS+1]*ChanDx[XS]/2 - Energy[XS+1] 
-        DepErr = ChanDep[XS] + Acoef*ChanDep[XS]**(-2) - Bcoef*ChanDep[XS]**(-10/3) + Cconst
+        if CritDep[XS] + Acoef*CritDep[XS]**(-2) - Bcoef*CritDep[XS]**(-10/3) + Cconst >= 0:
+            # No subcritical solution exists (gets set to critical depth below)
+            ChanDep[XS] = 0.0
+            DepErr = 0.0
+        else:
+            DepErr = ChanDep[XS] + Acoef*ChanDep[XS]**(-2) - Bcoef*ChanDep[XS]**(-10/3) + Cconst
+        # Bracket the solution to stop the iteration straying to negative or supercritical depths
+        MinDep = CritDep[XS]
+        MaxDep = np.inf
         CheckCount = 0
         while np.abs(DepErr) > Tol:
+            if DepErr < 0:
+                MinDep = ChanDep[XS]
+            else:
+                MaxDep = ChanDep[XS]
             Gradient = 1 - 2*Acoef*ChanDep[XS]**(-3) + (10/3)*Bcoef*ChanDep[XS]**(-13/3)
-            ChanDep[XS] -= DepErr / Gradient
+            NewDep = ChanDep[XS] - DepErr / Gradient
+            if not MinDep < NewDep < MaxDep:
+                NewDep = min((MinDep + MaxDep)/2, 2*ChanDep[XS])
+            ChanDep[XS] = NewDep
             DepErr = ChanDep[XS] + Acoef*ChanDep[XS]**(-2) - Bcoef*ChanDep[XS]**(-10/3) + Cconst
             CheckCount += 1
             assert CheckCount < MaxIt, 'Maximum iterations exceeded solving steady state water level'
-- 
2.43.0


From 4dcc6c4720ea7a73fe00cdbb93891c44b7e1b64c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:58:28 +0000
Subject: [PATCH 02/56] fix: unsteady solver hands steady fallback solution
 back to caller when iteration limit reached

---
 hapuamod/riv.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/hapuamod/riv.py b/hapuamod/riv.py
index 749115d..b1880dc 100644
--- a/hapuamod/riv.py
+++ b/hapuamod/riv.py
@@ -317,7 +317,10 @@ def solveFullPreissmann(z, B, LagArea, LagLen, Closed, h, V,
         
         if ItCount >= MaxIt:
             logging.warning('Max iterations exceeded in unsteady river hydraulics - reverting to steady solution for this timestep')
-            (h, V) = solveSteady(dx, z, B, n, Q_Ts[-1], DsWl_Ts[-1], NumericalPars)
+            # Note: copy into existing arrays as h and V are modified in place
+            (h[:], V[:]) = solveSteady(dx, z, B, n, Q, DsWl, NumericalPars)
+            Sf = V*np.abs(V) * (n**2) / (h**(4/3))
+            A = h*B
 
 def assembleChannel(ShoreX, ShoreY, ShoreZ, 
                     OutletEndX, OutletEndWidth, OutletEndElev, 
-- 
2.43.0


From 8478baeac639f920aab087f28bb74fd65794d5c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:58:28 +0000
Subject: [PATCH 03/56] fix: re-solve unsteady hydraulics after perturbing a
 singular matrix

---
 hapuamod/riv.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/hapuamod/riv.py b/hapuamod/riv.py
index b1880dc..6ecc182 100644
--- a/hapuamod/riv.py
+++ b/hapuamod/riv.py
@@ -284,6 +284,7 @@ def solveFullPreissmann(z, B, LagArea, LagLen, Closed, h, V,
             except linalg.LinAlgError as ErrMsg:
                 logging.warning('LinAlgError %s - adding some noise to see if this fixes it...' % ErrMsg)
                 a_banded += np.random.random(a_banded.shape) * 1e-7 - 5e-8
+                Delta = linalg.solve_banded([2,2],a_banded,Err)
             
             # Update h & V
             h -= Delta[np.arange(0,2*N,2)]
-- 
2.43.0


From 0a2fbe312b05d0337b53012d6b1c7737f6fd6b47 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:58:28 +0000
Subject: [PATCH 04/56] fix: include left hand lagoon storage (rather than
 right hand twice) when outlet is in line with river

---
 hapuamod/riv.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/hapuamod/riv.py b/hapuamod/riv.py
index 6ecc182..dbc5419 100644
--- a/hapuamod/riv.py
+++ b/hapuamod/riv.py
@@ -415,8 +415,8 @@ def assembleChannel(ShoreX, ShoreY, ShoreZ,
             OnlineLagoon = np.array([X0Ix])
             EndArea = np.nansum(LagoonWidth[ShoreX > OutletEndX[0]] * Dx)
             EndLen = np.nansum((LagoonWidth[ShoreX > OutletEndX[0]] > 0) * Dx)
-        StartArea = np.nansum(LagoonWidth[X0Ix+1:] * Dx)
-        StartLen = np.nansum((LagoonWidth[X0Ix+1:] > 0) * Dx)
+        StartArea = np.nansum(LagoonWidth[:X0Ix] * Dx)
+        StartLen = np.nansum((LagoonWidth[:X0Ix] > 0) * Dx)
     elif OutletEndX[0] > 0:
         # Outlet channel to right of river
         if Closed:
-- 
2.43.0


From 3636fb5d4899ba29bc091644a38216dcf0f6dd1a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:58:28 +0000
Subject: [PATCH 05/56] fix: do not discard offline lagoon area when only one
 lagoon transect is online

---
 hapuamod/riv.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hapuamod/riv.py b/hapuamod/riv.py
index dbc5419..648f34c 100644
--- a/hapuamod/riv.py
+++ b/hapuamod/riv.py
@@ -490,7 +490,7 @@ def assembleChannel(ShoreX, ShoreY, ShoreZ,
                                     np.full(2, OutletEndWidth)])
     LagArea = np.zeros(ChanElev.size)
     LagArea[RiverElev.size] = StartArea
-    LagArea[RiverElev.size + OnlineLagoon.size - 1] = EndArea
+    LagArea[RiverElev.size + OnlineLagoon.size - 1] += EndArea
     LagLen = (ChanFlag==1) * Dx
     LagLen[RiverElev.size] += StartLen
     LagLen[RiverElev.size + OnlineLagoon.size - 1] += EndLen
-- 
2.43.0


From 32a0d865edd0e406e7f6c80fba884917794d3f2d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:58:28 +0000
Subject: [PATCH 06/56] fix: outlet end reach length when leftward angled
 outlet ends exactly on a transect

---
 hapuamod/riv.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hapuamod/riv.py b/hapuamod/riv.py
index 648f34c..98f63a2 100644
--- a/hapuamod/riv.py
+++ b/hapuamod/riv.py
@@ -478,7 +478,7 @@ def assembleChannel(ShoreX, ShoreY, ShoreZ,
             ChanDx[-2] += OutletEndX[1] % Dx
         else:
             # Outlet from R to L
-            ChanDx[-2] += Dx - (OutletEndX[1] % Dx)
+            ChanDx[-2] += (-OutletEndX[1]) % Dx
         ChanFlag = np.concatenate([np.full(RiverElev.size, 0), 
                                    np.full(OnlineLagoon.size, 1), 
                                    np.full(OutletChanIx.size, 2), [3,4]])
-- 
2.43.0


From f18745ffaa993612f51c30d8a0705b92b2025744 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:58:28 +0000
Subject: [PATCH 07/56] fix: no online outlet channel when closure occurs in
 lagoon

---
 hapuamod/riv.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/hapuamod/riv.py b/hapuamod/riv.py
index 98f63a2..59d2eff 100644
--- a/hapuamod/riv.py
+++ b/hapuamod/riv.py
@@ -455,6 +455,7 @@ def assembleChannel(ShoreX, ShoreY, ShoreZ,
         if not Closed:
             logging.info('Closure occured in lagoon at X=%.0f', ShoreX[OnlineLagoon[LagCloseIx]])
             Closed = True
+            OutletChanIx = np.empty(0)
         EndArea += np.nansum(LagoonWidth[OnlineLagoon[LagCloseIx:]] * Dx)
         EndLen += np.nansum((LagoonWidth[OnlineLagoon[LagCloseIx:]] > 0) * Dx)
         OnlineLagoon = OnlineLagoon[:LagCloseIx]
-- 
2.43.0


From 74dbcc4890a5ba6a32e6840a7f703f827b98ae6b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:58:28 +0000
Subject: [PATCH 08/56] fix: count full offline storage area attached to
 first/last cross-section

---
 hapuamod/riv.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/hapuamod/riv.py b/hapuamod/riv.py
index 59d2eff..0d6f377 100644
--- a/hapuamod/riv.py
+++ b/hapuamod/riv.py
@@ -151,9 +151,9 @@ def solveFullPreissmann(z, B, LagArea, LagLen, Closed, h, V,
     
     # Calculate effective width of each XS for volume change i.e. total planform area/reach length. 
     dx2 = np.zeros(z.size)
-    dx2[0] = dx[0]
+    dx2[0] = dx[0]/2
     dx2[1:-1] = (dx[:-1]+dx[1:])/2
-    dx2[-1] = dx[-1]
+    dx2[-1] = dx[-1]/2
     Be = B + LagArea/dx2
     
     # Calculate ratio of length over which seepage occurs, to length of reach, for each reach
-- 
2.43.0


From adc3269108a713298720d5c769bd810f2fd2fe2f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:58:28 +0000
Subject: [PATCH 09/56] fix: no longshore transport where waves are directed
 offshore

---
 hapuamod/coast.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hapuamod/coast.py b/hapuamod/coast.py
index 2da6eab..ec72221 100644
--- a/hapuamod/coast.py
+++ b/hapuamod/coast.py
@@ -75,7 +75,7 @@ def longShoreTransport(ShoreY, Dx, WavePower, WavePeriod, Wlen_h, EDir_h, Physic
     # sin(alpha_b)/sin(alpha_h) = C_b/C_h
     BreakerAngle = np.arcsin(np.sin(LocalEDir_h) * (C_b / C_h))
     
-    LST = - PhysicalPars['K2coef'] * WavePower * np.cos(LocalEDir_h) * np.sin(BreakerAngle)
+    LST = - PhysicalPars['K2coef'] * LocalWavePower * np.cos(LocalEDir_h) * np.sin(BreakerAngle)
     
     return LST
 
-- 
2.43.0


From 32fa4e1fc801dc42981f86c5965e7f94bda38d41 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:58:28 +0000
Subject: [PATCH 10/56] fix: prevent NaN longshore transport when waves break
 deeper than WaveDataDepth

---
 hapuamod/coast.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/hapuamod/coast.py b/hapuamod/coast.py
index ec72221..fb2ca32 100644
--- a/hapuamod/coast.py
+++ b/hapuamod/coast.py
@@ -73,7 +73,8 @@ def longShoreTransport(ShoreY, Dx, WavePower, WavePeriod, Wlen_h, EDir_h, Physic
     C_h = ((PhysicalPars['Gravity'] * WavePeriod / (2.0 * np.pi)) * 
            np.tanh(2.0 * np.pi * PhysicalPars['WaveDataDepth'] / Wlen_h))
     # sin(alpha_b)/sin(alpha_h) = C_b/C_h
-    BreakerAngle = np.arcsin(np.sin(LocalEDir_h) * (C_b / C_h))
+    # (limit to valid range as waves may break deeper than WaveDataDepth in extreme conditions)
+    BreakerAngle = np.arcsin(np.clip(np.sin(LocalEDir_h) * (C_b / C_h), -1.0, 1.0))
     
     LST = - PhysicalPars['K2coef'] * LocalWavePower * np.cos(LocalEDir_h) * np.sin(BreakerAngle)
     
-- 
2.43.0


From 141aa800c2b8810408b2a1e85af124778f87c085 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:02:51 +0000
Subject: [PATCH 11/56] fix: outlet reaching right hand edge of domain was
 moved to the left hand edge

---
 hapuamod/mor.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/hapuamod/mor.py b/hapuamod/mor.py
index 75ccc14..968836b 100644
--- a/hapuamod/mor.py
+++ b/hapuamod/mor.py
@@ -219,8 +219,8 @@ def updateMorphology(ShoreX, ShoreY, ShoreZ,
         logging.warning('Left (negative X) end of outlet channel too close to edge of domain - preventing further migration')
         OutletEndX[1] = ShoreX[1]
     if OutletEndX[1] > ShoreX[-2]:
-        logging.warning('Right (negative X) end of outlet channel too close to edge of domain - preventing further migration')
-        OutletEndX[1] = ShoreX[1]
+        logging.warning('Right (positive X) end of outlet channel too close to edge of domain - preventing further migration')
+        OutletEndX[1] = ShoreX[-2]
     
     #%% 2. Check if shoreline has eroded into cliff anywhere
     CliffCollision = ShoreY[:,0] <= ShoreY[:,4]
-- 
2.43.0


From 9b2321377b28c75719079b0bd90ac8ca9718a150 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:02:51 +0000
Subject: [PATCH 12/56] fix: remove leftward longshore supply across outlet
 from shoreline change rate (not position)

---
 hapuamod/mor.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/hapuamod/mor.py b/hapuamod/mor.py
index 968836b..d401b2e 100644
--- a/hapuamod/mor.py
+++ b/hapuamod/mor.py
@@ -149,8 +149,8 @@ def updateMorphology(ShoreX, ShoreY, ShoreZ,
             OutletEndXMoveRate += WidthReductionRate/2
         else:
             # Transport from R to L
-            ShoreY[OutletRbShoreIx-1,0] += (LST[OutletRbShoreIx-1] 
-                                            / (ShorefaceHeight[OutletRbShoreIx-1] * Dx))
+            ShoreYChangeRate[OutletRbShoreIx-1,0] += (LST[OutletRbShoreIx-1] 
+                                                      / (ShorefaceHeight[OutletRbShoreIx-1] * Dx))
             WidthReductionRate = (-LST[OutletRbShoreIx-1]
                                   / ((PhysicalPars['BeachTopElev'] - OutletEndElev) * PhysicalPars['SpitWidth']))
             OutletEndWideningRate -= WidthReductionRate
-- 
2.43.0


From d503148006b469384c4d53fb470b735ca6e565d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:02:51 +0000
Subject: [PATCH 13/56] fix: checking for overtopping breach must not raise the
 outer barrier crest

---
 hapuamod/mor.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hapuamod/mor.py b/hapuamod/mor.py
index d401b2e..48a2b86 100644
--- a/hapuamod/mor.py
+++ b/hapuamod/mor.py
@@ -598,7 +598,7 @@ def updateMorphology(ShoreX, ShoreY, ShoreZ,
     #%% Check for overtopping breach 
     
     # Find the barrier height which has to be overtopped to cause a breach:
-    CrestHeight = ShoreZ[:,0] # default
+    CrestHeight = ShoreZ[:,0].copy() # default
     CrestHeight[OutletPresent] = np.amax(ShoreZ[OutletPresent,:][:,[0,2]], axis=1) # transects with active or relic channels (could be diconnected)
     CrestHeight[ConnectedChan] = ShoreZ[ConnectedChan,0] # transects with connected channels (active or relic)
     assert not np.any(np.isnan(CrestHeight)), 'NaN value(s) in CrestHeight at X = %s' % ShoreX[np.isnan(CrestHeight)]
-- 
2.43.0


From 135eb05adf4d5ddf6750cf5a18769762eb0f698d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:02:51 +0000
Subject: [PATCH 14/56] fix: outlet/lagoon and outlet/shoreline intersection
 checks read uninitialised memory where no outlet

---
 hapuamod/mor.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/hapuamod/mor.py b/hapuamod/mor.py
index 48a2b86..d89e89f 100644
--- a/hapuamod/mor.py
+++ b/hapuamod/mor.py
@@ -446,7 +446,7 @@ def updateMorphology(ShoreX, ShoreY, ShoreZ,
     #
     # Remove old outlet channel and preserve sediment mass balance
     
-    LagoonIntersect = ~np.greater(ShoreY[:,2], ShoreY[:,3], where=~np.isnan(ShoreY[:,1]))
+    LagoonIntersect = ShoreY[:,2] <= ShoreY[:,3] # (False where nan i.e. no outlet channel)
     if np.any(LagoonIntersect):
         for IntersectIx in np.where(LagoonIntersect)[0]:
             logging.info('Outlet intersects lagoon at X = %.1fm - adding channel width into lagoon' % 
@@ -516,7 +516,7 @@ def updateMorphology(ShoreX, ShoreY, ShoreZ,
     Breach = False
     BreachIx = np.nan
     
-    ShoreIntersect = ~np.greater(ShoreY[:,0], ShoreY[:,1], where=~np.isnan(ShoreY[:,1]))
+    ShoreIntersect = ShoreY[:,0] <= ShoreY[:,1] # (False where nan i.e. no outlet channel)
     if np.any(ShoreIntersect):
         # If lagoon closed then check if channel at any eroded location(s) is connected to lagoon via relic channel
         if Closed and np.any(ShoreIntersect[ConnectedChan]):
-- 
2.43.0


From bffbd9107526a6ad21934dc211a3cd538c943d06 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:02:51 +0000
Subject: [PATCH 15/56] fix: bed level of lagoon merged with relic channel uses
 the combined width

---
 hapuamod/mor.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/hapuamod/mor.py b/hapuamod/mor.py
index d89e89f..3f73925 100644
--- a/hapuamod/mor.py
+++ b/hapuamod/mor.py
@@ -453,7 +453,8 @@ def updateMorphology(ShoreX, ShoreY, ShoreZ,
                          ShoreX[IntersectIx])
         ShoreZ[LagoonIntersect, 3] = (((ShoreY[LagoonIntersect, 1] - ShoreY[LagoonIntersect, 2]) * ShoreZ[LagoonIntersect, 1] 
                                       + (ShoreY[LagoonIntersect, 3] - ShoreY[LagoonIntersect, 4]) * ShoreZ[LagoonIntersect, 3]) 
-                                      / (ShoreY[LagoonIntersect, 1] - ShoreY[LagoonIntersect, 4]))
+                                      / ((ShoreY[LagoonIntersect, 1] - ShoreY[LagoonIntersect, 2])
+                                         + (ShoreY[LagoonIntersect, 3] - ShoreY[LagoonIntersect, 4])))
         ShoreY[LagoonIntersect, 3] += (ShoreY[LagoonIntersect, 1] - ShoreY[LagoonIntersect, 2]) 
         # Remove outlet channel from transect now it has been dissolved into lagoon
         ShoreY[LagoonIntersect, 1] = np.nan
-- 
2.43.0


From a159e619dcc37766f1b47ef1605a77375386aa59 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:02:51 +0000
Subject: [PATCH 16/56] fix: remove inner barrier crest when relic channel
 dissolves into lagoon

---
 hapuamod/mor.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/hapuamod/mor.py b/hapuamod/mor.py
index 3f73925..9d37c14 100644
--- a/hapuamod/mor.py
+++ b/hapuamod/mor.py
@@ -460,6 +460,8 @@ def updateMorphology(ShoreX, ShoreY, ShoreZ,
         ShoreY[LagoonIntersect, 1] = np.nan
         ShoreY[LagoonIntersect, 2] = np.nan
         ShoreZ[LagoonIntersect, 1] = np.nan
+        ShoreZ[LagoonIntersect, 2] = np.nan
+        OutletPresent[LagoonIntersect] = False
     
     #%% ID locations where existing or relic outlet channel is connected to lagoon
     # Also update WaterLevel variable to include outlet channel water level 
-- 
2.43.0


From 09783ad89a5958efdbd37533344ee6b204c44d64 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:02:51 +0000
Subject: [PATCH 17/56] fix: only allow spill breach of open lagoon closer to
 river than existing outlet (and no crash if none possible)

---
 hapuamod/mor.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/hapuamod/mor.py b/hapuamod/mor.py
index 9d37c14..fe77a3c 100644
--- a/hapuamod/mor.py
+++ b/hapuamod/mor.py
@@ -628,9 +628,9 @@ def updateMorphology(ShoreX, ShoreY, ShoreZ,
                     PossBreachTsects.append(TsectIx)
             else: # TsectIx == X0Ix
                 PossBreachTsects.append(TsectIx)
-        PossBreachTsects = np.array(PossBreachTsects)
+        PossBreachTsects = np.array(PossBreachTsects, dtype=int)
         
-        if PossBreachTsects.size == 0 and not Closed:
+        if PossBreachTsects.size > 0 and not Closed:
             # If lagoon open then assume overtopping can only cause breach if it 
             # is closer to where river enters lagoon than existing outlet
             CloserToRiv = np.abs(ShoreX) < np.min(np.abs(OutletEndX))
-- 
2.43.0


From d085eb0116fe83e523f544e8a8f99c6255cde4b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:02:51 +0000
Subject: [PATCH 18/56] fix: truncate leftward angled outlet at the
 upstream-most eroded transect

---
 hapuamod/mor.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hapuamod/mor.py b/hapuamod/mor.py
index fe77a3c..4736202 100644
--- a/hapuamod/mor.py
+++ b/hapuamod/mor.py
@@ -415,7 +415,7 @@ def updateMorphology(ShoreX, ShoreY, ShoreZ,
                                                        ShoreX <= OutletEndX[1]))[0]
             else:
                 # Outlet angles from R to L
-                OutletEndX[1] = ShoreX[TruncationIx[-1]] + Dx/2 
+                OutletEndX[1] = ShoreX[TruncationIx[0]] + Dx/2 
                 OutletChanIx = np.flipud(np.where(np.logical_and(OutletEndX[1] <= ShoreX,
                                                                  ShoreX <= OutletEndX[0]))[0])
     
-- 
2.43.0


From 1776257194cbd298d09ad322b51a2a51e51c27ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:02:51 +0000
Subject: [PATCH 19/56] fix: do not increase morphological timestep beyond
 MorDtMax

---
 hapuamod/mor.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hapuamod/mor.py b/hapuamod/mor.py
index 4736202..f4985cb 100644
--- a/hapuamod/mor.py
+++ b/hapuamod/mor.py
@@ -184,7 +184,7 @@ def updateMorphology(ShoreX, ShoreY, ShoreZ,
         MorDt /= 2
         logging.debug('Decreasing morphological timestep to %.1fs', MorDt.seconds)
     
-    while MorDt.seconds < TimePars['MorDtMax'].seconds and MaxMorChangeRate * MorDt.seconds < NumericalPars['MaxMorChange']/2:
+    while MorDt*2 <= TimePars['MorDtMax'] and MaxMorChangeRate * MorDt.seconds < NumericalPars['MaxMorChange']/2:
         MorDt *= 2
         logging.debug('Increasing morphological timestep to %.1fs', MorDt.seconds)
     
-- 
2.43.0


From 76ee422346607dc55d11bb9ce50cbc28210cbaaf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:03:34 +0000
Subject: [PATCH 20/56] fix: use total seconds of timesteps (fractional seconds
 and whole days were dropped)

---
 hapuamod/mor.py | 28 ++++++++++++++--------------
 hapuamod/out.py |  2 +-
 hapuamod/riv.py |  2 +-
 3 files changed, 16 insertions(+), 16 deletions(-)

diff --git a/hapuamod/mor.py b/hapuamod/mor.py
index f4985cb..1862a5e 100644
--- a/hapuamod/mor.py
+++ b/hapuamod/mor.py
@@ -180,22 +180,22 @@ def updateMorphology(ShoreX, ShoreY, ShoreZ,
                            abs(OutletEndAggRate),
                            abs(OutletEndXMoveRate))
     
-    while MorDt.seconds > TimePars['MorDtMin'].seconds and MaxMorChangeRate * MorDt.seconds > NumericalPars['MaxMorChange']:
+    while MorDt.total_seconds() > TimePars['MorDtMin'].total_seconds() and MaxMorChangeRate * MorDt.total_seconds() > NumericalPars['MaxMorChange']:
         MorDt /= 2
-        logging.debug('Decreasing morphological timestep to %.1fs', MorDt.seconds)
+        logging.debug('Decreasing morphological timestep to %.1fs', MorDt.total_seconds())
     
-    while MorDt*2 <= TimePars['MorDtMax'] and MaxMorChangeRate * MorDt.seconds < NumericalPars['MaxMorChange']/2:
+    while MorDt*2 <= TimePars['MorDtMax'] and MaxMorChangeRate * MorDt.total_seconds() < NumericalPars['MaxMorChange']/2:
         MorDt *= 2
-        logging.debug('Increasing morphological timestep to %.1fs', MorDt.seconds)
+        logging.debug('Increasing morphological timestep to %.1fs', MorDt.total_seconds())
     
     # If morphological change is going to exceed MaxMorChange despite adaptive timestepping then:
     #  1. issue warning
     #  2. limit change (while preserving sign) to prevent model blowing up (even though this may be at the expense of mass balance)
-    if MaxMorChangeRate * MorDt.seconds > NumericalPars['MaxMorChange']:
-        assert MorDt.seconds <= TimePars['MorDtMin'].seconds
+    if MaxMorChangeRate * MorDt.total_seconds() > NumericalPars['MaxMorChange']:
+        assert MorDt.total_seconds() <= TimePars['MorDtMin'].total_seconds()
         logging.warning('Max morphological change (%.3fm) exceeds "MaxMorChange (%.3fm)" but MorDt already at minimum. Limiting change to +/- %.3fm',
-                        MaxMorChangeRate * MorDt.seconds, NumericalPars['MaxMorChange'], NumericalPars['MaxMorChange'])
-        MorChangeRateLimit = NumericalPars['MaxMorChange'] / MorDt.seconds
+                        MaxMorChangeRate * MorDt.total_seconds(), NumericalPars['MaxMorChange'], NumericalPars['MaxMorChange'])
+        MorChangeRateLimit = NumericalPars['MaxMorChange'] / MorDt.total_seconds()
         RivBedAggRate = np.minimum(np.maximum(RivBedAggRate, -MorChangeRateLimit), MorChangeRateLimit)
         ShoreYChangeRate = np.minimum(np.maximum(ShoreYChangeRate, -MorChangeRateLimit), MorChangeRateLimit)
         ShoreZChangeRate = np.minimum(np.maximum(ShoreZChangeRate, -MorChangeRateLimit), MorChangeRateLimit)
@@ -206,13 +206,13 @@ def updateMorphology(ShoreX, ShoreY, ShoreZ,
     #%% Update morphology
         
     # note that += modifies variables in place so no need to explicitly return them!
-    RiverElev[1:] += RivBedAggRate * MorDt.seconds
-    ShoreZ += ShoreZChangeRate * MorDt.seconds
-    ShoreY += ShoreYChangeRate * MorDt.seconds
+    RiverElev[1:] += RivBedAggRate * MorDt.total_seconds()
+    ShoreZ += ShoreZChangeRate * MorDt.total_seconds()
+    ShoreY += ShoreYChangeRate * MorDt.total_seconds()
     if not Closed:
-        OutletEndWidth.flat[0] += OutletEndWideningRate * MorDt.seconds
-        OutletEndElev.flat[0] += OutletEndAggRate * MorDt.seconds
-        OutletEndX[1] += OutletEndXMoveRate * MorDt.seconds
+        OutletEndWidth.flat[0] += OutletEndWideningRate * MorDt.total_seconds()
+        OutletEndElev.flat[0] += OutletEndAggRate * MorDt.total_seconds()
+        OutletEndX[1] += OutletEndXMoveRate * MorDt.total_seconds()
     
     #%% 1. Check if outlet has extended too close to the edge of the domain
     if OutletEndX[1] < ShoreX[1]:
diff --git a/hapuamod/out.py b/hapuamod/out.py
index 94d1cad..093af2b 100644
--- a/hapuamod/out.py
+++ b/hapuamod/out.py
@@ -647,6 +647,6 @@ def writeTsOut(FileName, CurrentTime, SeaLevel, RivFlow, Hs_offshore, EDir_h,
     NcFile.variables['sed_inflow'][TimeIx] = SedInflow
     NcFile.variables['outlet_end_x'][TimeIx,:] = OutletEndX
     NcFile.variables['outlet_closed'][TimeIx] = Closed
-    NcFile.variables['mordt'][TimeIx] = MorDt.seconds
+    NcFile.variables['mordt'][TimeIx] = MorDt.total_seconds()
     
     NcFile.close()
\ No newline at end of file
diff --git a/hapuamod/riv.py b/hapuamod/riv.py
index 0d6f377..d70128b 100644
--- a/hapuamod/riv.py
+++ b/hapuamod/riv.py
@@ -141,7 +141,7 @@ def solveFullPreissmann(z, B, LagArea, LagLen, Closed, h, V,
     Beta = NumericalPars['Beta']
     Tol = NumericalPars['ErrTol']
     MaxIt = NumericalPars['MaxIt']
-    dt = dt.seconds          # timestep for hydraulics [s]
+    dt = dt.total_seconds()  # timestep for hydraulics [s]
     N = z.size               # number of cross-sections
     S_0 = (z[:-1]-z[1:])/dx  # bed slope in each reach between XS [m/m]
     
-- 
2.43.0


From 0e66ed24909b98aeef87a8c12343587c0437c549 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:03:34 +0000
Subject: [PATCH 21/56] fix: simulation crashed on reaching the end time
 instead of finishing

---
 hapuamod/core.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/hapuamod/core.py b/hapuamod/core.py
index d117dd9..e103fbf 100644
--- a/hapuamod/core.py
+++ b/hapuamod/core.py
@@ -104,7 +104,7 @@ def main(ModelConfigFile, Overwrite=False):
     PlotTime = TimePars['StartTime'] + OutputOpts['PlotInt']
     
     MorDt = TimePars['MorDtMin'] # Initial morphological timestep
-    while MorTime <= TimePars['EndTime']:
+    while MorTime < TimePars['EndTime']:
         
         # Re-assemble the combined river channel incase it has evolved
         (ChanDx, ChanElev, ChanWidth, LagArea, LagLen, ChanDep, ChanVel, 
@@ -118,8 +118,12 @@ def main(ModelConfigFile, Overwrite=False):
                                 NumericalPars['Dx'], PhysicalPars)
                 
         # Run the river model for all the timesteps upto the next morphology step
-        HydTimes = pd.date_range(MorTime, MorTime + MorDt, 
+        # (without running beyond the specified end time)
+        HydEndTime = min(MorTime + MorDt, TimePars['EndTime'])
+        HydTimes = pd.date_range(MorTime, HydEndTime, 
                                  freq=TimePars['HydDt'], closed='right')
+        if HydTimes.size == 0: # less than HydDt remaining
+            HydTimes = pd.DatetimeIndex([HydEndTime])
         
         RivFlow = interpolate_at(FlowTs, HydTimes).values
         SeaLevel = interpolate_at(SeaLevelTs, HydTimes).values
-- 
2.43.0


From 0ae7774260ff718b26fff1506307022d0e39eb26 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:03:34 +0000
Subject: [PATCH 22/56] fix: shot noise with default (first order) decay or
 fractional days between events

---
 hapuamod/synth.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/hapuamod/synth.py b/hapuamod/synth.py
index 848b7db..89e3557 100644
--- a/hapuamod/synth.py
+++ b/hapuamod/synth.py
@@ -92,15 +92,17 @@ def shotNoise(StartDate, EndDate, OutputInt,
     r = random.Random(RandomSeed)
     
     # Calculation additional (derived) input parameters
-    EventRate = 1/MeanTimeBetweenEvents.days
+    EventRate = pd.Timedelta(days=1)/MeanTimeBetweenEvents # events per day
     PropRate2 = 1-PropRate1
+    if DecayRate2 is None: # first order shot noise
+        DecayRate2 = DecayRate1
     Rate1Vals = [MeanEventIncrease * (PropRate1 / DecayRate1) * EventRate]
     Rate2Vals = [MeanEventIncrease * (PropRate2 / DecayRate2) * EventRate]
     MeanVal = Rate1Vals[0] + Rate2Vals[0]
     
     logging.info('Generating synthetic shot-noise timeseries for period %s to %s' % (StartDate, EndDate))
     logging.debug('MeanTimeBetweenEvents = %f days, MeanEventIncrease = %f m3/s, DecayRate1 = %f' %  
-                  (MeanTimeBetweenEvents.days, MeanEventIncrease,DecayRate1))
+                  (1/EventRate, MeanEventIncrease,DecayRate1))
     logging.debug('PropRate1 = %f, DecayRate2 = %f, RisingLimbTime = %f hours' % 
                   (PropRate1, DecayRate2, RisingLimbTime.total_seconds() / 3600))
     logging.info('Estimated mean value of generated timeseries = %.3f' % MeanVal)
-- 
2.43.0


From 5bc92213e9547fca6dcf86437a7da9c2a48ec678 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:03:34 +0000
Subject: [PATCH 23/56] fix: missing (nan) flows during rising limbs of
 synthetic shot noise hydrograph

---
 hapuamod/synth.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/hapuamod/synth.py b/hapuamod/synth.py
index 89e3557..ba4e6ae 100644
--- a/hapuamod/synth.py
+++ b/hapuamod/synth.py
@@ -158,7 +158,8 @@ def shotNoise(StartDate, EndDate, OutputInt,
         # EventList = EventList.append(pd.Series([EventSize], index = pd.DatetimeIndex([LastEventTime])))
     
     # Resample the output timeseries and clip
-    OutputTs = OutputTs.resample(OutputInt).mean()
+    # (interpolating any output intervals within rising limbs which contain no calculated points)
+    OutputTs = OutputTs.resample(OutputInt).mean().interpolate(method='time')
     OutputTs = OutputTs.loc[:EndDate]    
     
     return OutputTs
-- 
2.43.0


From 28870d73e37fe3f6a9edbcb6519fd4b1d65e0ef2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:03:34 +0000
Subject: [PATCH 24/56] fix: looking up hotstart time in output file (cftime
 objects not understood by pandas, ties)

---
 hapuamod/out.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/hapuamod/out.py b/hapuamod/out.py
index 093af2b..ff2b8ca 100644
--- a/hapuamod/out.py
+++ b/hapuamod/out.py
@@ -506,10 +506,12 @@ def closestTimeIx(NcFile, DatetimeOfInterest):
         TimeIx = closestTimeIx(NcFile, DatetimeOfInterest)
     """
     NetCdfTimes = NcFile.variables['time'][:]
-    OutputTimes = pd.to_datetime(netCDF4.num2date(NetCdfTimes, NcFile.variables['time'].units))
+    OutputTimes = pd.to_datetime(netCDF4.num2date(NetCdfTimes, NcFile.variables['time'].units,
+                                                  only_use_cftime_datetimes=False,
+                                                  only_use_python_datetimes=True))
     
     TimeDiffs = abs(OutputTimes - DatetimeOfInterest)
-    TimeIx = np.where(TimeDiffs==min(TimeDiffs))[0]
+    TimeIx = np.where(TimeDiffs==min(TimeDiffs))[0][:1]
     ClosestTime = OutputTimes[TimeIx].to_pydatetime()[0]
     
     return (TimeIx, ClosestTime)
-- 
2.43.0


From b4269c475d8a3529d790e16597eccbb6274b4bda Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:03:34 +0000
Subject: [PATCH 25/56] fix: outlet end bedload was never written to output
 file

---
 hapuamod/out.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/hapuamod/out.py b/hapuamod/out.py
index ff2b8ca..680f62e 100644
--- a/hapuamod/out.py
+++ b/hapuamod/out.py
@@ -403,6 +403,7 @@ def writeCurrent(FileName, CurrentTime, SeaLevel, RivFlow, Hs_offshore, EDir_h,
     NcFile.variables['outlet_end_z'][TimeIx] = OutletEndElev
     NcFile.variables['outlet_end_wl'][TimeIx] = OutletEndElev + OutletEndDep[0]
     NcFile.variables['outlet_end_vel'][TimeIx] = OutletEndVel[0]
+    NcFile.variables['outlet_end_bedload'][TimeIx] = np.ravel(OutletEndBedload)[0]
     NcFile.variables['dummy_xs_dep'][TimeIx] = OutletEndDep[1]
     NcFile.variables['dummy_xs_vel'][TimeIx] = OutletEndVel[1]
     NcFile.variables['outlet_closed'][TimeIx] = Closed
-- 
2.43.0


From 934b17b2d96860c7cfae63f1e85157db8ffe4c92 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:07:49 +0000
Subject: [PATCH 26/56] fix: wave direction written to output files in radians
 (not degrees as labelled) and lost on reading

---
 hapuamod/out.py | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/hapuamod/out.py b/hapuamod/out.py
index 680f62e..5a714b3 100644
--- a/hapuamod/out.py
+++ b/hapuamod/out.py
@@ -365,7 +365,7 @@ def writeCurrent(FileName, CurrentTime, SeaLevel, RivFlow, Hs_offshore, EDir_h,
     NcFile.variables['sea_level'][TimeIx] = SeaLevel
     NcFile.variables['river_flow'][TimeIx] = RivFlow
     NcFile.variables['hs_offshore'][TimeIx] = Hs_offshore
-    NcFile.variables['wave_dir'][TimeIx] = EDir_h
+    NcFile.variables['wave_dir'][TimeIx] = np.rad2deg(EDir_h)
     
     # Append new data to shore transect variables
     NcFile.variables['shoreline_y'][TimeIx,:] = ShoreY[:,0]
@@ -437,7 +437,7 @@ def readTimestep(NcFile, TimeIx):
     SeaLevel = NcFile.variables['sea_level'][TimeIx]
     RivFlow = NcFile.variables['river_flow'][TimeIx]
     Hs_offshore = NcFile.variables['hs_offshore'][TimeIx]
-    EDir_h = NcFile.variables['wave_dir'][TimeIx]
+    EDir_h = np.deg2rad(NcFile.variables['wave_dir'][TimeIx])
     
     ShoreX = NcFile.variables['transect_x'][:]
     
@@ -474,7 +474,6 @@ def readTimestep(NcFile, TimeIx):
     Closed = bool(NcFile.variables['outlet_closed'][TimeIx])
     
     WavePower=None
-    EDir_h=0
     LST = NcFile.variables['lst'][TimeIx,:] / 3600
     CST = NcFile.variables['cst'][TimeIx,:] / 3600
     
@@ -642,7 +641,7 @@ def writeTsOut(FileName, CurrentTime, SeaLevel, RivFlow, Hs_offshore, EDir_h,
     NcFile.variables['sea_level'][TimeIx] = SeaLevel
     NcFile.variables['river_flow'][TimeIx] = RivFlow
     NcFile.variables['hs_offshore'][TimeIx] = Hs_offshore
-    NcFile.variables['wave_dir'][TimeIx] = EDir_h
+    NcFile.variables['wave_dir'][TimeIx] = np.rad2deg(EDir_h)
     
     # Append new data to other high frequency outputs
     NcFile.variables['lagoon_level'][TimeIx] = MeanLagoonWl
-- 
2.43.0


From 00239edec45296ded433f1d916fcb71c4b0df531 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:07:49 +0000
Subject: [PATCH 27/56] fix: division by zero calculating model origin for
 shoreline running exactly east-west

---
 hapuamod/loadmod.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/hapuamod/loadmod.py b/hapuamod/loadmod.py
index d7d8304..3c7737f 100644
--- a/hapuamod/loadmod.py
+++ b/hapuamod/loadmod.py
@@ -434,9 +434,8 @@ def loadModel(ModelConfigFile):
         
         # Defin origin point on baseline (in line with river inflow)
         Origin = np.empty(2)
-        Origin[0] = ((InflowCoord[1] + 
-                      (InflowCoord[0]/Baseline[0]) - Baseline[1]) / 
-                     (Baseline[0] + 1/Baseline[0]))
+        Origin[0] = (((InflowCoord[1] - Baseline[1]) * Baseline[0] + InflowCoord[0]) / 
+                     (Baseline[0]**2 + 1))
         Origin[1] = Origin[0] * Baseline[0] + Baseline[1]
         if ((InflowCoord[0] * Baseline[0] + Baseline[1])>0):
             # land is to north of baseline
-- 
2.43.0


From 5fd701455d31264a17b12780a183c46e4dbc7f44 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:07:49 +0000
Subject: [PATCH 28/56] fix: identify landward side of shoreline from position
 of river relative to baseline

---
 hapuamod/loadmod.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hapuamod/loadmod.py b/hapuamod/loadmod.py
index 3c7737f..9d7907d 100644
--- a/hapuamod/loadmod.py
+++ b/hapuamod/loadmod.py
@@ -437,7 +437,7 @@ def loadModel(ModelConfigFile):
         Origin[0] = (((InflowCoord[1] - Baseline[1]) * Baseline[0] + InflowCoord[0]) / 
                      (Baseline[0]**2 + 1))
         Origin[1] = Origin[0] * Baseline[0] + Baseline[1]
-        if ((InflowCoord[0] * Baseline[0] + Baseline[1])>0):
+        if InflowCoord[1] > (InflowCoord[0] * Baseline[0] + Baseline[1]):
             # land is to north of baseline
             ShoreNormDir = math.atan2(Baseline[0],-1)
         else:
-- 
2.43.0


From 6ab52915cf74dc53730a8588115d270642ec8487 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:07:49 +0000
Subject: [PATCH 29/56] fix: position straight outlet (crossing no transects)
 using its X coordinate

---
 hapuamod/loadmod.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/hapuamod/loadmod.py b/hapuamod/loadmod.py
index 9d7907d..b7287b8 100644
--- a/hapuamod/loadmod.py
+++ b/hapuamod/loadmod.py
@@ -519,10 +519,10 @@ def loadModel(ModelConfigFile):
         if np.all(np.logical_not(OutletMask)):
             # Handle special case that outlet is straight out and didn't intersect any transects
             if OutletToR:
-                OutletEndX[0] = Dx * (np.mean(OutletCoords2[:,1])//Dx)
+                OutletEndX[0] = Dx * (np.mean(OutletCoords2[:,0])//Dx)
                 OutletEndX[1] = OutletEndX[0] + Dx/2
             else:
-                OutletEndX[0] = Dx * ((np.mean(OutletCoords2[:,1])//Dx) + 1)
+                OutletEndX[0] = Dx * ((np.mean(OutletCoords2[:,0])//Dx) + 1)
                 OutletEndX[1] = OutletEndX[0] - Dx/2
             
             OutletMask = ShoreX == OutletEndX[0]
-- 
2.43.0


From f3ad01b5eba4310bbc9869391192892a51557b02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:07:49 +0000
Subject: [PATCH 30/56] fix: lagoon must not overlap outlet channel for
 straight initial outlet

---
 hapuamod/loadmod.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hapuamod/loadmod.py b/hapuamod/loadmod.py
index b7287b8..0265af9 100644
--- a/hapuamod/loadmod.py
+++ b/hapuamod/loadmod.py
@@ -530,7 +530,7 @@ def loadModel(ModelConfigFile):
             ShoreY[OutletMask,1] = min(ShoreY[OutletMask,0] - PhysicalPars['SpitWidth'], 
                                        (ShoreY[OutletMask,0] + ShoreY[OutletMask,3])/2 + IniCond['OutletWidth']/2)
             ShoreY[OutletMask,2] = ShoreY[OutletMask,1] - IniCond['OutletWidth']
-            ShoreY[OutletMask,3] = min(ShoreY[OutletMask,2] + 0.001, ShoreY[OutletMask,3])
+            ShoreY[OutletMask,3] = min(ShoreY[OutletMask,2] - 0.001, ShoreY[OutletMask,3])
         else:
             if OutletToR:
                 # Outlet angles from L to R
-- 
2.43.0


From 786aad49371cdddf8fe99f9d85217d54b98f7f39 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:07:49 +0000
Subject: [PATCH 31/56] fix: ensure there is a transect at exactly X=0
 (rounding errors for fractional Dx)

---
 hapuamod/loadmod.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/hapuamod/loadmod.py b/hapuamod/loadmod.py
index 0265af9..b780fbc 100644
--- a/hapuamod/loadmod.py
+++ b/hapuamod/loadmod.py
@@ -336,8 +336,8 @@ def loadModel(ModelConfigFile):
         ShoreNormDir = 0.0
         
         # Create key shore parrallel variables
-        ShoreX = np.arange(math.floor(-Config['SpatialInputs']['ShorelineLengthLeft']/Dx)*Dx, 
-                           Config['SpatialInputs']['ShorelineLengthRight'] + Dx, Dx)
+        ShoreX = Dx * np.arange(math.floor(-Config['SpatialInputs']['ShorelineLengthLeft']/Dx), 
+                                math.ceil(Config['SpatialInputs']['ShorelineLengthRight']/Dx) + 1)
         ShoreY = np.full([ShoreX.size, 5], np.nan)
         ShoreZ = np.full([ShoreX.size, 4], np.nan)
         
@@ -454,8 +454,8 @@ def loadModel(ModelConfigFile):
         assert np.all(np.diff(IniShoreCoords2[:,0]) > 0), 'Shoreline includes recurvature incompatible with model coordinate system'
         
         # Discretise shoreline at fixed intervals in model coordinate system
-        ShoreX = np.arange(math.ceil(IniShoreCoords2[0,0]/Dx)*Dx, 
-                           IniShoreCoords2[-1,0], Dx)
+        ShoreX = Dx * np.arange(math.ceil(IniShoreCoords2[0,0]/Dx), 
+                                math.ceil(IniShoreCoords2[-1,0]/Dx))
         ShoreY = np.full([ShoreX.size, 5], np.nan)
         ShoreZ = np.full([ShoreX.size, 4], np.nan)
         
-- 
2.43.0


From 854f420c5cff134ce740fbfab5bc88e38c828f79 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:09:00 +0000
Subject: [PATCH 32/56] fix: hotstart from single precision output file (Dx
 check, morphology in double precision)

---
 hapuamod/loadmod.py | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/hapuamod/loadmod.py b/hapuamod/loadmod.py
index b780fbc..3bd5af4 100644
--- a/hapuamod/loadmod.py
+++ b/hapuamod/loadmod.py
@@ -320,9 +320,17 @@ def loadModel(ModelConfigFile):
          LST, CST, Closed, RiverElev, RiverWL, RiverVel, ModelTime) = \
             out.readTimestep(NcFile, TimeIx)
         
+        # Output files are single precision so convert to double precision (plain arrays) 
+        # so that small morphological changes are not lost to rounding
+        (ShoreX, LagoonWL, LagoonVel, OutletWL, OutletVel, OutletEndX, 
+         OutletEndWidth, OutletEndElev, RiverElev, RiverWL, RiverVel) = \
+            [np.array(np.ma.filled(Var, np.nan), dtype=float) for Var in 
+             (ShoreX, LagoonWL, LagoonVel, OutletWL, OutletVel, OutletEndX, 
+              OutletEndWidth, OutletEndElev, RiverElev, RiverWL, RiverVel)]
+        
         Origin = np.array([NcFile.ModelOriginX, NcFile.ModelOriginY])
         ShoreNormDir = np.deg2rad(NcFile.ModelOrientation)
-        assert ShoreX[1] - ShoreX[0] == Dx, 'Dx specified in model config file must match hotstart file'
+        assert np.isclose(ShoreX[1] - ShoreX[0], Dx, atol=0.001), 'Dx specified in model config file must match hotstart file'
         
     elif Config['SpatialInputs']['Shoreline'] is None:
         #%% Initialise model with default straight shoreline etc
-- 
2.43.0


From 1e9a40f6baf120e14c1b2bf0d740c3ad32a9454f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:09:00 +0000
Subject: [PATCH 33/56] fix: synthetic boundary timeseries fell short of end
 time if duration not multiple of interval

---
 hapuamod/loadmod.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/hapuamod/loadmod.py b/hapuamod/loadmod.py
index 3bd5af4..fa48a25 100644
--- a/hapuamod/loadmod.py
+++ b/hapuamod/loadmod.py
@@ -596,7 +596,9 @@ def loadModel(ModelConfigFile):
             HydrographStart = pd.to_datetime(SNPars['HydrographStart'])
         else:
             HydrographStart = TimePars['StartTime']
-        FlowTs = synth.shotNoise(HydrographStart, TimePars['EndTime'], 
+        # (extend by one interval to ensure series reaches EndTime)
+        FlowTs = synth.shotNoise(HydrographStart, 
+                                 TimePars['EndTime'] + pd.Timedelta(minutes = SNPars['HydrographDt']), 
                                  pd.Timedelta(minutes = SNPars['HydrographDt']),
                                  pd.Timedelta(days = SNPars['MeanDaysBetweenEvents']), 
                                  SNPars['MeanEventIncrease'], 
@@ -631,7 +633,9 @@ def loadModel(ModelConfigFile):
     if Config['BoundaryConditions']['SeaLevel'].lower() == 'harmonic':
         logging.info('Harmonic tidal boundary specified')
         HTPars = Config['BoundaryConditions']['HarmonicTideParameters']
-        SeaLevelTs = synth.harmonicTide(TimePars['StartTime'], TimePars['EndTime'], 
+        # (extend by one interval to ensure series reaches EndTime)
+        SeaLevelTs = synth.harmonicTide(TimePars['StartTime'], 
+                                        TimePars['EndTime'] + pd.Timedelta(minutes = HTPars['SeaLevelDt']),
                                         pd.Timedelta(minutes = HTPars['SeaLevelDt']),
                                         HTPars['MeanSeaLevel'], HTPars['TidalRange'])
     else:
-- 
2.43.0


From be41d1a8fdf8bfaca3b0567c870eb717c5c017e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:09:00 +0000
Subject: [PATCH 34/56] fix: plotting model with closed outlet

---
 hapuamod/animate.py   |  2 +-
 hapuamod/core.py      |  2 +-
 hapuamod/visualise.py | 12 ++++++------
 3 files changed, 8 insertions(+), 8 deletions(-)

diff --git a/hapuamod/animate.py b/hapuamod/animate.py
index 14c784c..14f322c 100644
--- a/hapuamod/animate.py
+++ b/hapuamod/animate.py
@@ -193,7 +193,7 @@ def main(ResultsFile, AnimationFile, StartTimestep=0, EndTimestep=None,
                                        OutletChanIx, RiverWidth, SpitWidth,
                                        ShoreZ=None, WavePower=None, EDir_h=0, LST=None, CST=None, 
                                        WaveScaling=0.01, CstScaling=0.00005, LstScaling=0.0001,
-                                       QuiverWidth=0.002, AreaOfInterest=AreaOfInterest)
+                                       QuiverWidth=0.002, AreaOfInterest=AreaOfInterest, Closed=Closed)
         FigToAnimate = ModelFig['PlanFig']
         
         # Set up animation function
diff --git a/hapuamod/core.py b/hapuamod/core.py
index e103fbf..bde6743 100644
--- a/hapuamod/core.py
+++ b/hapuamod/core.py
@@ -94,7 +94,7 @@ def main(ModelConfigFile, Overwrite=False):
                                        PhysicalPars['SpitWidth'], ShoreZ=ShoreZ, 
                                        WavePower=0, EDir_h=0, 
                                        LST=np.zeros(ShoreX.size-1),
-                                       CST=np.zeros(ShoreX.size))
+                                       CST=np.zeros(ShoreX.size), Closed=Closed)
         
     #%% Main timestepping loop
     MorTime = TimePars['StartTime']
diff --git a/hapuamod/visualise.py b/hapuamod/visualise.py
index 49ea3e8..e4d82fe 100644
--- a/hapuamod/visualise.py
+++ b/hapuamod/visualise.py
@@ -67,7 +67,7 @@ def modelView(ShoreX, ShoreY, OutletEndX, OutletEndWidth, OutletChanIx,
               RiverWidth, SpitWidth,
               ShoreZ=None, WavePower=None, EDir_h=0, LST=None, CST=None, 
               WaveScaling=0.01, CstScaling=0.00005, LstScaling=0.0001,
-              QuiverWidth=0.002, AreaOfInterest=None, PlotTime=None):
+              QuiverWidth=0.002, AreaOfInterest=None, PlotTime=None, Closed=False):
     """ Map the current model state in model coordinates
     
         Parameters:
@@ -174,7 +174,7 @@ def modelView(ShoreX, ShoreY, OutletEndX, OutletEndWidth, OutletChanIx,
     
     # Update plot with correct data
     updateModelView(ModelFig, ShoreX, ShoreY, OutletEndX, OutletEndWidth, 
-                    OutletChanIx, ShoreZ=ShoreZ, WavePower=WavePower, 
+                    OutletChanIx, Closed=Closed, ShoreZ=ShoreZ, WavePower=WavePower, 
                     EDir_h=EDir_h, LST=LST, CST=CST, PlotTime=PlotTime)
     
     return ModelFig
@@ -241,14 +241,14 @@ def updateModelView(ModelFig, ShoreX, ShoreY, OutletEndX, OutletEndWidth,
     
     if Closed:
         # Outlet plotting position
-        OutletX = np.nan
-        OutletY = np.nan
+        OutletX = [np.nan]
+        OutletY = [np.nan]
         
         # Shoreline
         ShoreLineX = ShoreX
         ShoreLineY = ShoreY[:,0]
-        ShoreDotsX = np.nan
-        ShoreDotsY = np.nan
+        ShoreDotsX = [np.nan]
+        ShoreDotsY = [np.nan]
         
         # BarrierBackshore
         LagoonLineX = ShoreX
-- 
2.43.0


From bfd2e4b970514b55a8331a6b3f27c92060f5d368 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:09:00 +0000
Subject: [PATCH 35/56] fix: cliff hatch polygon elevation at right hand edge
 of domain

---
 hapuamod/visualise.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hapuamod/visualise.py b/hapuamod/visualise.py
index e4d82fe..4f72ffd 100644
--- a/hapuamod/visualise.py
+++ b/hapuamod/visualise.py
@@ -223,7 +223,7 @@ def updateModelView(ModelFig, ShoreX, ShoreY, OutletEndX, OutletEndWidth,
                              np.flipud(RiverLbY),   # River LB
                              -5000.0, CliffToLY[0], # LH Edge of domain
                              np.nan,                # Break to separate L and R polygons
-                             CliffToRX[-1],-5000.0, # RH Edge of domain
+                             CliffToRY[-1],-5000.0, # RH Edge of domain
                              RiverRbY,              # River RB
                              CliffToRY])            # Cliff RHS
     
-- 
2.43.0


From 0c716e8c770054384057427e2147fde39e6c171f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:09:00 +0000
Subject: [PATCH 36/56] fix: limiting right bank of outlet in plan view altered
 left bank instead

---
 hapuamod/visualise.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hapuamod/visualise.py b/hapuamod/visualise.py
index 4f72ffd..cd390ed 100644
--- a/hapuamod/visualise.py
+++ b/hapuamod/visualise.py
@@ -344,7 +344,7 @@ def updateModelView(ModelFig, ShoreX, ShoreY, OutletEndX, OutletEndWidth,
                                    np.NaN, # Extra point
                                    np.interp(OutletDsRbX, ShoreX, ShoreY[:,0])])
             OutletRbY[-2] = (OutletRbY[-1]-SpitWidth + OutletRbY[-3])/2
-            OutletLbY[-3] = np.min(OutletRbY[[-1,-3]])
+            OutletRbY[-3] = np.min(OutletRbY[[-1,-3]])
         else:
             # Outlet right bank angles R to L
             R_Ok = ShoreX[OutletChanIx] > OutletDsRbX
-- 
2.43.0


From 93a4b00513c6a760ceaf6a977ca7ad8a9a74b740 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:09:00 +0000
Subject: [PATCH 37/56] fix: show time on newly created transect plot

---
 hapuamod/visualise.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hapuamod/visualise.py b/hapuamod/visualise.py
index cd390ed..2880dfc 100644
--- a/hapuamod/visualise.py
+++ b/hapuamod/visualise.py
@@ -676,7 +676,7 @@ def newTransectFig(ShoreX, ShoreY, ShoreZ, LagoonWL, OutletWL, SeaLevel,
     
     # Update lines
     updateTransectFig(TransectFig, ShoreY, ShoreZ, 
-                      LagoonWL, OutletWL, SeaLevel)
+                      LagoonWL, OutletWL, SeaLevel, PlotTime)
     
     return TransectFig
 
-- 
2.43.0


From 7b2ed7809f202f527d0f6a987b4afd6a1d7d0a66 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:37:19 +0000
Subject: [PATCH 38/56] fix: outlet end reach length wrong for transect
 spacings not exactly representable

Modulus of a coordinate lying (to rounding) on a transect could return
almost a whole Dx, doubling the length of the last reach.
---
 hapuamod/riv.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/hapuamod/riv.py b/hapuamod/riv.py
index d70128b..4dba7b3 100644
--- a/hapuamod/riv.py
+++ b/hapuamod/riv.py
@@ -476,10 +476,10 @@ def assembleChannel(ShoreX, ShoreY, ShoreZ,
         ChanDx = np.full(RiverElev.size + OnlineLagoon.size + OutletChanIx.size + 1, Dx)
         if OutletEndX[0] < OutletEndX[1]:
             # Outlet angles from L to R
-            ChanDx[-2] += OutletEndX[1] % Dx
+            ChanDx[-2] += OutletEndX[1] - ShoreX[OutletChanIx[-1]]
         else:
             # Outlet from R to L
-            ChanDx[-2] += (-OutletEndX[1]) % Dx
+            ChanDx[-2] += ShoreX[OutletChanIx[-1]] - OutletEndX[1]
         ChanFlag = np.concatenate([np.full(RiverElev.size, 0), 
                                    np.full(OnlineLagoon.size, 1), 
                                    np.full(OutletChanIx.size, 2), [3,4]])
-- 
2.43.0


From 2959b0310ccd639691c9c2b9891486f82e96e03b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:37:19 +0000
Subject: [PATCH 39/56] fix: zero velocity nudge prevented convergence when
 tighter than it

With a closed outlet the velocity at the closed end was reset to 0.0001 m/s
every iteration, so for ErrTol of 0.0001 or less the solution never
converged and reverted to a steady solution flowing out of the lagoon.
---
 hapuamod/riv.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/hapuamod/riv.py b/hapuamod/riv.py
index 4dba7b3..42ae602 100644
--- a/hapuamod/riv.py
+++ b/hapuamod/riv.py
@@ -147,7 +147,7 @@ def solveFullPreissmann(z, B, LagArea, LagLen, Closed, h, V,
     
     # Prevent unexpected errors
     h[h<=0] = 0.0001 # Prevent negative depths
-    V[V==0] = 0.0001 # Prevent zero velocities
+    V[V==0] = min(0.0001, Tol/10) # Prevent zero velocities
     
     # Calculate effective width of each XS for volume change i.e. total planform area/reach length. 
     dx2 = np.zeros(z.size)
@@ -292,7 +292,7 @@ def solveFullPreissmann(z, B, LagArea, LagLen, Closed, h, V,
             
             # Prevent unexpected errors
             h[h<=0] = 0.0001 # Prevent negative depths
-            V[V==0] = 0.0001 # Prevent zero velocities
+            V[V==0] = min(0.0001, Tol/10) # Prevent zero velocities
             
             # Update Sf and A
             Sf = V*np.abs(V) * (n**2) / (h**(4/3))
-- 
2.43.0


From 243c0e6144e926ee4002b558d9deb0ac4ff120d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:41:32 +0000
Subject: [PATCH 40/56] fix: barrier seepage of a closed lagoon ignored the sea
 level at start of first timestep

The water level at the (closed) downstream end was taken as the previous
sea level so the (1-Theta) part of the seepage head was about zero for the
first timestep of every call.
---
 hapuamod/riv.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/hapuamod/riv.py b/hapuamod/riv.py
index 42ae602..0f54387 100644
--- a/hapuamod/riv.py
+++ b/hapuamod/riv.py
@@ -169,7 +169,10 @@ def solveFullPreissmann(z, B, LagArea, LagLen, Closed, h, V,
     # Pre-compute some variables required for the start of the first timestep of the loop
     A = h*B                                # area of flow at each XS [m^2]
     Sf = V*np.abs(V) * (n**2) / (h**(4/3)) # friction slope at each XS [m/m]
-    DsWl = z[-1] + h[-1]
+    if Closed:
+        DsWl = DsWl_Ts[0]                  # lagoon level says nothing about the sea level
+    else:
+        DsWl = z[-1] + h[-1]
     
     # Main timestepping loop
     for StepNo in range(Q_Ts.shape[0]):
-- 
2.43.0


From a61eca27123a7a9819b0e1ff85613bcde825d3b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:43:58 +0000
Subject: [PATCH 41/56] fix: unsteady solution failed to converge for reverse
 flow

Derivative of the convective term V*abs(V)*A had the wrong sign for
negative velocities.
---
 hapuamod/riv.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/hapuamod/riv.py b/hapuamod/riv.py
index 0f54387..bc3f678 100644
--- a/hapuamod/riv.py
+++ b/hapuamod/riv.py
@@ -261,7 +261,7 @@ def solveFullPreissmann(z, B, LagArea, LagLen, Closed, h, V,
                                                   - g_dt_Theta*B[:-1]*(S_0+(1/3)*Sf[:-1]))
             # d/dV[0]
             a_banded[3,np.arange(1,2*(N)-2,2)] = (A[:-1] 
-                                                  - 4*Beta*dtdx*Theta*V[:-1]*A[:-1] 
+                                                  - 4*Beta*dtdx*Theta*abs(V[:-1])*A[:-1] 
                                                   + 2*g_dt_Theta*A[:-1]*Sf[:-1]/V[:-1])
             # d/dh[1]
             a_banded[2,np.arange(2,2*(N),2)]   = (V[1:]*B[1:] 
@@ -270,7 +270,7 @@ def solveFullPreissmann(z, B, LagArea, LagLen, Closed, h, V,
                                                   - g_dt_Theta*B[1:]*(S_0+(1/3)*Sf[1:]))
             # d/dV[1]
             a_banded[1,np.arange(3,2*(N),2)]   = (A[1:] 
-                                                  + 4*Beta*dtdx*Theta*V[1:]*A[1:] 
+                                                  + 4*Beta*dtdx*Theta*abs(V[1:])*A[1:] 
                                                   + 2*g_dt_Theta*A[1:]*Sf[1:]/V[1:])
             
             # Ds Bdy condition derivatives
-- 
2.43.0


From c8f55b27ce49f7ad1c95a6741e7bd5b1bc3f1167 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:45:48 +0000
Subject: [PATCH 42/56] fix: revert to steady solution (rather than raise
 error) when unsteady iterations overflow

---
 hapuamod/riv.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/hapuamod/riv.py b/hapuamod/riv.py
index bc3f678..553175a 100644
--- a/hapuamod/riv.py
+++ b/hapuamod/riv.py
@@ -281,6 +281,11 @@ def solveFullPreissmann(z, B, LagArea, LagLen, Closed, h, V,
                 a_banded[2,2*N-1] = 0
                 a_banded[3,2*N-2] = 1
             
+            # Give up (and revert to steady solution) if solution has blown up
+            if not (np.all(np.isfinite(a_banded)) and np.all(np.isfinite(Err))):
+                ItCount = MaxIt
+                break
+            
             # Solve the banded matrix
             try:
                 Delta = linalg.solve_banded([2,2],a_banded,Err)
-- 
2.43.0


From 6d153d02d6690ac865d16ebea4092cff915322df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:53:12 +0000
Subject: [PATCH 43/56] fix: revert to steady solution when matrix remains
 singular after adding noise

---
 hapuamod/riv.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/hapuamod/riv.py b/hapuamod/riv.py
index 553175a..06175ed 100644
--- a/hapuamod/riv.py
+++ b/hapuamod/riv.py
@@ -292,7 +292,12 @@ def solveFullPreissmann(z, B, LagArea, LagLen, Closed, h, V,
             except linalg.LinAlgError as ErrMsg:
                 logging.warning('LinAlgError %s - adding some noise to see if this fixes it...' % ErrMsg)
                 a_banded += np.random.random(a_banded.shape) * 1e-7 - 5e-8
-                Delta = linalg.solve_banded([2,2],a_banded,Err)
+                try:
+                    Delta = linalg.solve_banded([2,2],a_banded,Err)
+                except linalg.LinAlgError:
+                    # Still singular so give up and revert to steady solution
+                    ItCount = MaxIt
+                    break
             
             # Update h & V
             h -= Delta[np.arange(0,2*N,2)]
-- 
2.43.0


From 0345e64187345f2afec3b54fc0916ff6323055dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:07:30 +0000
Subject: [PATCH 44/56] fix: overwash into a closed channel whose inner barrier
 has just eroded aborted the run

---
 hapuamod/mor.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/hapuamod/mor.py b/hapuamod/mor.py
index 1862a5e..0a19d6f 100644
--- a/hapuamod/mor.py
+++ b/hapuamod/mor.py
@@ -250,8 +250,9 @@ def updateMorphology(ShoreX, ShoreY, ShoreZ,
         PutSedAtFront = VolUntilLevel >= 0.0
         PutSedAtBack = VolUntilLevel < 0.0
         VolUntilLevel[PutSedAtFront] *= CrestWidth[NegativeOutletWidth][PutSedAtFront]
-        VolUntilLevel[PutSedAtBack] *= -(ShoreY[NegativeOutletWidth,2][PutSedAtBack] - 
-                                         ShoreY[NegativeOutletWidth,3][PutSedAtBack])
+        # (inner barrier may have been completely eroded from the lagoon side in the same timestep)
+        VolUntilLevel[PutSedAtBack] *= -np.maximum(ShoreY[NegativeOutletWidth,2][PutSedAtBack] - 
+                                                   ShoreY[NegativeOutletWidth,3][PutSedAtBack], 0.0)
         assert np.all(VolUntilLevel >= 0.0), "Vol until level should not be negative"
         LeveledSections = VolToMove > VolUntilLevel
         PutSedAtFront[LeveledSections] = False
-- 
2.43.0


From 21ae34bb5eb2370a2e4b511fb0506451d7de857c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:07:30 +0000
Subject: [PATCH 45/56] fix: seaward truncation following lagoonward truncation
 in the same timestep could remove the whole outlet channel

---
 hapuamod/mor.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hapuamod/mor.py b/hapuamod/mor.py
index 0a19d6f..83f13c6 100644
--- a/hapuamod/mor.py
+++ b/hapuamod/mor.py
@@ -408,7 +408,7 @@ def updateMorphology(ShoreX, ShoreY, ShoreZ,
         # (don't check first transect as trucation here would leave 0 transects)
         if np.any(ShoreY[OutletChanIx[1:],1] >= ShoreY[OutletChanIx[1:],0]):
             logging.info('Truncating seaward end of outlet channel (due to erosion)')
-            TruncationIx = OutletChanIx[ShoreY[OutletChanIx,1] >= ShoreY[OutletChanIx,0]]
+            TruncationIx = OutletChanIx[1:][ShoreY[OutletChanIx[1:],1] >= ShoreY[OutletChanIx[1:],0]]
             if OutletEndX[0] < OutletEndX[1]:
                 # Outlet angles from L to R
                 OutletEndX[1] = ShoreX[TruncationIx[0]] - Dx/2 
-- 
2.43.0


From 2d1adf8ce541815a6917aaffb45808722bc42a46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:16:24 +0000
Subject: [PATCH 46/56] fix: overwash filling the lagoon resulted in negative
 lagoon width

---
 hapuamod/mor.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/hapuamod/mor.py b/hapuamod/mor.py
index 83f13c6..d48f759 100644
--- a/hapuamod/mor.py
+++ b/hapuamod/mor.py
@@ -281,6 +281,14 @@ def updateMorphology(ShoreX, ShoreY, ShoreZ,
             # Update OutletPresent variable to reflect removed section of channel
             OutletPresent = ~np.isnan(ShoreY[:,1])
     
+    # Check if overwash has more than filled the lagoon and put any excess on top of the barrier (so lagoon width isn't negative)
+    LagoonFilled = np.logical_and(~OutletPresent, ShoreY[:,3] < ShoreY[:,4])
+    if np.any(LagoonFilled):
+        logging.info('Overwash has filled the lagoon at X = %s', ShoreX[LagoonFilled])
+        ShoreZ[LagoonFilled,0] += ((ShoreY[LagoonFilled,4] - ShoreY[LagoonFilled,3]) * BackBarHeight[LagoonFilled] / 
+                                   CrestWidth[LagoonFilled])
+        ShoreY[LagoonFilled,3] = ShoreY[LagoonFilled,4]
+    
     #%% 4. Check if d/s end of outlet channel has elongated across a transect line and adjust as necessary...
     if not Closed:
         if OutletEndX[0] < OutletEndX[1]:
-- 
2.43.0


From 2f442fc16777a0ef8c991fa627cb2ce38bf8cac9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:17:15 +0000
Subject: [PATCH 47/56] fix: filling eroded channel or restoring eroded barrier
 could push shoreline into cliff, aborting the run at next timestep

---
 hapuamod/mor.py | 15 +++++++++++++++
 1 file changed, 15 insertions(+)

diff --git a/hapuamod/mor.py b/hapuamod/mor.py
index d48f759..a946601 100644
--- a/hapuamod/mor.py
+++ b/hapuamod/mor.py
@@ -559,6 +559,7 @@ def updateMorphology(ShoreX, ShoreY, ShoreZ,
     #%% ID locations where barrier completely eroded (and there is a lagoon)
     # should only apply to locations where there is no channel in barrier
     EroTsects = np.where(np.logical_and(ShoreY[:,3]>=ShoreY[:,0], ShoreY[:,3]>ShoreY[:,4]))[0]
+    NotBreachIx = np.empty(0, dtype=int)
     
     if EroTsects.size > 0:
         # Check which eroded locations are hydraulically connected to river
@@ -607,6 +608,20 @@ def updateMorphology(ShoreX, ShoreY, ShoreZ,
             ShoreY[NotBreachIx,0] += ShoreShiftDist
             ShoreY[NotBreachIx,3] -= (OverlapDist - ShoreShiftDist)
     
+    # Filling an eroded outlet channel (or restoring an eroded barrier) may have pushed the shoreline (or lagoon) into the cliff
+    CliffCollision = ShoreY[:,0] <= ShoreY[:,4]
+    CliffCollision[NotBreachIx] = ShoreY[NotBreachIx,3] < ShoreY[NotBreachIx,4]
+    CliffCollision[np.arange(ShoreX.size) == BreachIx] = False
+    if np.any(CliffCollision):
+        logging.info('Shoreline/cliff collision - retreating cliff at X = %s', ShoreX[CliffCollision])
+        CliffOverlapDist = (ShoreY[CliffCollision,4] - ShoreY[CliffCollision,0]) + 0.001
+        CliffRetDist = (CliffOverlapDist / 
+                        (1 + ((PhysicalPars['BackshoreElev'] - ShoreZ[CliffCollision,0]) / 
+                              ShorefaceHeight[CliffCollision])))
+        ShoreY[CliffCollision, 4] -= CliffRetDist
+        ShoreY[CliffCollision, 3] = ShoreY[CliffCollision, 4]
+        ShoreY[CliffCollision, 0] += (CliffOverlapDist - CliffRetDist)
+    
     #%% Check for overtopping breach 
     
     # Find the barrier height which has to be overtopped to cause a breach:
-- 
2.43.0


From a01db926322d7b1020eae8776305b47d5f71479c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:21:33 +0000
Subject: [PATCH 48/56] fix: longshore transport infilling outlet end could
 result in negative outlet width

---
 hapuamod/mor.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/hapuamod/mor.py b/hapuamod/mor.py
index a946601..c57e398 100644
--- a/hapuamod/mor.py
+++ b/hapuamod/mor.py
@@ -211,6 +211,7 @@ def updateMorphology(ShoreX, ShoreY, ShoreZ,
     ShoreY += ShoreYChangeRate * MorDt.total_seconds()
     if not Closed:
         OutletEndWidth.flat[0] += OutletEndWideningRate * MorDt.total_seconds()
+        OutletEndWidth.flat[0] = max(OutletEndWidth, 0.0) # fully infilled rather than negative width
         OutletEndElev.flat[0] += OutletEndAggRate * MorDt.total_seconds()
         OutletEndX[1] += OutletEndXMoveRate * MorDt.total_seconds()
     
-- 
2.43.0


From 0aa7cb17c71e3551c83c767404b942c082da4d5e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:02:16 +0000
Subject: [PATCH 49/56] fix: wave preprocessing dropped the minutes of the wave
 model's times

---
 preprocessing/WaveDataFromSwanOutput.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/preprocessing/WaveDataFromSwanOutput.py b/preprocessing/WaveDataFromSwanOutput.py
index 2e8b7f7..96f7c57 100644
--- a/preprocessing/WaveDataFromSwanOutput.py
+++ b/preprocessing/WaveDataFromSwanOutput.py
@@ -5,14 +5,14 @@ WaveModelOutputFile = 'C:\\Users\measuresrj\OneDrive - NIWA\Hapua\Hurunui\SWAN\o
 ShoreNormalDir = 128 # [degrees] used for back refracting to deep water
 
 #%% Read model wave data
-ColNames = ['ModelTime', 'Year', 'Month', 'Day', 'Hour', 'Min', 
+ColNames = ['ModelTime', 'Year', 'Month', 'Day', 'Hour', 'Minute', 
             'Hsig', 'Tm01', 'WavePeriod', 'RTpeak', 'Dir', 'Dspr', 
             'PkDir', 'XWindv', 'YWindv', 'Ubot', 'Urms', 'Wlen_h', 'Depth', 
             'XTransp', 'YTransp', 'XWForce', 'YWForce', 'Radstr', 'Setup']
 
 WaveData = pd.read_table(WaveModelOutputFile, sep=' ', skipinitialspace=True,
                          skiprows=27, names=ColNames)
-WaveData['DateTime'] = pd.to_datetime(WaveData.iloc[:,1:5])
+WaveData['DateTime'] = pd.to_datetime(WaveData.iloc[:,1:6])
 WaveData = WaveData.set_index('DateTime')
 
 # Extract the columns we want
-- 
2.43.0


From 75aaa5a92a49d213b6b88933488c5a3048085b46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:02:29 +0000
Subject: [PATCH 50/56] fix: reverse shoaling in wave preprocessing multiplied
 by the group speed ratio instead of dividing

---
 preprocessing/WaveDataFromSwanOutput.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/preprocessing/WaveDataFromSwanOutput.py b/preprocessing/WaveDataFromSwanOutput.py
index 96f7c57..4327fde 100644
--- a/preprocessing/WaveDataFromSwanOutput.py
+++ b/preprocessing/WaveDataFromSwanOutput.py
@@ -50,7 +50,7 @@ WaveData['Angle_Offshore'] = np.arcsin(np.maximum(np.minimum(WaveData['LoffRatio
                                                              np.sin(WaveData['Angle_h']), 
                                                              1.0), -1.0)) # min and max is to prevent tiny irregularities generating complex numbers due to calculation of asin(>1) or asin(<-1)
 OutputData['Hsig_Offshore'] = (WaveData['Hsig'] / 
-                               np.sqrt(0.5 * WaveData['n_h'] * WaveData['LoffRatio'] * 
+                               np.sqrt(0.5 / WaveData['n_h'] * WaveData['LoffRatio'] * 
                                        (np.cos(WaveData['Angle_Offshore']) / 
                                         np.cos(WaveData['Angle_h']))))
 
-- 
2.43.0


From cc936b9375cdf90aabd8b590c8c9c45e267765e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:35:39 +0000
Subject: [PATCH 51/56] fix: momentum flux of reversed flow had the wrong sign
 in the unsteady solver

The convective term of the Saint-Venant equations is d(V^2 A)/dx whichever
way the water flows; V*abs(V)*A made the velocity head act the wrong way
round (and the solution not symmetrical) for negative velocities.
---
 hapuamod/riv.py | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/hapuamod/riv.py b/hapuamod/riv.py
index 06175ed..fb08a0d 100644
--- a/hapuamod/riv.py
+++ b/hapuamod/riv.py
@@ -195,8 +195,8 @@ def solveFullPreissmann(z, B, LagArea, LagLen, Closed, h, V,
         
         # For momentum equation
         C2 = (V_old[:-1]*A_old[:-1] + V_old[1:]*A_old[1:]
-              -2*Beta*(dtdx)*Theta1 * (V_old[1:]*np.abs(V_old[1:])*A_old[1:]
-                                       - V_old[:-1]*np.abs(V_old[:-1])*A_old[:-1])
+              -2*Beta*(dtdx)*Theta1 * (V_old[1:]**2*A_old[1:]
+                                       - V_old[:-1]**2*A_old[:-1])
               - g*(dtdx)*Theta1 * (A_old[1:] + A_old[:-1]) * (h_old[1:]-h_old[:-1])
               + g*dt*Theta1 * (A_old[1:]*(S_0 - Sf_old[1:]) 
                                + A_old[:-1]*(S_0 - Sf_old[:-1])))
@@ -217,8 +217,8 @@ def solveFullPreissmann(z, B, LagArea, LagLen, Closed, h, V,
             
             # Error in momentum equation
             Err[np.arange(2,2*N-1,2)] = (V[:-1]*A[:-1] + V[1:]*A[1:]
-                                         + 2*Beta*dtdx*Theta * (V[1:]*np.abs(V[1:])*A[1:]
-                                                                   - V[:-1]*np.abs(V[:-1])*A[:-1])
+                                         + 2*Beta*dtdx*Theta * (V[1:]**2*A[1:]
+                                                                   - V[:-1]**2*A[:-1])
                                          + g*(dtdx)*Theta * (A[1:] + A[:-1]) * (h[1:]-h[:-1])
                                          - g_dt_Theta * (A[1:]*(S_0-Sf[1:]) + A[:-1]*(S_0-Sf[:-1]))
                                          - C2)
@@ -256,21 +256,21 @@ def solveFullPreissmann(z, B, LagArea, LagLen, Closed, h, V,
             # Momentum equation derivatives
             # d/dh[0]
             a_banded[4,np.arange(0,2*(N)-2,2)] = (V[:-1]*B[:-1] 
-                                                  - 2*Beta*dtdx*Theta*abs(V[:-1])*V[:-1]*B[:-1]
+                                                  - 2*Beta*dtdx*Theta*V[:-1]**2*B[:-1]
                                                   + g*Theta*dtdx*(-2*A[:-1] + B[:-1]*h[1:] - A[1:])
                                                   - g_dt_Theta*B[:-1]*(S_0+(1/3)*Sf[:-1]))
             # d/dV[0]
             a_banded[3,np.arange(1,2*(N)-2,2)] = (A[:-1] 
-                                                  - 4*Beta*dtdx*Theta*abs(V[:-1])*A[:-1] 
+                                                  - 4*Beta*dtdx*Theta*V[:-1]*A[:-1] 
                                                   + 2*g_dt_Theta*A[:-1]*Sf[:-1]/V[:-1])
             # d/dh[1]
             a_banded[2,np.arange(2,2*(N),2)]   = (V[1:]*B[1:] 
-                                                  + 2*Beta*dtdx*Theta*abs(V[1:])*V[1:]*B[1:]
+                                                  + 2*Beta*dtdx*Theta*V[1:]**2*B[1:]
                                                   + g*Theta*dtdx*(2*A[1:] - B[1:]*h[:-1] + A[:-1])
                                                   - g_dt_Theta*B[1:]*(S_0+(1/3)*Sf[1:]))
             # d/dV[1]
             a_banded[1,np.arange(3,2*(N),2)]   = (A[1:] 
-                                                  + 4*Beta*dtdx*Theta*abs(V[1:])*A[1:] 
+                                                  + 4*Beta*dtdx*Theta*V[1:]*A[1:] 
                                                   + 2*g_dt_Theta*A[1:]*Sf[1:]/V[1:])
             
             # Ds Bdy condition derivatives
-- 
2.43.0


From 73619dfa0d345e910d58d825082be04a9262488b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:24:10 +0000
Subject: [PATCH 52/56] fix: synthetic flows where the rising limbs of three or
 more events overlap

Only the last two calculated points were considered when adding an event, so
flows jumped up and down within the overlapping rising limbs.
---
 hapuamod/synth.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/hapuamod/synth.py b/hapuamod/synth.py
index ba4e6ae..fe3fd26 100644
--- a/hapuamod/synth.py
+++ b/hapuamod/synth.py
@@ -122,15 +122,15 @@ def shotNoise(StartDate, EndDate, OutputInt,
           
             # Insert new (interpolated) time into output TS at start of new events rising limb
             OutputTs = OutputTs.append(pd.Series(np.interp(pd.DatetimeIndex([LastEventTime + GapLength - RisingLimbTime]).values.astype(float), 
-                                                           OutputTs.index[-2:].values.astype(float), 
-                                                           OutputTs[-2:]),
+                                                           OutputTs.index.values.astype(float), 
+                                                           OutputTs),
                                                  index = pd.DatetimeIndex([LastEventTime + GapLength - RisingLimbTime])))
             OutputTs.sort_index(inplace=True)
             
-            # Increase the flow at the last time in the output TS (as its part way through the rising limb of the next event)
-            OutputTs[-1] += np.interp(OutputTs.index[-1:].values.astype(float), 
-                                      pd.DatetimeIndex([LastEventTime + GapLength - RisingLimbTime, LastEventTime + GapLength]).values.astype(float), 
-                                      [0, EventSize])
+            # Increase the flow at all times in the output TS which are part way through the rising limb of the next event
+            OutputTs += np.interp(OutputTs.index.values.astype(float), 
+                                  pd.DatetimeIndex([LastEventTime + GapLength - RisingLimbTime, LastEventTime + GapLength]).values.astype(float), 
+                                  [0, EventSize])
             
             # Add a new data point at the peak of the new event
             TimeList = pd.DatetimeIndex([LastEventTime + GapLength])
-- 
2.43.0


From ab6fd56e7e8ad0ff2ed335cb690fdefc0fd41691 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:52:37 +0000
Subject: [PATCH 53/56] fix: number of river nodes depended on rounding of the
 bed levels and a slope of 0 failed

---
 hapuamod/loadmod.py | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/hapuamod/loadmod.py b/hapuamod/loadmod.py
index fa48a25..0387bb9 100644
--- a/hapuamod/loadmod.py
+++ b/hapuamod/loadmod.py
@@ -291,11 +291,10 @@ def loadModel(ModelConfigFile):
         IniCond = Config['InitialConditions']
         
         #%% Initialise river variables
-        RiverElev = np.flipud(np.arange(IniCond['LagoonBed'],
-                                        IniCond['LagoonBed']
-                                        + PhysicalPars['RiverSlope']
-                                        * PhysicalPars['UpstreamLength'],
-                                        PhysicalPars['RiverSlope'] * Dx))
+        # (number of nodes is independent of rounding in the bed levels, and the slope may be 0)
+        NumRiverNodes = int(np.ceil(np.round(PhysicalPars['UpstreamLength'] / Dx, 6)))
+        RiverElev = np.flipud(IniCond['LagoonBed'] + 
+                              PhysicalPars['RiverSlope'] * Dx * np.arange(NumRiverNodes))
     
     #%% Read/initialise spatial inputs
     if Config['HotStart']['InitialConditionsNetCDF'] is not None:
-- 
2.43.0


From e6b757c59fa96e61641e259c8bd6f5ff6ffe18ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:14:24 +0000
Subject: [PATCH 54/56] fix: breach into connected (relic or active) outlet
 channel should move the outlet end there

---
 hapuamod/mor.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/hapuamod/mor.py b/hapuamod/mor.py
index c57e398..93e29af 100644
--- a/hapuamod/mor.py
+++ b/hapuamod/mor.py
@@ -539,7 +539,9 @@ def updateMorphology(ShoreX, ShoreY, ShoreZ,
             PossBreachTsects = np.where(np.logical_and(ShoreIntersect, ConnectedChan))[0]
             ChanLength = np.abs(ShoreX[PossBreachTsects] - OutletEndX[0])
             BreachIx = PossBreachTsects[np.argmin(ChanLength)]
-            ShoreIntersect = ShoreIntersect[ShoreIntersect!=BreachIx]
+            ShoreIntersect[BreachIx] = False
+            # leave a token barrier as the channel becomes the outlet rather than getting filled
+            ShoreY[BreachIx,0] = ShoreY[BreachIx,1] + 0.001
     
         # Adjust ShoreY where outlet banks intersects coast or lagoon    
         for IntersectIx in np.where(ShoreIntersect)[0]:
@@ -679,10 +681,11 @@ def updateMorphology(ShoreX, ShoreY, ShoreZ,
     
     #%% Create breach if one has been triggered
     if Breach:
-        if BreachIx in ConnectedChan:
+        if ConnectedChan[BreachIx] and OutletPresent[BreachIx]:
             # Outlet truncation breach
             logging.info('Breach on pre-existing outlet channel at X = %.1fm' % ShoreX[BreachIx])
             OutletEndX[1] = ShoreX[BreachIx]
+            OutletEndWidth.flat[0] = max(OutletEndWidth, 2*PhysicalPars['MinOutletWidth'])
             # TODO: close sediment balance by putting breach eroded sed onto shore
         else:
             # Lagoon breach (i.e. new outlet channel)
-- 
2.43.0


From 0f5292d5b12f9644c156259b84c85672b8bd1d42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:56:43 +0000
Subject: [PATCH 55/56] fix: save a lagoon which has just breached as open so
 that hotstarts from there continue with the outlet

---
 hapuamod/core.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/hapuamod/core.py b/hapuamod/core.py
index bde6743..7df892c 100644
--- a/hapuamod/core.py
+++ b/hapuamod/core.py
@@ -193,6 +193,7 @@ def main(ModelConfigFile, Overwrite=False):
                                  ChanFlag, Closed)
         
         # Save outputs
+        # (a lagoon which has just breached is saved as open so that hotstarts from there have the breach as outlet)
         if MorTime >= OutTime:
             out.writeCurrent(OutputOpts['OutFile'], MorTime, 
                              SeaLevel[-1], RivFlow[-1], Hs_offshore, EDir_h, 
@@ -201,14 +202,14 @@ def main(ModelConfigFile, Overwrite=False):
                              LST, CST_tot, OverwashProp,
                              RiverElev, ChanDep[ChanFlag==0], ChanVel[ChanFlag==0], Bedload[ChanFlag[:-1]==0],
                              OutletEndX, OutletEndElev, OutletEndWidth, 
-                             OutletEndDep, OutletEndVel, OutletEndBedload, Closed)
+                             OutletEndDep, OutletEndVel, OutletEndBedload, Closed and not Breach)
             OutTime += OutputOpts['OutInt']
         
         if MorTime >= TsOutTime:
             out.writeTsOut(OutputOpts['TsOutFile'], MorTime, 
                            SeaLevel[-1], RivFlow[-1], Hs_offshore, EDir_h, 
                            np.nanmean(LagoonWL), ChanDep[-1]*ChanVel[-1]*ChanWidth[-1], 
-                           Bedload[0], OutletEndX, Closed, MorDt)
+                           Bedload[0], OutletEndX, Closed and not Breach, MorDt)
             TsOutTime += OutputOpts['TsOutInt']
         
         # updates to user
-- 
2.43.0


From 836b437c068765fdba5e93c2916d450cdc5667f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:41:54 +0000
Subject: [PATCH 56/56] fix: move the upstream end of the outlet past all
 transects where the lagoon reaches it (not just the first), so that it stays
 open

---
 hapuamod/mor.py | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/hapuamod/mor.py b/hapuamod/mor.py
index 93e29af..e453169 100644
--- a/hapuamod/mor.py
+++ b/hapuamod/mor.py
@@ -363,13 +363,13 @@ def updateMorphology(ShoreX, ShoreY, ShoreZ,
             for AffectedX in TruncationIx:
                 logging.info('Truncating lagoon end of outlet channel (due to erosion) at X = %.1fm' % ShoreX[AffectedX])
             
-            # Move the ustream end of the outlet channel
+            # Move the ustream end of the outlet channel (past the furthest downstream collision)
             if OutletEndX[0] < OutletEndX[1]:
                 # Outlet angles from L to R
-                OutletEndX[0] = ShoreX[TruncationIx[0] + 1]
+                OutletEndX[0] = ShoreX[TruncationIx[-1] + 1]
             else:
                 # Outlet angles from R to L
-                OutletEndX[0] = ShoreX[TruncationIx[0] - 1]
+                OutletEndX[0] = ShoreX[TruncationIx[-1] - 1]
             
             # Recompute OutletChanIx
             if OutletEndX[0] < OutletEndX[1]:
@@ -384,19 +384,19 @@ def updateMorphology(ShoreX, ShoreY, ShoreZ,
             
             # Check if truncation is a collision between outlet channel and cliff
             # i.e. where there is no lagoon. If so then extend lagoon.
-            if ShoreY[TruncationIx[0], 2] <= ShoreY[TruncationIx[0], 4]:    
-                if ShoreX[TruncationIx[0]] > 0:
+            if ShoreY[TruncationIx[-1], 2] <= ShoreY[TruncationIx[-1], 4]:    
+                if ShoreX[TruncationIx[-1]] > 0:
                     # Extend right end of lagoon
                     logging.info('Extending R end of lagoon via outletchannel to cliffline collision.')
                     Extend = True
                     CurLagEndIx = np.where(ShoreY[:,3] > ShoreY[:,4])[0][-1]
-                    LagExtension = np.arange(CurLagEndIx + 1, TruncationIx[0] + 1)
+                    LagExtension = np.arange(CurLagEndIx + 1, TruncationIx[-1] + 1)
                 else:
                     # Extend left end of lagoon
                     logging.info('Extending L end of lagoon via outletchannel to cliffline collision.')
                     Extend = True
                     CurLagEndIx = np.where(ShoreY[:,3] > ShoreY[:,4])[0][0]
-                    LagExtension = np.arange(TruncationIx[0], CurLagEndIx)
+                    LagExtension = np.arange(TruncationIx[-1], CurLagEndIx)
             else:
                 Extend = False
             
-- 
2.43.0

