From 4b1ace1d3ca18a7724cdece8fddfc916bb07ecc8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:07:30 +0000
Subject: [PATCH 01/54] fix: stop the run at EndTime instead of stepping past
 the forcing

The main loop ran one extra zero-length step at EndTime (crashing in
interpolate_at) and shortened the clock after morphology had already been
advanced by the full timestep. Limit the timestep before it is used.
---
 hapuamod/core.py | 19 +++++++++++--------
 1 file changed, 11 insertions(+), 8 deletions(-)

diff --git a/hapuamod/core.py b/hapuamod/core.py
index d117dd9..1a3e020 100644
--- a/hapuamod/core.py
+++ b/hapuamod/core.py
@@ -104,7 +104,14 @@ def main(ModelConfigFile, Overwrite=False):
     PlotTime = TimePars['StartTime'] + OutputOpts['PlotInt']
     
     MorDt = TimePars['MorDtMin'] # Initial morphological timestep
-    while MorTime <= TimePars['EndTime']:
+    while MorTime < TimePars['EndTime']:
+        
+        # Prevent model from running beyond specified end time
+        TimeLeft = TimePars['EndTime'] - MorTime
+        MorDt = min(MorDt, TimeLeft)
+        HydDt = min(TimePars['HydDt'], MorDt)
+        StepTimePars = {**TimePars, 
+                        'MorDtMax': min(TimePars['MorDtMax'], TimeLeft)}
         
         # Re-assemble the combined river channel incase it has evolved
         (ChanDx, ChanElev, ChanWidth, LagArea, LagLen, ChanDep, ChanVel, 
@@ -119,7 +126,7 @@ def main(ModelConfigFile, Overwrite=False):
                 
         # Run the river model for all the timesteps upto the next morphology step
         HydTimes = pd.date_range(MorTime, MorTime + MorDt, 
-                                 freq=TimePars['HydDt'], closed='right')
+                                 freq=HydDt, closed='right')
         
         RivFlow = interpolate_at(FlowTs, HydTimes).values
         SeaLevel = interpolate_at(SeaLevelTs, HydTimes).values
@@ -127,7 +134,7 @@ def main(ModelConfigFile, Overwrite=False):
         try:
             riv.solveFullPreissmann(ChanElev, ChanWidth, LagArea, LagLen, 
                                     Closed, ChanDep, ChanVel, ChanDx, 
-                                    TimePars['HydDt'], RivFlow, SeaLevel, 
+                                    HydDt, RivFlow, SeaLevel, 
                                     NumericalPars, PhysicalPars)
         except Exception as ErrMsg:
             logging.warning(ErrMsg)
@@ -173,11 +180,7 @@ def main(ModelConfigFile, Overwrite=False):
                                                ChanWidth, ChanDep, ChanDx, ChanFlag, 
                                                Closed, LST, Bedload, CST_tot, OverwashProp,
                                                MorDt, 
-                                               PhysicalPars, TimePars, NumericalPars)
-        
-        # Prevent model from running beyond specified end time
-        if MorDt > TimePars['EndTime'] - MorTime:
-            MorDt = TimePars['EndTime'] - MorTime
+                                               PhysicalPars, StepTimePars, NumericalPars)
         
         # increment time
         MorTime += MorDt
-- 
2.43.0


From 1c6b8481ec7678a304a2fb2e200ef67e1504198c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:08:34 +0000
Subject: [PATCH 02/54] fix: interpolate wave direction as a circular quantity

EDir_h is stored in [-pi, pi), so linear interpolation between e.g. 3.0 and
-3.0 passed through shore-normal. Unwrap before interpolating.
---
 hapuamod/core.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/hapuamod/core.py b/hapuamod/core.py
index 1a3e020..60e70ef 100644
--- a/hapuamod/core.py
+++ b/hapuamod/core.py
@@ -257,5 +257,12 @@ def interpolate_at(Df, New_idxs):
     Selected = Df[FromIx:ToIx+1]
     Selected = Selected.reindex(Selected.index.append(New_idxs).unique())
     Selected = Selected.sort_index()
+    # Wave direction is circular so needs unwrapping before interpolation
+    CircularCols = [Col for Col in getattr(Selected, 'columns', []) if Col == 'EDir_h']
+    for Col in CircularCols:
+        Known = Selected[Col].notnull()
+        Selected.loc[Known, Col] = np.unwrap(Selected.loc[Known, Col])
     Selected = Selected.interpolate(method='time')
+    for Col in CircularCols:
+        Selected[Col] = np.mod(Selected[Col] + np.pi, 2*np.pi) - np.pi
     return Selected.loc[New_idxs]
-- 
2.43.0


From e2dfc02a6a3358f0bb27a7f23e041f239ba19787 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:09:00 +0000
Subject: [PATCH 03/54] fix: place a straight-out initial outlet using its X
 coordinate

When the initial outlet polyline crosses no transect its position was taken
from the mean Y coordinate, and the lagoon edge was placed seaward of the
outlet's inner bank.
---
 hapuamod/loadmod.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/hapuamod/loadmod.py b/hapuamod/loadmod.py
index d7d8304..14f93c9 100644
--- a/hapuamod/loadmod.py
+++ b/hapuamod/loadmod.py
@@ -520,10 +520,10 @@ def loadModel(ModelConfigFile):
         if np.all(np.logical_not(OutletMask)):
             # Handle special case that outlet is straight out and didn't intersect any transects
             if OutletToR:
-                OutletEndX[0] = Dx * (np.mean(OutletCoords2[:,1])//Dx)
+                OutletEndX[0] = Dx * (np.mean(OutletCoords2[:,0])//Dx)
                 OutletEndX[1] = OutletEndX[0] + Dx/2
             else:
-                OutletEndX[0] = Dx * ((np.mean(OutletCoords2[:,1])//Dx) + 1)
+                OutletEndX[0] = Dx * ((np.mean(OutletCoords2[:,0])//Dx) + 1)
                 OutletEndX[1] = OutletEndX[0] - Dx/2
             
             OutletMask = ShoreX == OutletEndX[0]
@@ -531,7 +531,7 @@ def loadModel(ModelConfigFile):
             ShoreY[OutletMask,1] = min(ShoreY[OutletMask,0] - PhysicalPars['SpitWidth'], 
                                        (ShoreY[OutletMask,0] + ShoreY[OutletMask,3])/2 + IniCond['OutletWidth']/2)
             ShoreY[OutletMask,2] = ShoreY[OutletMask,1] - IniCond['OutletWidth']
-            ShoreY[OutletMask,3] = min(ShoreY[OutletMask,2] + 0.001, ShoreY[OutletMask,3])
+            ShoreY[OutletMask,3] = min(ShoreY[OutletMask,2] - 0.001, ShoreY[OutletMask,3])
         else:
             if OutletToR:
                 # Outlet angles from L to R
-- 
2.43.0


From 7d57c46d26464de3318b87da2ff63bdbc56a8fb3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:09:30 +0000
Subject: [PATCH 04/54] fix: decide which side of the shoreline is land from
 the river inflow

The test compared the baseline's northing with zero, so any projected
coordinate system put land to the north whatever the inflow location.
---
 hapuamod/loadmod.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hapuamod/loadmod.py b/hapuamod/loadmod.py
index 14f93c9..08944c6 100644
--- a/hapuamod/loadmod.py
+++ b/hapuamod/loadmod.py
@@ -438,7 +438,7 @@ def loadModel(ModelConfigFile):
                       (InflowCoord[0]/Baseline[0]) - Baseline[1]) / 
                      (Baseline[0] + 1/Baseline[0]))
         Origin[1] = Origin[0] * Baseline[0] + Baseline[1]
-        if ((InflowCoord[0] * Baseline[0] + Baseline[1])>0):
+        if InflowCoord[1] > (InflowCoord[0] * Baseline[0] + Baseline[1]):
             # land is to north of baseline
             ShoreNormDir = math.atan2(Baseline[0],-1)
         else:
-- 
2.43.0


From 3b593da8230863f750b0dc454024efa7fb610d2b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:09:30 +0000
Subject: [PATCH 05/54] fix: allow a shoreline running exactly east-west

The origin calculation divided by the baseline slope, giving a NaN origin for
a zero slope.
---
 hapuamod/loadmod.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/hapuamod/loadmod.py b/hapuamod/loadmod.py
index 08944c6..4c35ef8 100644
--- a/hapuamod/loadmod.py
+++ b/hapuamod/loadmod.py
@@ -434,9 +434,9 @@ def loadModel(ModelConfigFile):
         
         # Defin origin point on baseline (in line with river inflow)
         Origin = np.empty(2)
-        Origin[0] = ((InflowCoord[1] + 
-                      (InflowCoord[0]/Baseline[0]) - Baseline[1]) / 
-                     (Baseline[0] + 1/Baseline[0]))
+        Origin[0] = ((InflowCoord[0] + 
+                      Baseline[0] * (InflowCoord[1] - Baseline[1])) / 
+                     (Baseline[0]**2 + 1))
         Origin[1] = Origin[0] * Baseline[0] + Baseline[1]
         if InflowCoord[1] > (InflowCoord[0] * Baseline[0] + Baseline[1]):
             # land is to north of baseline
-- 
2.43.0


From e10ee5cb9571106543e3af46e4dd571885450bf9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:09:58 +0000
Subject: [PATCH 06/54] fix: build the transect grid from whole multiples of Dx

Accumulating Dx from the left end left no transect at exactly X=0 for spacings
that are not exactly representable, and every model component looks one up.
---
 hapuamod/loadmod.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/hapuamod/loadmod.py b/hapuamod/loadmod.py
index 4c35ef8..2d5f623 100644
--- a/hapuamod/loadmod.py
+++ b/hapuamod/loadmod.py
@@ -336,8 +336,9 @@ def loadModel(ModelConfigFile):
         ShoreNormDir = 0.0
         
         # Create key shore parrallel variables
-        ShoreX = np.arange(math.floor(-Config['SpatialInputs']['ShorelineLengthLeft']/Dx)*Dx, 
-                           Config['SpatialInputs']['ShorelineLengthRight'] + Dx, Dx)
+        # (whole multiples of Dx so that there is always a transect at exactly X=0)
+        ShoreX = np.arange(math.floor(-Config['SpatialInputs']['ShorelineLengthLeft']/Dx), 
+                           math.ceil(Config['SpatialInputs']['ShorelineLengthRight']/Dx) + 1) * Dx
         ShoreY = np.full([ShoreX.size, 5], np.nan)
         ShoreZ = np.full([ShoreX.size, 4], np.nan)
         
@@ -455,8 +456,9 @@ def loadModel(ModelConfigFile):
         assert np.all(np.diff(IniShoreCoords2[:,0]) > 0), 'Shoreline includes recurvature incompatible with model coordinate system'
         
         # Discretise shoreline at fixed intervals in model coordinate system
-        ShoreX = np.arange(math.ceil(IniShoreCoords2[0,0]/Dx)*Dx, 
-                           IniShoreCoords2[-1,0], Dx)
+        # (whole multiples of Dx so that there is always a transect at exactly X=0)
+        ShoreX = np.arange(math.ceil(IniShoreCoords2[0,0]/Dx), 
+                           IniShoreCoords2[-1,0]/Dx) * Dx
         ShoreY = np.full([ShoreX.size, 5], np.nan)
         ShoreZ = np.full([ShoreX.size, 4], np.nan)
         
-- 
2.43.0


From 7507ee63efaa8319587299ffdd52e49bf352fc81 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:10:21 +0000
Subject: [PATCH 07/54] fix: make the number of river cross-sections
 UpstreamLength/Dx

Stepping in elevation gave one extra section for many slope/bed combinations
through rounding, and could not represent a flat river bed.
---
 hapuamod/loadmod.py | 7 ++-----
 1 file changed, 2 insertions(+), 5 deletions(-)

diff --git a/hapuamod/loadmod.py b/hapuamod/loadmod.py
index 2d5f623..d7c3b66 100644
--- a/hapuamod/loadmod.py
+++ b/hapuamod/loadmod.py
@@ -291,11 +291,8 @@ def loadModel(ModelConfigFile):
         IniCond = Config['InitialConditions']
         
         #%% Initialise river variables
-        RiverElev = np.flipud(np.arange(IniCond['LagoonBed'],
-                                        IniCond['LagoonBed']
-                                        + PhysicalPars['RiverSlope']
-                                        * PhysicalPars['UpstreamLength'],
-                                        PhysicalPars['RiverSlope'] * Dx))
+        RiverElev = np.flipud(IniCond['LagoonBed'] + PhysicalPars['RiverSlope'] * Dx * 
+                              np.arange(math.ceil(PhysicalPars['UpstreamLength'] / Dx)))
     
     #%% Read/initialise spatial inputs
     if Config['HotStart']['InitialConditionsNetCDF'] is not None:
-- 
2.43.0


From 4379ffd377013a1a43833acb93408c43ea6e8d2a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:11:37 +0000
Subject: [PATCH 08/54] fix: use the full mean time between shot-noise events

Timedelta.days drops the fractional day (and divides by zero below one day).
---
 hapuamod/synth.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/hapuamod/synth.py b/hapuamod/synth.py
index 848b7db..5469a5e 100644
--- a/hapuamod/synth.py
+++ b/hapuamod/synth.py
@@ -92,7 +92,7 @@ def shotNoise(StartDate, EndDate, OutputInt,
     r = random.Random(RandomSeed)
     
     # Calculation additional (derived) input parameters
-    EventRate = 1/MeanTimeBetweenEvents.days
+    EventRate = 86400/MeanTimeBetweenEvents.total_seconds()
     PropRate2 = 1-PropRate1
     Rate1Vals = [MeanEventIncrease * (PropRate1 / DecayRate1) * EventRate]
     Rate2Vals = [MeanEventIncrease * (PropRate2 / DecayRate2) * EventRate]
@@ -100,7 +100,7 @@ def shotNoise(StartDate, EndDate, OutputInt,
     
     logging.info('Generating synthetic shot-noise timeseries for period %s to %s' % (StartDate, EndDate))
     logging.debug('MeanTimeBetweenEvents = %f days, MeanEventIncrease = %f m3/s, DecayRate1 = %f' %  
-                  (MeanTimeBetweenEvents.days, MeanEventIncrease,DecayRate1))
+                  (1/EventRate, MeanEventIncrease,DecayRate1))
     logging.debug('PropRate1 = %f, DecayRate2 = %f, RisingLimbTime = %f hours' % 
                   (PropRate1, DecayRate2, RisingLimbTime.total_seconds() / 3600))
     logging.info('Estimated mean value of generated timeseries = %.3f' % MeanVal)
-- 
2.43.0


From 42c18cc7ed783c90e9ba96ddecd4e023e5e39478 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:11:38 +0000
Subject: [PATCH 09/54] fix: allow the documented first order shot-noise model

DecayRate2 defaults to None but was always used in arithmetic.
---
 hapuamod/synth.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/hapuamod/synth.py b/hapuamod/synth.py
index 5469a5e..39a05af 100644
--- a/hapuamod/synth.py
+++ b/hapuamod/synth.py
@@ -84,6 +84,8 @@ def shotNoise(StartDate, EndDate, OutputInt,
     if PropRate1 < 1:
         assert not DecayRate2 is None, 'If PropRate1 is less than 1 then DecayRate2 must be specified'
         assert DecayRate2 > 0, 'DecayRate must be greater than 0'
+    elif DecayRate2 is None:
+        DecayRate2 = DecayRate1 # First order model so never contributes
     assert RisingLimbTime > pd.Timedelta(days=0), 'Rising limb time must be greater than 0'
     if CalcTimeInt is None:
         CalcTimeInt = OutputInt/4
-- 
2.43.0


From 51fff6d90545c4e7b4b8fbb1dce053d6ba5ef445 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:11:39 +0000
Subject: [PATCH 10/54] fix: no missing flows in shot-noise series with long
 rising limbs

Output intervals falling wholly inside a rising limb contained no calculated
point, so resampling produced NaN flows.
---
 hapuamod/synth.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/hapuamod/synth.py b/hapuamod/synth.py
index 39a05af..d8f377c 100644
--- a/hapuamod/synth.py
+++ b/hapuamod/synth.py
@@ -158,7 +158,8 @@ def shotNoise(StartDate, EndDate, OutputInt,
         # EventList = EventList.append(pd.Series([EventSize], index = pd.DatetimeIndex([LastEventTime])))
     
     # Resample the output timeseries and clip
-    OutputTs = OutputTs.resample(OutputInt).mean()
+    # (filling any intervals which fall entirely within a rising limb)
+    OutputTs = OutputTs.resample(OutputInt).mean().interpolate()
     OutputTs = OutputTs.loc[:EndDate]    
     
     return OutputTs
-- 
2.43.0


From 6e8e157330b8d305c4a7d9d31c7f4496a6019877 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:11:41 +0000
Subject: [PATCH 11/54] fix: cover EndTime with generated flow and sea level
 series

A run length which is not a whole number of HydrographDt/SeaLevelDt intervals
was rejected because the generated series stopped short of EndTime.
---
 hapuamod/loadmod.py | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/hapuamod/loadmod.py b/hapuamod/loadmod.py
index d7c3b66..30bde2e 100644
--- a/hapuamod/loadmod.py
+++ b/hapuamod/loadmod.py
@@ -588,8 +588,10 @@ def loadModel(ModelConfigFile):
             HydrographStart = pd.to_datetime(SNPars['HydrographStart'])
         else:
             HydrographStart = TimePars['StartTime']
-        FlowTs = synth.shotNoise(HydrographStart, TimePars['EndTime'], 
-                                 pd.Timedelta(minutes = SNPars['HydrographDt']),
+        HydrographDt = pd.Timedelta(minutes = SNPars['HydrographDt'])
+        # (extend by 1 interval so that EndTime is always covered)
+        FlowTs = synth.shotNoise(HydrographStart, TimePars['EndTime'] + HydrographDt, 
+                                 HydrographDt,
                                  pd.Timedelta(days = SNPars['MeanDaysBetweenEvents']), 
                                  SNPars['MeanEventIncrease'], 
                                  SNPars['FastDecayRate'], SNPars['FastFlowProp'], 
@@ -623,8 +625,10 @@ def loadModel(ModelConfigFile):
     if Config['BoundaryConditions']['SeaLevel'].lower() == 'harmonic':
         logging.info('Harmonic tidal boundary specified')
         HTPars = Config['BoundaryConditions']['HarmonicTideParameters']
-        SeaLevelTs = synth.harmonicTide(TimePars['StartTime'], TimePars['EndTime'], 
-                                        pd.Timedelta(minutes = HTPars['SeaLevelDt']),
+        SeaLevelDt = pd.Timedelta(minutes = HTPars['SeaLevelDt'])
+        # (extend by 1 interval so that EndTime is always covered)
+        SeaLevelTs = synth.harmonicTide(TimePars['StartTime'], TimePars['EndTime'] + SeaLevelDt, 
+                                        SeaLevelDt,
                                         HTPars['MeanSeaLevel'], HTPars['TidalRange'])
     else:
         Config['BoundaryConditions']['SeaLevel'] = \
-- 
2.43.0


From 12a34a84a59ab29abf8a40350fded9744ec1ce2e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:11:44 +0000
Subject: [PATCH 12/54] fix: apply the steady fallback when Preissmann
 iterations run out

h and V were rebound instead of being modified in place, so the caller kept the
unconverged state.
---
 hapuamod/riv.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/hapuamod/riv.py b/hapuamod/riv.py
index 1dba573..9bf76d0 100644
--- a/hapuamod/riv.py
+++ b/hapuamod/riv.py
@@ -301,7 +301,9 @@ def solveFullPreissmann(z, B, LagArea, LagLen, Closed, h, V,
         
         if ItCount >= MaxIt:
             logging.warning('Max iterations exceeded in unsteady river hydraulics - reverting to steady solution for this timestep')
-            (h, V) = solveSteady(dx, z, B, n, Q_Ts[-1], DsWl_Ts[-1], NumericalPars)
+            (h[:], V[:]) = solveSteady(dx, z, B, n, Q_Ts[-1], DsWl_Ts[-1], NumericalPars)
+            Sf = V*np.abs(V) * (n**2) / (h**(4/3))
+            A = h*B
 
 def assembleChannel(ShoreX, ShoreY, ShoreZ, 
                     OutletEndX, OutletEndWidth, OutletEndElev, 
-- 
2.43.0


From 4977f4cd5a0a976c798a08a01b73a380152b7293 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:11:46 +0000
Subject: [PATCH 13/54] fix: re-solve after perturbing a singular hydraulics
 matrix

The noise was added but the system never solved again, leaving Delta unset or
stale.
---
 hapuamod/riv.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/hapuamod/riv.py b/hapuamod/riv.py
index 9bf76d0..8c12f28 100644
--- a/hapuamod/riv.py
+++ b/hapuamod/riv.py
@@ -268,6 +268,7 @@ def solveFullPreissmann(z, B, LagArea, LagLen, Closed, h, V,
             except linalg.LinAlgError as ErrMsg:
                 logging.warning('LinAlgError %s - adding some noise to see if this fixes it...' % ErrMsg)
                 a_banded += np.random.random(a_banded.shape) * 1e-7 - 5e-8
+                Delta = linalg.solve_banded([2,2],a_banded,Err)
             
             # Update h & V
             h -= Delta[np.arange(0,2*N,2)]
-- 
2.43.0


From 902264135bf318a35704c2d24aacf67d35f7fbc1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:11:49 +0000
Subject: [PATCH 14/54] fix: count all offline lagoon storage and seepage at a
 channel end

A node at the end of the channel has only half a reach of its own, so half of
any offline lagoon area or length connected to it was ignored.
---
 hapuamod/riv.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/hapuamod/riv.py b/hapuamod/riv.py
index 8c12f28..0f6d2d7 100644
--- a/hapuamod/riv.py
+++ b/hapuamod/riv.py
@@ -135,13 +135,15 @@ def solveFullPreissmann(z, B, LagArea, LagLen, Closed, h, V,
     
     # Calculate effective width of each XS for volume change i.e. total planform area/reach length. 
     dx2 = np.zeros(z.size)
-    dx2[0] = dx[0]
+    dx2[0] = dx[0]/2
     dx2[1:-1] = (dx[:-1]+dx[1:])/2
-    dx2[-1] = dx[-1]
+    dx2[-1] = dx[-1]/2
     Be = B + LagArea/dx2
     
     # Calculate ratio of length over which seepage occurs, to length of reach, for each reach
     SeepLen = (LagLen[:-1]+LagLen[1:]) / (2*dx)
+    SeepLen[0] += LagLen[0] / (2*dx[0])
+    SeepLen[-1] += LagLen[-1] / (2*dx[-1])
     
     # Pre compute some constant values which get used a lot 
     # (to save having to calculate them in the loop)
-- 
2.43.0


From 7f28e8e0a6adf861488033758de274bc68e2bda8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:11:51 +0000
Subject: [PATCH 15/54] fix: use the sea level for the first seepage step of a
 closed lagoon

With no outlet the last cross-section is in the lagoon, so its water level is
not the previous sea level.
---
 hapuamod/riv.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hapuamod/riv.py b/hapuamod/riv.py
index 0f6d2d7..b0c7bb6 100644
--- a/hapuamod/riv.py
+++ b/hapuamod/riv.py
@@ -155,7 +155,7 @@ def solveFullPreissmann(z, B, LagArea, LagLen, Closed, h, V,
     # Pre-compute some variables required for the start of the first timestep of the loop
     A = h*B                                # area of flow at each XS [m^2]
     Sf = V*np.abs(V) * (n**2) / (h**(4/3)) # friction slope at each XS [m/m]
-    DsWl = z[-1] + h[-1]
+    DsWl = DsWl_Ts[0] if Closed else z[-1] + h[-1]
     
     # Main timestepping loop
     for StepNo in range(Q_Ts.shape[0]):
-- 
2.43.0


From 2db8adf3fc4d7d22dc16222da1322d4f9e24bd9e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:11:53 +0000
Subject: [PATCH 16/54] fix: count every offline lagoon transect exactly once

With the outlet in line with the river the right side of the lagoon was counted
as both the start and the end storage and the left side was lost, an internal
lagoon closure next to the river discarded the start storage, and otherwise the
transect in line with the upstream end of the outlet was dropped.
---
 hapuamod/riv.py | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/hapuamod/riv.py b/hapuamod/riv.py
index b0c7bb6..af6c86a 100644
--- a/hapuamod/riv.py
+++ b/hapuamod/riv.py
@@ -400,8 +400,8 @@ def assembleChannel(ShoreX, ShoreY, ShoreZ,
             OnlineLagoon = np.array([X0Ix])
             EndArea = np.nansum(LagoonWidth[ShoreX > OutletEndX[0]] * Dx)
             EndLen = np.nansum((LagoonWidth[ShoreX > OutletEndX[0]] > 0) * Dx)
-        StartArea = np.nansum(LagoonWidth[X0Ix+1:] * Dx)
-        StartLen = np.nansum((LagoonWidth[X0Ix+1:] > 0) * Dx)
+        StartArea = np.nansum(LagoonWidth[:X0Ix] * Dx)
+        StartLen = np.nansum((LagoonWidth[:X0Ix] > 0) * Dx)
     elif OutletEndX[0] > 0:
         # Outlet channel to right of river
         if Closed:
@@ -410,8 +410,8 @@ def assembleChannel(ShoreX, ShoreY, ShoreZ,
             EndLen = 0
         else:
             OnlineLagoon = np.arange(X0Ix, np.where(ShoreX < OutletEndX[0])[0][-1] + 1)
-            EndArea = np.nansum(LagoonWidth[ShoreX > OutletEndX[0]] * Dx)
-            EndLen = np.nansum((LagoonWidth[ShoreX > OutletEndX[0]] > 0) * Dx)
+            EndArea = np.nansum(LagoonWidth[ShoreX >= OutletEndX[0]] * Dx)
+            EndLen = np.nansum((LagoonWidth[ShoreX >= OutletEndX[0]] > 0) * Dx)
         StartArea = np.nansum(LagoonWidth[:X0Ix] * Dx)
         StartLen = np.nansum((LagoonWidth[:X0Ix] > 0) * Dx)
     else:
@@ -422,8 +422,8 @@ def assembleChannel(ShoreX, ShoreY, ShoreZ,
             EndLen = 0
         else:
             OnlineLagoon = np.arange(X0Ix, np.where(ShoreX > OutletEndX[0])[0][0] - 1, -1)
-            EndArea = np.nansum(LagoonWidth[ShoreX < OutletEndX[0]] * Dx)
-            EndLen = np.nansum((LagoonWidth[ShoreX < OutletEndX[0]] > 0) * Dx)
+            EndArea = np.nansum(LagoonWidth[ShoreX <= OutletEndX[0]] * Dx)
+            EndLen = np.nansum((LagoonWidth[ShoreX <= OutletEndX[0]] > 0) * Dx)
         StartArea = np.nansum(LagoonWidth[X0Ix+1:] * Dx)
         StartLen = np.nansum((LagoonWidth[X0Ix+1:] > 0) * Dx)
     
@@ -475,7 +475,7 @@ def assembleChannel(ShoreX, ShoreY, ShoreZ,
                                     np.full(2, OutletEndWidth)])
     LagArea = np.zeros(ChanElev.size)
     LagArea[RiverElev.size] = StartArea
-    LagArea[RiverElev.size + OnlineLagoon.size - 1] = EndArea
+    LagArea[RiverElev.size + OnlineLagoon.size - 1] += EndArea
     LagLen = (ChanFlag==1) * Dx
     LagLen[RiverElev.size] += StartLen
     LagLen[RiverElev.size + OnlineLagoon.size - 1] += EndLen
-- 
2.43.0


From 0b4cfa6fb609582ab01a191a74b9b4e9d22d9b08 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:11:56 +0000
Subject: [PATCH 17/54] fix: no extra reach length when a leftward outlet ends
 on a transect

Dx - (X % Dx) is Dx rather than 0 when the outlet end is level with a transect,
unlike the mirrored outlet.
---
 hapuamod/riv.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hapuamod/riv.py b/hapuamod/riv.py
index af6c86a..719b006 100644
--- a/hapuamod/riv.py
+++ b/hapuamod/riv.py
@@ -463,7 +463,7 @@ def assembleChannel(ShoreX, ShoreY, ShoreZ,
             ChanDx[-2] += OutletEndX[1] % Dx
         else:
             # Outlet from R to L
-            ChanDx[-2] += Dx - (OutletEndX[1] % Dx)
+            ChanDx[-2] += (-OutletEndX[1]) % Dx
         ChanFlag = np.concatenate([np.full(RiverElev.size, 0), 
                                    np.full(OnlineLagoon.size, 1), 
                                    np.full(OutletChanIx.size, 2), [3,4]])
-- 
2.43.0


From 8cd4d725acb041ca2d69dfc1f0c0d30501372b05 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:11:58 +0000
Subject: [PATCH 18/54] fix: clear the online outlet when the lagoon itself
 closes

assembleChannel returned Closed together with the transects of the outlet it
had just disconnected.
---
 hapuamod/riv.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/hapuamod/riv.py b/hapuamod/riv.py
index 719b006..4c4e06e 100644
--- a/hapuamod/riv.py
+++ b/hapuamod/riv.py
@@ -440,6 +440,7 @@ def assembleChannel(ShoreX, ShoreY, ShoreZ,
         if not Closed:
             logging.info('Closure occured in lagoon at X=%.0f', ShoreX[OnlineLagoon[LagCloseIx]])
             Closed = True
+            OutletChanIx = np.empty(0)
         EndArea += np.nansum(LagoonWidth[OnlineLagoon[LagCloseIx:]] * Dx)
         EndLen += np.nansum((LagoonWidth[OnlineLagoon[LagCloseIx:]] > 0) * Dx)
         OnlineLagoon = OnlineLagoon[:LagCloseIx]
-- 
2.43.0


From 6b23eeff61834b6f3c5a400d499dbce916cc81e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:13:51 +0000
Subject: [PATCH 19/54] fix: use total seconds for timesteps

Timedelta.seconds drops fractions of a second and whole days.
---
 hapuamod/core.py |  2 +-
 hapuamod/mor.py  | 28 ++++++++++++++--------------
 hapuamod/out.py  |  2 +-
 hapuamod/riv.py  |  2 +-
 4 files changed, 17 insertions(+), 17 deletions(-)

diff --git a/hapuamod/core.py b/hapuamod/core.py
index 60e70ef..8e69447 100644
--- a/hapuamod/core.py
+++ b/hapuamod/core.py
@@ -212,7 +212,7 @@ def main(ModelConfigFile, Overwrite=False):
         
         # updates to user
         if MorTime >= LogTime:
-            logging.info('Time = %s, MorDt = %.1fs', MorTime, MorDt.seconds)
+            logging.info('Time = %s, MorDt = %.1fs', MorTime, MorDt.total_seconds())
             LogTime += OutputOpts['LogInt']
             
         # plotting
diff --git a/hapuamod/mor.py b/hapuamod/mor.py
index 75ccc14..25a13a8 100644
--- a/hapuamod/mor.py
+++ b/hapuamod/mor.py
@@ -180,22 +180,22 @@ def updateMorphology(ShoreX, ShoreY, ShoreZ,
                            abs(OutletEndAggRate),
                            abs(OutletEndXMoveRate))
     
-    while MorDt.seconds > TimePars['MorDtMin'].seconds and MaxMorChangeRate * MorDt.seconds > NumericalPars['MaxMorChange']:
+    while MorDt.total_seconds() > TimePars['MorDtMin'].total_seconds() and MaxMorChangeRate * MorDt.total_seconds() > NumericalPars['MaxMorChange']:
         MorDt /= 2
-        logging.debug('Decreasing morphological timestep to %.1fs', MorDt.seconds)
+        logging.debug('Decreasing morphological timestep to %.1fs', MorDt.total_seconds())
     
-    while MorDt.seconds < TimePars['MorDtMax'].seconds and MaxMorChangeRate * MorDt.seconds < NumericalPars['MaxMorChange']/2:
+    while MorDt.total_seconds() < TimePars['MorDtMax'].total_seconds() and MaxMorChangeRate * MorDt.total_seconds() < NumericalPars['MaxMorChange']/2:
         MorDt *= 2
-        logging.debug('Increasing morphological timestep to %.1fs', MorDt.seconds)
+        logging.debug('Increasing morphological timestep to %.1fs', MorDt.total_seconds())
     
     # If morphological change is going to exceed MaxMorChange despite adaptive timestepping then:
     #  1. issue warning
     #  2. limit change (while preserving sign) to prevent model blowing up (even though this may be at the expense of mass balance)
-    if MaxMorChangeRate * MorDt.seconds > NumericalPars['MaxMorChange']:
-        assert MorDt.seconds <= TimePars['MorDtMin'].seconds
+    if MaxMorChangeRate * MorDt.total_seconds() > NumericalPars['MaxMorChange']:
+        assert MorDt.total_seconds() <= TimePars['MorDtMin'].total_seconds()
         logging.warning('Max morphological change (%.3fm) exceeds "MaxMorChange (%.3fm)" but MorDt already at minimum. Limiting change to +/- %.3fm',
-                        MaxMorChangeRate * MorDt.seconds, NumericalPars['MaxMorChange'], NumericalPars['MaxMorChange'])
-        MorChangeRateLimit = NumericalPars['MaxMorChange'] / MorDt.seconds
+                        MaxMorChangeRate * MorDt.total_seconds(), NumericalPars['MaxMorChange'], NumericalPars['MaxMorChange'])
+        MorChangeRateLimit = NumericalPars['MaxMorChange'] / MorDt.total_seconds()
         RivBedAggRate = np.minimum(np.maximum(RivBedAggRate, -MorChangeRateLimit), MorChangeRateLimit)
         ShoreYChangeRate = np.minimum(np.maximum(ShoreYChangeRate, -MorChangeRateLimit), MorChangeRateLimit)
         ShoreZChangeRate = np.minimum(np.maximum(ShoreZChangeRate, -MorChangeRateLimit), MorChangeRateLimit)
@@ -206,13 +206,13 @@ def updateMorphology(ShoreX, ShoreY, ShoreZ,
     #%% Update morphology
         
     # note that += modifies variables in place so no need to explicitly return them!
-    RiverElev[1:] += RivBedAggRate * MorDt.seconds
-    ShoreZ += ShoreZChangeRate * MorDt.seconds
-    ShoreY += ShoreYChangeRate * MorDt.seconds
+    RiverElev[1:] += RivBedAggRate * MorDt.total_seconds()
+    ShoreZ += ShoreZChangeRate * MorDt.total_seconds()
+    ShoreY += ShoreYChangeRate * MorDt.total_seconds()
     if not Closed:
-        OutletEndWidth.flat[0] += OutletEndWideningRate * MorDt.seconds
-        OutletEndElev.flat[0] += OutletEndAggRate * MorDt.seconds
-        OutletEndX[1] += OutletEndXMoveRate * MorDt.seconds
+        OutletEndWidth.flat[0] += OutletEndWideningRate * MorDt.total_seconds()
+        OutletEndElev.flat[0] += OutletEndAggRate * MorDt.total_seconds()
+        OutletEndX[1] += OutletEndXMoveRate * MorDt.total_seconds()
     
     #%% 1. Check if outlet has extended too close to the edge of the domain
     if OutletEndX[1] < ShoreX[1]:
diff --git a/hapuamod/out.py b/hapuamod/out.py
index 94d1cad..093af2b 100644
--- a/hapuamod/out.py
+++ b/hapuamod/out.py
@@ -647,6 +647,6 @@ def writeTsOut(FileName, CurrentTime, SeaLevel, RivFlow, Hs_offshore, EDir_h,
     NcFile.variables['sed_inflow'][TimeIx] = SedInflow
     NcFile.variables['outlet_end_x'][TimeIx,:] = OutletEndX
     NcFile.variables['outlet_closed'][TimeIx] = Closed
-    NcFile.variables['mordt'][TimeIx] = MorDt.seconds
+    NcFile.variables['mordt'][TimeIx] = MorDt.total_seconds()
     
     NcFile.close()
\ No newline at end of file
diff --git a/hapuamod/riv.py b/hapuamod/riv.py
index 4c4e06e..41921f5 100644
--- a/hapuamod/riv.py
+++ b/hapuamod/riv.py
@@ -125,7 +125,7 @@ def solveFullPreissmann(z, B, LagArea, LagLen, Closed, h, V,
     Beta = NumericalPars['Beta']
     Tol = NumericalPars['ErrTol']
     MaxIt = NumericalPars['MaxIt']
-    dt = dt.seconds          # timestep for hydraulics [s]
+    dt = dt.total_seconds()          # timestep for hydraulics [s]
     N = z.size               # number of cross-sections
     S_0 = (z[:-1]-z[1:])/dx  # bed slope in each reach between XS [m/m]
     
-- 
2.43.0


From 22c7201bde2d649a8f294a26e8b08f89f89e7845 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:13:53 +0000
Subject: [PATCH 20/54] fix: keep the adaptive timestep between MorDtMin and
 MorDtMax

Halving and doubling could step past the configured limits.
---
 hapuamod/mor.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/hapuamod/mor.py b/hapuamod/mor.py
index 25a13a8..c20a433 100644
--- a/hapuamod/mor.py
+++ b/hapuamod/mor.py
@@ -181,11 +181,11 @@ def updateMorphology(ShoreX, ShoreY, ShoreZ,
                            abs(OutletEndXMoveRate))
     
     while MorDt.total_seconds() > TimePars['MorDtMin'].total_seconds() and MaxMorChangeRate * MorDt.total_seconds() > NumericalPars['MaxMorChange']:
-        MorDt /= 2
+        MorDt = max(MorDt/2, TimePars['MorDtMin'])
         logging.debug('Decreasing morphological timestep to %.1fs', MorDt.total_seconds())
     
     while MorDt.total_seconds() < TimePars['MorDtMax'].total_seconds() and MaxMorChangeRate * MorDt.total_seconds() < NumericalPars['MaxMorChange']/2:
-        MorDt *= 2
+        MorDt = min(MorDt*2, TimePars['MorDtMax'])
         logging.debug('Increasing morphological timestep to %.1fs', MorDt.total_seconds())
     
     # If morphological change is going to exceed MaxMorChange despite adaptive timestepping then:
-- 
2.43.0


From 88b88d9621ba281d8f5cc6ba01a0d40f0a1ed610 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:13:55 +0000
Subject: [PATCH 21/54] fix: apply right-to-left transport at the outlet as a
 rate

The shoreline beside the outlet was moved by one second's worth of transport
rather than the timestep's, and ignored the change limit.
---
 hapuamod/mor.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/hapuamod/mor.py b/hapuamod/mor.py
index c20a433..e559c3f 100644
--- a/hapuamod/mor.py
+++ b/hapuamod/mor.py
@@ -149,8 +149,8 @@ def updateMorphology(ShoreX, ShoreY, ShoreZ,
             OutletEndXMoveRate += WidthReductionRate/2
         else:
             # Transport from R to L
-            ShoreY[OutletRbShoreIx-1,0] += (LST[OutletRbShoreIx-1] 
-                                            / (ShorefaceHeight[OutletRbShoreIx-1] * Dx))
+            ShoreYChangeRate[OutletRbShoreIx-1,0] += (LST[OutletRbShoreIx-1] 
+                                                      / (ShorefaceHeight[OutletRbShoreIx-1] * Dx))
             WidthReductionRate = (-LST[OutletRbShoreIx-1]
                                   / ((PhysicalPars['BeachTopElev'] - OutletEndElev) * PhysicalPars['SpitWidth']))
             OutletEndWideningRate -= WidthReductionRate
-- 
2.43.0


From f16965eb77900e72b7fb3f6207f235d42080a412 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:13:57 +0000
Subject: [PATCH 22/54] fix: stop an outlet at the right edge of the domain
 where it is

The check on the right edge moved the outlet end to the left edge.
---
 hapuamod/mor.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/hapuamod/mor.py b/hapuamod/mor.py
index e559c3f..5d94482 100644
--- a/hapuamod/mor.py
+++ b/hapuamod/mor.py
@@ -219,8 +219,8 @@ def updateMorphology(ShoreX, ShoreY, ShoreZ,
         logging.warning('Left (negative X) end of outlet channel too close to edge of domain - preventing further migration')
         OutletEndX[1] = ShoreX[1]
     if OutletEndX[1] > ShoreX[-2]:
-        logging.warning('Right (negative X) end of outlet channel too close to edge of domain - preventing further migration')
-        OutletEndX[1] = ShoreX[1]
+        logging.warning('Right (positive X) end of outlet channel too close to edge of domain - preventing further migration')
+        OutletEndX[1] = ShoreX[-2]
     
     #%% 2. Check if shoreline has eroded into cliff anywhere
     CliffCollision = ShoreY[:,0] <= ShoreY[:,4]
-- 
2.43.0


From 6d7736832f3d1c74dd41d5c9b9fdfadb90321acf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:13:59 +0000
Subject: [PATCH 23/54] fix: do not overwrite barrier crests when checking for
 overtopping

CrestHeight was a view of ShoreZ, so the seaward crest of every transect with a
channel was raised to the higher of its two crests each step.
---
 hapuamod/mor.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hapuamod/mor.py b/hapuamod/mor.py
index 5d94482..6f9cd0f 100644
--- a/hapuamod/mor.py
+++ b/hapuamod/mor.py
@@ -598,7 +598,7 @@ def updateMorphology(ShoreX, ShoreY, ShoreZ,
     #%% Check for overtopping breach 
     
     # Find the barrier height which has to be overtopped to cause a breach:
-    CrestHeight = ShoreZ[:,0] # default
+    CrestHeight = ShoreZ[:,0].copy() # default
     CrestHeight[OutletPresent] = np.amax(ShoreZ[OutletPresent,:][:,[0,2]], axis=1) # transects with active or relic channels (could be diconnected)
     CrestHeight[ConnectedChan] = ShoreZ[ConnectedChan,0] # transects with connected channels (active or relic)
     assert not np.any(np.isnan(CrestHeight)), 'NaN value(s) in CrestHeight at X = %s' % ShoreX[np.isnan(CrestHeight)]
-- 
2.43.0


From d2b6766afef5aa120bbceb648a7e83839e5efca8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:14:01 +0000
Subject: [PATCH 24/54] fix: initialise masked comparisons for channel
 intersections

np.greater with where= leaves the remaining elements uninitialised, so transects
without a channel were treated as intersections at random.
---
 hapuamod/mor.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/hapuamod/mor.py b/hapuamod/mor.py
index 6f9cd0f..bda9fdd 100644
--- a/hapuamod/mor.py
+++ b/hapuamod/mor.py
@@ -446,7 +446,8 @@ def updateMorphology(ShoreX, ShoreY, ShoreZ,
     #
     # Remove old outlet channel and preserve sediment mass balance
     
-    LagoonIntersect = ~np.greater(ShoreY[:,2], ShoreY[:,3], where=~np.isnan(ShoreY[:,1]))
+    LagoonIntersect = ~np.greater(ShoreY[:,2], ShoreY[:,3], where=~np.isnan(ShoreY[:,1]), 
+                                  out=np.full(ShoreX.shape, True))
     if np.any(LagoonIntersect):
         for IntersectIx in np.where(LagoonIntersect)[0]:
             logging.info('Outlet intersects lagoon at X = %.1fm - adding channel width into lagoon' % 
@@ -516,7 +517,8 @@ def updateMorphology(ShoreX, ShoreY, ShoreZ,
     Breach = False
     BreachIx = np.nan
     
-    ShoreIntersect = ~np.greater(ShoreY[:,0], ShoreY[:,1], where=~np.isnan(ShoreY[:,1]))
+    ShoreIntersect = ~np.greater(ShoreY[:,0], ShoreY[:,1], where=~np.isnan(ShoreY[:,1]), 
+                                 out=np.full(ShoreX.shape, True))
     if np.any(ShoreIntersect):
         # If lagoon closed then check if channel at any eroded location(s) is connected to lagoon via relic channel
         if Closed and np.any(ShoreIntersect[ConnectedChan]):
-- 
2.43.0


From a1c5aebe72854b2b3420bd468bdae46fc2e7b7d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:14:03 +0000
Subject: [PATCH 25/54] fix: conserve sediment when a channel merges into the
 lagoon

The merged lagoon ignored the overlap between channel and lagoon, kept an inner
barrier crest without a channel, and was still flagged as having an outlet.
---
 hapuamod/mor.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/hapuamod/mor.py b/hapuamod/mor.py
index bda9fdd..913353b 100644
--- a/hapuamod/mor.py
+++ b/hapuamod/mor.py
@@ -453,13 +453,16 @@ def updateMorphology(ShoreX, ShoreY, ShoreZ,
             logging.info('Outlet intersects lagoon at X = %.1fm - adding channel width into lagoon' % 
                          ShoreX[IntersectIx])
         ShoreZ[LagoonIntersect, 3] = (((ShoreY[LagoonIntersect, 1] - ShoreY[LagoonIntersect, 2]) * ShoreZ[LagoonIntersect, 1] 
+                                      + (ShoreY[LagoonIntersect, 2] - ShoreY[LagoonIntersect, 3]) * ShoreZ[LagoonIntersect, 2]
                                       + (ShoreY[LagoonIntersect, 3] - ShoreY[LagoonIntersect, 4]) * ShoreZ[LagoonIntersect, 3]) 
                                       / (ShoreY[LagoonIntersect, 1] - ShoreY[LagoonIntersect, 4]))
-        ShoreY[LagoonIntersect, 3] += (ShoreY[LagoonIntersect, 1] - ShoreY[LagoonIntersect, 2]) 
+        ShoreY[LagoonIntersect, 3] = ShoreY[LagoonIntersect, 1]
         # Remove outlet channel from transect now it has been dissolved into lagoon
         ShoreY[LagoonIntersect, 1] = np.nan
         ShoreY[LagoonIntersect, 2] = np.nan
         ShoreZ[LagoonIntersect, 1] = np.nan
+        ShoreZ[LagoonIntersect, 2] = np.nan
+        OutletPresent[LagoonIntersect] = False
     
     #%% ID locations where existing or relic outlet channel is connected to lagoon
     # Also update WaterLevel variable to include outlet channel water level 
-- 
2.43.0


From cf320193084f421280778d7e833cef35018750d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:14:05 +0000
Subject: [PATCH 26/54] fix: apply the closer-to-river rule to overtopping of
 an open lagoon

The filter only ran when there was nothing to filter, so spilling further from
the river than the existing outlet replaced it.
---
 hapuamod/mor.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hapuamod/mor.py b/hapuamod/mor.py
index 913353b..01eba63 100644
--- a/hapuamod/mor.py
+++ b/hapuamod/mor.py
@@ -632,7 +632,7 @@ def updateMorphology(ShoreX, ShoreY, ShoreZ,
                 PossBreachTsects.append(TsectIx)
         PossBreachTsects = np.array(PossBreachTsects)
         
-        if PossBreachTsects.size == 0 and not Closed:
+        if PossBreachTsects.size > 0 and not Closed:
             # If lagoon open then assume overtopping can only cause breach if it 
             # is closer to where river enters lagoon than existing outlet
             CloserToRiv = np.abs(ShoreX) < np.min(np.abs(OutletEndX))
-- 
2.43.0


From 1cf21173d28a64b737a1bc5becbaf8ca8828ac83 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:14:06 +0000
Subject: [PATCH 27/54] fix: truncate the lagoon end of the outlet at its last
 collision

Only the first of several colliding transects was removed, leaving channel that
had merged with the lagoon in the online outlet.
---
 hapuamod/mor.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/hapuamod/mor.py b/hapuamod/mor.py
index 01eba63..11449cb 100644
--- a/hapuamod/mor.py
+++ b/hapuamod/mor.py
@@ -356,10 +356,10 @@ def updateMorphology(ShoreX, ShoreY, ShoreZ,
             # Move the ustream end of the outlet channel
             if OutletEndX[0] < OutletEndX[1]:
                 # Outlet angles from L to R
-                OutletEndX[0] = ShoreX[TruncationIx[0] + 1]
+                OutletEndX[0] = ShoreX[TruncationIx[-1] + 1]
             else:
                 # Outlet angles from R to L
-                OutletEndX[0] = ShoreX[TruncationIx[0] - 1]
+                OutletEndX[0] = ShoreX[TruncationIx[-1] - 1]
             
             # Recompute OutletChanIx
             if OutletEndX[0] < OutletEndX[1]:
@@ -374,19 +374,19 @@ def updateMorphology(ShoreX, ShoreY, ShoreZ,
             
             # Check if truncation is a collision between outlet channel and cliff
             # i.e. where there is no lagoon. If so then extend lagoon.
-            if ShoreY[TruncationIx[0], 2] <= ShoreY[TruncationIx[0], 4]:    
-                if ShoreX[TruncationIx[0]] > 0:
+            if ShoreY[TruncationIx[-1], 2] <= ShoreY[TruncationIx[-1], 4]:    
+                if ShoreX[TruncationIx[-1]] > 0:
                     # Extend right end of lagoon
                     logging.info('Extending R end of lagoon via outletchannel to cliffline collision.')
                     Extend = True
                     CurLagEndIx = np.where(ShoreY[:,3] > ShoreY[:,4])[0][-1]
-                    LagExtension = np.arange(CurLagEndIx + 1, TruncationIx[0] + 1)
+                    LagExtension = np.arange(CurLagEndIx + 1, TruncationIx[-1] + 1)
                 else:
                     # Extend left end of lagoon
                     logging.info('Extending L end of lagoon via outletchannel to cliffline collision.')
                     Extend = True
                     CurLagEndIx = np.where(ShoreY[:,3] > ShoreY[:,4])[0][0]
-                    LagExtension = np.arange(TruncationIx[0], CurLagEndIx)
+                    LagExtension = np.arange(TruncationIx[-1], CurLagEndIx)
             else:
                 Extend = False
             
-- 
2.43.0


From 6a7f70aa8d65878fd23eae947be55515a76fc02b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:14:09 +0000
Subject: [PATCH 28/54] fix: truncate a leftward outlet at its first collision
 with the sea

TruncationIx is ordered from the lagoon for both directions, so the leftward
outlet was cut at the collision furthest from the lagoon.
---
 hapuamod/mor.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hapuamod/mor.py b/hapuamod/mor.py
index 11449cb..cf33d85 100644
--- a/hapuamod/mor.py
+++ b/hapuamod/mor.py
@@ -415,7 +415,7 @@ def updateMorphology(ShoreX, ShoreY, ShoreZ,
                                                        ShoreX <= OutletEndX[1]))[0]
             else:
                 # Outlet angles from R to L
-                OutletEndX[1] = ShoreX[TruncationIx[-1]] + Dx/2 
+                OutletEndX[1] = ShoreX[TruncationIx[0]] + Dx/2 
                 OutletChanIx = np.flipud(np.where(np.logical_and(OutletEndX[1] <= ShoreX,
                                                                  ShoreX <= OutletEndX[0]))[0])
     
-- 
2.43.0


From cc86f88a5561532c83e1d59091e63389c98574a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:15:05 +0000
Subject: [PATCH 29/54] fix: reopen a connected relic channel when the sea
 erodes into it

The test for a breach on existing channel looked for the transect number in a
boolean mask, so the relic channel was filled in and a new lagoon breach cut
instead of reopening it at the eroded transect.
---
 hapuamod/mor.py | 16 ++++++++++++++--
 1 file changed, 14 insertions(+), 2 deletions(-)

diff --git a/hapuamod/mor.py b/hapuamod/mor.py
index cf33d85..1be7d6c 100644
--- a/hapuamod/mor.py
+++ b/hapuamod/mor.py
@@ -531,7 +531,7 @@ def updateMorphology(ShoreX, ShoreY, ShoreZ,
             PossBreachTsects = np.where(np.logical_and(ShoreIntersect, ConnectedChan))[0]
             ChanLength = np.abs(ShoreX[PossBreachTsects] - OutletEndX[0])
             BreachIx = PossBreachTsects[np.argmin(ChanLength)]
-            ShoreIntersect = ShoreIntersect[ShoreIntersect!=BreachIx]
+            ShoreIntersect[BreachIx] = False
     
         # Adjust ShoreY where outlet banks intersects coast or lagoon    
         for IntersectIx in np.where(ShoreIntersect)[0]:
@@ -545,6 +545,7 @@ def updateMorphology(ShoreX, ShoreY, ShoreZ,
         ShoreY[ShoreIntersect, 2] = np.nan
         ShoreZ[ShoreIntersect, 1] = np.nan
         OutletPresent[ShoreIntersect] = False
+        ConnectedChan[ShoreIntersect] = False
         # Remove inner barrier now there's no outlet in the transect
         ShoreZ[ShoreIntersect, 0] = ShoreZ[ShoreIntersect, 2]
         ShoreZ[ShoreIntersect, 2] = np.nan
@@ -656,11 +657,22 @@ def updateMorphology(ShoreX, ShoreY, ShoreZ,
     
     #%% Create breach if one has been triggered
     if Breach:
-        if BreachIx in ConnectedChan:
+        if ConnectedChan[BreachIx] and OutletPresent[BreachIx]:
             # Outlet truncation breach
             logging.info('Breach on pre-existing outlet channel at X = %.1fm' % ShoreX[BreachIx])
             OutletEndX[1] = ShoreX[BreachIx]
             # TODO: close sediment balance by putting breach eroded sed onto shore
+            
+            # A relic channel may have closed at its downstream end so make sure the breach is open
+            OutletEndWidth.flat[0] = max(OutletEndWidth, 2*PhysicalPars['MinOutletWidth'])
+            
+            # Keep the channel landward of the shoreline (as per online outlets)
+            if ShoreY[BreachIx,1] >= ShoreY[BreachIx,0]:
+                ShoreShiftDist = 0.001 + (ShoreY[BreachIx,1] - ShoreY[BreachIx,0])
+                ShoreY[BreachIx,1] -= ShoreShiftDist
+                ShoreY[BreachIx,2] -= (ShoreShiftDist * 
+                                       (ShoreZ[BreachIx,0] - ShoreZ[BreachIx,1]) /
+                                       (ShoreZ[BreachIx,2] - ShoreZ[BreachIx,1]))
         else:
             # Lagoon breach (i.e. new outlet channel)
             logging.info('Breach/creation of new outlet channel at X = %.1fm' % ShoreX[BreachIx])
-- 
2.43.0


From d4199e0619b3f25ffa300ee98972b5bb180f4743 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:15:24 +0000
Subject: [PATCH 30/54] fix: no longshore transport from waves heading offshore

LocalWavePower was zeroed for these segments but never used.
---
 hapuamod/coast.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hapuamod/coast.py b/hapuamod/coast.py
index 2da6eab..ec72221 100644
--- a/hapuamod/coast.py
+++ b/hapuamod/coast.py
@@ -75,7 +75,7 @@ def longShoreTransport(ShoreY, Dx, WavePower, WavePeriod, Wlen_h, EDir_h, Physic
     # sin(alpha_b)/sin(alpha_h) = C_b/C_h
     BreakerAngle = np.arcsin(np.sin(LocalEDir_h) * (C_b / C_h))
     
-    LST = - PhysicalPars['K2coef'] * WavePower * np.cos(LocalEDir_h) * np.sin(BreakerAngle)
+    LST = - PhysicalPars['K2coef'] * LocalWavePower * np.cos(LocalEDir_h) * np.sin(BreakerAngle)
     
     return LST
 
-- 
2.43.0


From 97516c89df16cbe21498863b58c3d034f1c2922a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:16:39 +0000
Subject: [PATCH 31/54] fix: write the outlet end bedload output

outlet_end_bedload was created and passed to writeCurrent but never written.
---
 hapuamod/out.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/hapuamod/out.py b/hapuamod/out.py
index 093af2b..bce9705 100644
--- a/hapuamod/out.py
+++ b/hapuamod/out.py
@@ -403,6 +403,7 @@ def writeCurrent(FileName, CurrentTime, SeaLevel, RivFlow, Hs_offshore, EDir_h,
     NcFile.variables['outlet_end_z'][TimeIx] = OutletEndElev
     NcFile.variables['outlet_end_wl'][TimeIx] = OutletEndElev + OutletEndDep[0]
     NcFile.variables['outlet_end_vel'][TimeIx] = OutletEndVel[0]
+    NcFile.variables['outlet_end_bedload'][TimeIx] = np.ravel(OutletEndBedload)[0]
     NcFile.variables['dummy_xs_dep'][TimeIx] = OutletEndDep[1]
     NcFile.variables['dummy_xs_vel'][TimeIx] = OutletEndVel[1]
     NcFile.variables['outlet_closed'][TimeIx] = Closed
-- 
2.43.0


From 76eca9d24e491aa3dccecb9fedb7a8a217222505 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:16:42 +0000
Subject: [PATCH 32/54] fix: return the stored wave direction from readTimestep

The value read from file was replaced by zero. Also label it in the units it is
written in.
---
 hapuamod/out.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/hapuamod/out.py b/hapuamod/out.py
index bce9705..81fae60 100644
--- a/hapuamod/out.py
+++ b/hapuamod/out.py
@@ -138,7 +138,7 @@ def newOutFile(FileName, ModelName, StartTime,
     
     WaveDirVar = NcFile.createVariable('wave_dir', np.float32, 
                                        (TimeDim.name,))
-    WaveDirVar.units = 'degrees'
+    WaveDirVar.units = 'radians'
     WaveDirVar.long_name = 'Direction of wave energy at model input point (depth=WaveDataDepth)'
     
     #%% create shore-transect data variables
@@ -474,7 +474,6 @@ def readTimestep(NcFile, TimeIx):
     Closed = bool(NcFile.variables['outlet_closed'][TimeIx])
     
     WavePower=None
-    EDir_h=0
     LST = NcFile.variables['lst'][TimeIx,:] / 3600
     CST = NcFile.variables['cst'][TimeIx,:] / 3600
     
@@ -575,7 +574,7 @@ def newTsOutFile(FileName, ModelName, StartTime, Overwrite=False):
     # wave direction boundary condition
     WaveDirVar = NcFile.createVariable('wave_dir', np.float32, 
                                        (TimeDim.name,))
-    WaveDirVar.units = 'degrees'
+    WaveDirVar.units = 'radians'
     WaveDirVar.long_name = 'Direction of wave energy at model input point (depth=WaveDataDepth)'
     
     #%% create other timeseries variables
-- 
2.43.0


From 745f580109a1998d10b963d63d39ba3d80fe813a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:16:44 +0000
Subject: [PATCH 33/54] fix: find the hotstart time in results files with
 current netCDF4

num2date returns cftime objects by default, which pandas cannot convert, and two
equally close times selected both. Return a single index.
---
 hapuamod/out.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/hapuamod/out.py b/hapuamod/out.py
index 81fae60..67865c1 100644
--- a/hapuamod/out.py
+++ b/hapuamod/out.py
@@ -506,11 +506,12 @@ def closestTimeIx(NcFile, DatetimeOfInterest):
         TimeIx = closestTimeIx(NcFile, DatetimeOfInterest)
     """
     NetCdfTimes = NcFile.variables['time'][:]
-    OutputTimes = pd.to_datetime(netCDF4.num2date(NetCdfTimes, NcFile.variables['time'].units))
+    OutputTimes = pd.to_datetime(netCDF4.num2date(NetCdfTimes, NcFile.variables['time'].units,
+                                                  only_use_cftime_datetimes=False))
     
     TimeDiffs = abs(OutputTimes - DatetimeOfInterest)
-    TimeIx = np.where(TimeDiffs==min(TimeDiffs))[0]
-    ClosestTime = OutputTimes[TimeIx].to_pydatetime()[0]
+    TimeIx = np.argmin(TimeDiffs)
+    ClosestTime = OutputTimes[TimeIx].to_pydatetime()
     
     return (TimeIx, ClosestTime)
 
-- 
2.43.0


From d5f833f22ba08570bc64032f2d28f12295de17d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:16:46 +0000
Subject: [PATCH 34/54] fix: hotstart with double precision arrays

Variables read from the (single precision) results file were used directly, so
small morphological changes were rounded away and Dx values which are not
exactly representable could not be hotstarted. Also release the file.
---
 hapuamod/loadmod.py | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/hapuamod/loadmod.py b/hapuamod/loadmod.py
index 30bde2e..4c0c441 100644
--- a/hapuamod/loadmod.py
+++ b/hapuamod/loadmod.py
@@ -319,7 +319,17 @@ def loadModel(ModelConfigFile):
         
         Origin = np.array([NcFile.ModelOriginX, NcFile.ModelOriginY])
         ShoreNormDir = np.deg2rad(NcFile.ModelOrientation)
-        assert ShoreX[1] - ShoreX[0] == Dx, 'Dx specified in model config file must match hotstart file'
+        NcFile.close()
+        
+        # Results files are single precision (and masked) so convert before use
+        (ShoreX, LagoonWL, LagoonVel, OutletWL, OutletVel, 
+         OutletEndX, OutletEndWidth, OutletEndElev, OutletEndVel, OutletEndWL, 
+         DummyXsDep, DummyXsVel, RiverElev, RiverWL, RiverVel) = \
+            [np.array(HotStartVar, dtype=np.float64) for HotStartVar in 
+             (ShoreX, LagoonWL, LagoonVel, OutletWL, OutletVel, 
+              OutletEndX, OutletEndWidth, OutletEndElev, OutletEndVel, OutletEndWL, 
+              DummyXsDep, DummyXsVel, RiverElev, RiverWL, RiverVel)]
+        assert np.isclose(ShoreX[1] - ShoreX[0], Dx), 'Dx specified in model config file must match hotstart file'
         
     elif Config['SpatialInputs']['Shoreline'] is None:
         #%% Initialise model with default straight shoreline etc
-- 
2.43.0


From dae696fb565dc0cebc59de91eb236df053be4b65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:18:31 +0000
Subject: [PATCH 35/54] fix: cliff hatching right edge uses the Y coordinate

---
 hapuamod/visualise.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hapuamod/visualise.py b/hapuamod/visualise.py
index 49ea3e8..c1462fe 100644
--- a/hapuamod/visualise.py
+++ b/hapuamod/visualise.py
@@ -223,7 +223,7 @@ def updateModelView(ModelFig, ShoreX, ShoreY, OutletEndX, OutletEndWidth,
                              np.flipud(RiverLbY),   # River LB
                              -5000.0, CliffToLY[0], # LH Edge of domain
                              np.nan,                # Break to separate L and R polygons
-                             CliffToRX[-1],-5000.0, # RH Edge of domain
+                             CliffToRY[-1],-5000.0, # RH Edge of domain
                              RiverRbY,              # River RB
                              CliffToRY])            # Cliff RHS
     
-- 
2.43.0


From 1386bdd4b080a4b48bb3342c8780ef6b5445affd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:18:31 +0000
Subject: [PATCH 36/54] fix: right bank outline update no longer overwrites the
 left bank

---
 hapuamod/visualise.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hapuamod/visualise.py b/hapuamod/visualise.py
index c1462fe..eac63b4 100644
--- a/hapuamod/visualise.py
+++ b/hapuamod/visualise.py
@@ -344,7 +344,7 @@ def updateModelView(ModelFig, ShoreX, ShoreY, OutletEndX, OutletEndWidth,
                                    np.NaN, # Extra point
                                    np.interp(OutletDsRbX, ShoreX, ShoreY[:,0])])
             OutletRbY[-2] = (OutletRbY[-1]-SpitWidth + OutletRbY[-3])/2
-            OutletLbY[-3] = np.min(OutletRbY[[-1,-3]])
+            OutletRbY[-3] = np.min(OutletRbY[[-1,-3]])
         else:
             # Outlet right bank angles R to L
             R_Ok = ShoreX[OutletChanIx] > OutletDsRbX
-- 
2.43.0


From 6110c6b2473ce430be4bcda16bebbea709229d81 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:27:34 +0000
Subject: [PATCH 37/54] fix: no artificial velocity floor in the unsteady
 solver

Zero velocities were replaced by 0.1 mm/s to avoid dividing by zero, so water leaked
out of closed lagoons and still water did not stay still. Differentiate the friction
term without dividing by velocity instead.
---
 hapuamod/riv.py | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/hapuamod/riv.py b/hapuamod/riv.py
index 41921f5..e3cec80 100644
--- a/hapuamod/riv.py
+++ b/hapuamod/riv.py
@@ -131,7 +131,6 @@ def solveFullPreissmann(z, B, LagArea, LagLen, Closed, h, V,
     
     # Prevent unexpected errors
     h[h<=0] = 0.0001 # Prevent negative depths
-    V[V==0] = 0.0001 # Prevent zero velocities
     
     # Calculate effective width of each XS for volume change i.e. total planform area/reach length. 
     dx2 = np.zeros(z.size)
@@ -245,7 +244,7 @@ def solveFullPreissmann(z, B, LagArea, LagLen, Closed, h, V,
             # d/dV[0]
             a_banded[3,np.arange(1,2*(N)-2,2)] = (A[:-1] 
                                                   - 4*Beta*dtdx*Theta*V[:-1]*A[:-1] 
-                                                  + 2*g_dt_Theta*A[:-1]*Sf[:-1]/V[:-1])
+                                                  + 2*g_dt_Theta*A[:-1]*np.abs(V[:-1])*(n**2)/(h[:-1]**(4/3)))
             # d/dh[1]
             a_banded[2,np.arange(2,2*(N),2)]   = (V[1:]*B[1:] 
                                                   + 2*Beta*dtdx*Theta*abs(V[1:])*V[1:]*B[1:]
@@ -254,7 +253,7 @@ def solveFullPreissmann(z, B, LagArea, LagLen, Closed, h, V,
             # d/dV[1]
             a_banded[1,np.arange(3,2*(N),2)]   = (A[1:] 
                                                   + 4*Beta*dtdx*Theta*V[1:]*A[1:] 
-                                                  + 2*g_dt_Theta*A[1:]*Sf[1:]/V[1:])
+                                                  + 2*g_dt_Theta*A[1:]*np.abs(V[1:])*(n**2)/(h[1:]**(4/3)))
             
             # Ds Bdy condition derivatives
             if Closed:
@@ -278,7 +277,6 @@ def solveFullPreissmann(z, B, LagArea, LagLen, Closed, h, V,
             
             # Prevent unexpected errors
             h[h<=0] = 0.0001 # Prevent negative depths
-            V[V==0] = 0.0001 # Prevent zero velocities
             
             # Update Sf and A
             Sf = V*np.abs(V) * (n**2) / (h**(4/3))
-- 
2.43.0


From 5230c3a6a475271bb1bb5e4925a762e6910ebe64 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:32:27 +0000
Subject: [PATCH 38/54] fix: find the subcritical steady profile below a sharp
 drop

---
 hapuamod/riv.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/hapuamod/riv.py b/hapuamod/riv.py
index e3cec80..1db81b2 100644
--- a/hapuamod/riv.py
+++ b/hapuamod/riv.py
@@ -46,6 +46,7 @@ def solveSteady(ChanDx, ChanElev, ChanWidth, Roughness, Qin, DsWL,
         
         # initial estimate
         ChanDep[XS] = (ChanDep[XS+1] + ChanElev[XS+1]) - ChanElev[XS] + S_f[XS+1]*ChanDx[XS] 
+        ChanDep[XS] = np.maximum(ChanDep[XS], CritDep[XS])
         
         # iterate solution for h
         Acoef = Beta * (Qin**2 / (2*Grav*ChanWidth[XS]**2))
@@ -54,14 +55,16 @@ def solveSteady(ChanDx, ChanElev, ChanWidth, Roughness, Qin, DsWL,
         DepErr = ChanDep[XS] + Acoef*ChanDep[XS]**(-2) - Bcoef*ChanDep[XS]**(-10/3) + Cconst
         CheckCount = 0
         while np.abs(DepErr) > Tol:
+            if DepErr > 0 and ChanDep[XS] <= CritDep[XS]:
+                break # no subcritical solution
             Gradient = 1 - 2*Acoef*ChanDep[XS]**(-3) + (10/3)*Bcoef*ChanDep[XS]**(-13/3)
-            ChanDep[XS] -= DepErr / Gradient
+            ChanDep[XS] = np.maximum(ChanDep[XS] - DepErr / Gradient, CritDep[XS])
             DepErr = ChanDep[XS] + Acoef*ChanDep[XS]**(-2) - Bcoef*ChanDep[XS]**(-10/3) + Cconst
             CheckCount += 1
             assert CheckCount < MaxIt, 'Maximum iterations exceeded solving steady state water level'
         
         # Check for supercritical
-        if ChanDep[XS] < CritDep[XS]:
+        if ChanDep[XS] <= CritDep[XS]:
             ChanDep[XS] = CritDep[XS]
             logging.warning('Steady state solution results in critical depth at XS%i' % XS)
         ChanVel[XS] = Qin / (ChanWidth[XS] * ChanDep[XS])
-- 
2.43.0


From bddce4c002c8b231f642fab6599efd4ca9348143 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:47:01 +0000
Subject: [PATCH 39/54] fix: conserve sediment when an eroded barrier is
 restored

---
 hapuamod/mor.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/hapuamod/mor.py b/hapuamod/mor.py
index 1be7d6c..a56622c 100644
--- a/hapuamod/mor.py
+++ b/hapuamod/mor.py
@@ -596,10 +596,11 @@ def updateMorphology(ShoreX, ShoreY, ShoreZ,
         # Adjust any transects which are not breaching (in a mass conservative way) to restore barrier
         if NotBreachIx.size > 0:
             OverlapDist = 0.001 + (ShoreY[NotBreachIx,3] - ShoreY[NotBreachIx,0])
-            ShoreShiftDist = OverlapDist / (1 + ((ShorefaceHeight[NotBreachIx]) / 
-                                                 (ShoreZ[NotBreachIx, 0] - ShoreZ[NotBreachIx, 3])))
-            ShoreY[NotBreachIx,0] += ShoreShiftDist
-            ShoreY[NotBreachIx,3] -= (OverlapDist - ShoreShiftDist)
+            # the barrier rolls landward: sediment to rebuild it comes from the shoreface
+            ShoreShiftDist = OverlapDist * ((ShoreZ[NotBreachIx, 0] - ShoreZ[NotBreachIx, 3]) /
+                                            (ShoreZ[NotBreachIx, 3] + PhysicalPars['ClosureDepth']))
+            ShoreY[NotBreachIx,0] -= ShoreShiftDist
+            ShoreY[NotBreachIx,3] -= (OverlapDist + ShoreShiftDist)
     
     #%% Check for overtopping breach 
     
-- 
2.43.0


From 9fe85b9459f8364f0cef98ed311d27cb7812a839 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:22:16 +0000
Subject: [PATCH 40/54] fix: keep overwash from pushing the lagoon edge past
 the cliff

---
 hapuamod/mor.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/hapuamod/mor.py b/hapuamod/mor.py
index a56622c..1f69c78 100644
--- a/hapuamod/mor.py
+++ b/hapuamod/mor.py
@@ -280,6 +280,14 @@ def updateMorphology(ShoreX, ShoreY, ShoreZ,
             # Update OutletPresent variable to reflect removed section of channel
             OutletPresent = ~np.isnan(ShoreY[:,1])
     
+    # Likewise check if overwash has more than filled the lagoon (anywhere without a channel in the barrier)
+    LagoonFilled = np.logical_and(~OutletPresent, ShoreY[:,3] < ShoreY[:,4])
+    if np.any(LagoonFilled):
+        logging.info('Overwash has filled lagoon at X = %s - redistributing overwash onto barrier top', ShoreX[LagoonFilled])
+        VolToMove = (ShoreY[LagoonFilled,4] - ShoreY[LagoonFilled,3]) * BackBarHeight[LagoonFilled]
+        ShoreY[LagoonFilled,3] = ShoreY[LagoonFilled,4]
+        ShoreZ[LagoonFilled,0] += VolToMove / (ShoreY[LagoonFilled,0] - ShoreY[LagoonFilled,3])
+    
     #%% 4. Check if d/s end of outlet channel has elongated across a transect line and adjust as necessary...
     if not Closed:
         if OutletEndX[0] < OutletEndX[1]:
-- 
2.43.0


From f0eaafa1efb8e632dcd47105464aba785d94a2c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:22:16 +0000
Subject: [PATCH 41/54] fix: keep a reopened outlet channel seaward of the
 lagoon

---
 hapuamod/mor.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/hapuamod/mor.py b/hapuamod/mor.py
index 1f69c78..c044f08 100644
--- a/hapuamod/mor.py
+++ b/hapuamod/mor.py
@@ -682,6 +682,10 @@ def updateMorphology(ShoreX, ShoreY, ShoreZ,
                 ShoreY[BreachIx,2] -= (ShoreShiftDist * 
                                        (ShoreZ[BreachIx,0] - ShoreZ[BreachIx,1]) /
                                        (ShoreZ[BreachIx,2] - ShoreZ[BreachIx,1]))
+                
+                # ...and seaward of the lagoon and cliff (as per new outlets)
+                ShoreY[BreachIx,3] = min(ShoreY[BreachIx,3], ShoreY[BreachIx,2] - 0.001)
+                ShoreY[BreachIx,4] = min(ShoreY[BreachIx,4], ShoreY[BreachIx,3])
         else:
             # Lagoon breach (i.e. new outlet channel)
             logging.info('Breach/creation of new outlet channel at X = %.1fm' % ShoreX[BreachIx])
-- 
2.43.0


From 29230e5f474b84ffd798badd38d5d5f584e37acb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:28:20 +0000
Subject: [PATCH 42/54] fix: keep an outlet channel pushed into the cliff from
 closing past zero width

---
 hapuamod/mor.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/hapuamod/mor.py b/hapuamod/mor.py
index c044f08..28c8138 100644
--- a/hapuamod/mor.py
+++ b/hapuamod/mor.py
@@ -445,6 +445,8 @@ def updateMorphology(ShoreX, ShoreY, ShoreZ,
                 CliffRetDist = (CliffOverlapDist / 
                                 (1 + ((PhysicalPars['BackshoreElev'] - ShoreZ[OutletChanIx[-1],2]) / 
                                       (ShoreZ[OutletChanIx[-1],2] - ShoreZ[OutletChanIx[-1],1]))))
+                # (but no more than the outlet channel can hold)
+                CliffRetDist = max(CliffRetDist, CliffOverlapDist - (ShoreY[OutletChanIx[-1],1] - ShoreY[OutletChanIx[-1],2]))
                 ShoreY[OutletChanIx[-1], 4] -= CliffRetDist
                 ShoreY[OutletChanIx[-1], [2,3]] += (CliffOverlapDist - CliffRetDist)
     
-- 
2.43.0


From e0629d860778a6ee681fc23083864d2f627c4ee5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:41:00 +0000
Subject: [PATCH 43/54] fix: record the outlet as open once it has breached

---
 hapuamod/core.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/hapuamod/core.py b/hapuamod/core.py
index 8e69447..28e87dc 100644
--- a/hapuamod/core.py
+++ b/hapuamod/core.py
@@ -200,14 +200,15 @@ def main(ModelConfigFile, Overwrite=False):
                              LST, CST_tot, OverwashProp,
                              RiverElev, ChanDep[ChanFlag==0], ChanVel[ChanFlag==0], Bedload[ChanFlag[:-1]==0],
                              OutletEndX, OutletEndElev, OutletEndWidth, 
-                             OutletEndDep, OutletEndVel, OutletEndBedload, Closed)
+                             OutletEndDep, OutletEndVel, OutletEndBedload, 
+                             Closed and not Breach)
             OutTime += OutputOpts['OutInt']
         
         if MorTime >= TsOutTime:
             out.writeTsOut(OutputOpts['TsOutFile'], MorTime, 
                            SeaLevel[-1], RivFlow[-1], Hs_offshore, EDir_h, 
                            np.nanmean(LagoonWL), ChanDep[-1]*ChanVel[-1]*ChanWidth[-1], 
-                           Bedload[0], OutletEndX, Closed, MorDt)
+                           Bedload[0], OutletEndX, Closed and not Breach, MorDt)
             TsOutTime += OutputOpts['TsOutInt']
         
         # updates to user
-- 
2.43.0


From 15e09be73e4d98234e8d4fe9b96c160502894c68 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:08:33 +0000
Subject: [PATCH 44/54] fix: superpose hydrograph rising limbs when more than
 two events overlap

---
 hapuamod/synth.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/hapuamod/synth.py b/hapuamod/synth.py
index d8f377c..69bac56 100644
--- a/hapuamod/synth.py
+++ b/hapuamod/synth.py
@@ -122,15 +122,15 @@ def shotNoise(StartDate, EndDate, OutputInt,
           
             # Insert new (interpolated) time into output TS at start of new events rising limb
             OutputTs = OutputTs.append(pd.Series(np.interp(pd.DatetimeIndex([LastEventTime + GapLength - RisingLimbTime]).values.astype(float), 
-                                                           OutputTs.index[-2:].values.astype(float), 
-                                                           OutputTs[-2:]),
+                                                           OutputTs.index.values.astype(float), 
+                                                           OutputTs),
                                                  index = pd.DatetimeIndex([LastEventTime + GapLength - RisingLimbTime])))
             OutputTs.sort_index(inplace=True)
             
-            # Increase the flow at the last time in the output TS (as its part way through the rising limb of the next event)
-            OutputTs[-1] += np.interp(OutputTs.index[-1:].values.astype(float), 
-                                      pd.DatetimeIndex([LastEventTime + GapLength - RisingLimbTime, LastEventTime + GapLength]).values.astype(float), 
-                                      [0, EventSize])
+            # Increase the flow at all the times in the output TS which are part way through the rising limb of the next event
+            OutputTs += np.interp(OutputTs.index.values.astype(float), 
+                                  pd.DatetimeIndex([LastEventTime + GapLength - RisingLimbTime, LastEventTime + GapLength]).values.astype(float), 
+                                  [0, EventSize])
             
             # Add a new data point at the peak of the new event
             TimeList = pd.DatetimeIndex([LastEventTime + GapLength])
-- 
2.43.0


From a964bf593ecf4806f11b7413c4de01a9a28610e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:12:30 +0000
Subject: [PATCH 45/54] fix: draw the initial model view of a closed outlet

---
 hapuamod/animate.py   | 3 ++-
 hapuamod/core.py      | 3 ++-
 hapuamod/visualise.py | 9 ++++++---
 3 files changed, 10 insertions(+), 5 deletions(-)

diff --git a/hapuamod/animate.py b/hapuamod/animate.py
index 14c784c..4123aa4 100644
--- a/hapuamod/animate.py
+++ b/hapuamod/animate.py
@@ -193,7 +193,8 @@ def main(ResultsFile, AnimationFile, StartTimestep=0, EndTimestep=None,
                                        OutletChanIx, RiverWidth, SpitWidth,
                                        ShoreZ=None, WavePower=None, EDir_h=0, LST=None, CST=None, 
                                        WaveScaling=0.01, CstScaling=0.00005, LstScaling=0.0001,
-                                       QuiverWidth=0.002, AreaOfInterest=AreaOfInterest)
+                                       QuiverWidth=0.002, AreaOfInterest=AreaOfInterest,
+                                       Closed=Closed)
         FigToAnimate = ModelFig['PlanFig']
         
         # Set up animation function
diff --git a/hapuamod/core.py b/hapuamod/core.py
index 28e87dc..1f925fa 100644
--- a/hapuamod/core.py
+++ b/hapuamod/core.py
@@ -94,7 +94,8 @@ def main(ModelConfigFile, Overwrite=False):
                                        PhysicalPars['SpitWidth'], ShoreZ=ShoreZ, 
                                        WavePower=0, EDir_h=0, 
                                        LST=np.zeros(ShoreX.size-1),
-                                       CST=np.zeros(ShoreX.size))
+                                       CST=np.zeros(ShoreX.size),
+                                       Closed=Closed)
         
     #%% Main timestepping loop
     MorTime = TimePars['StartTime']
diff --git a/hapuamod/visualise.py b/hapuamod/visualise.py
index eac63b4..232fac5 100644
--- a/hapuamod/visualise.py
+++ b/hapuamod/visualise.py
@@ -67,7 +67,7 @@ def modelView(ShoreX, ShoreY, OutletEndX, OutletEndWidth, OutletChanIx,
               RiverWidth, SpitWidth,
               ShoreZ=None, WavePower=None, EDir_h=0, LST=None, CST=None, 
               WaveScaling=0.01, CstScaling=0.00005, LstScaling=0.0001,
-              QuiverWidth=0.002, AreaOfInterest=None, PlotTime=None):
+              QuiverWidth=0.002, AreaOfInterest=None, PlotTime=None, Closed=False):
     """ Map the current model state in model coordinates
     
         Parameters:
@@ -87,6 +87,8 @@ def modelView(ShoreX, ShoreY, OutletEndX, OutletEndWidth, OutletChanIx,
             LstScaling (optional, default = 0.0001)
             QuiverWidth (optional, default = 0.002)
             AreaOfInterest (optional)
+            PlotTime (optional)
+            Closed (optional, default = False)
             
         Returns:
             ModelFig (dict): handles for the various parts of the plot. Used as
@@ -174,8 +176,9 @@ def modelView(ShoreX, ShoreY, OutletEndX, OutletEndWidth, OutletChanIx,
     
     # Update plot with correct data
     updateModelView(ModelFig, ShoreX, ShoreY, OutletEndX, OutletEndWidth, 
-                    OutletChanIx, ShoreZ=ShoreZ, WavePower=WavePower, 
-                    EDir_h=EDir_h, LST=LST, CST=CST, PlotTime=PlotTime)
+                    OutletChanIx, Closed=Closed, ShoreZ=ShoreZ, 
+                    WavePower=WavePower, EDir_h=EDir_h, LST=LST, CST=CST, 
+                    PlotTime=PlotTime)
     
     return ModelFig
 
-- 
2.43.0


From 72a72a77f6ae0c8643c82317515feaf888486c32 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:12:30 +0000
Subject: [PATCH 46/54] fix: pass sequences to the plot lines when the outlet
 is closed

---
 hapuamod/visualise.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/hapuamod/visualise.py b/hapuamod/visualise.py
index 232fac5..c828eda 100644
--- a/hapuamod/visualise.py
+++ b/hapuamod/visualise.py
@@ -244,14 +244,14 @@ def updateModelView(ModelFig, ShoreX, ShoreY, OutletEndX, OutletEndWidth,
     
     if Closed:
         # Outlet plotting position
-        OutletX = np.nan
-        OutletY = np.nan
+        OutletX = np.full(1, np.nan)
+        OutletY = np.full(1, np.nan)
         
         # Shoreline
         ShoreLineX = ShoreX
         ShoreLineY = ShoreY[:,0]
-        ShoreDotsX = np.nan
-        ShoreDotsY = np.nan
+        ShoreDotsX = np.full(1, np.nan)
+        ShoreDotsY = np.full(1, np.nan)
         
         # BarrierBackshore
         LagoonLineX = ShoreX
-- 
2.43.0


From 5fcd4d9adab07d917415aafb061bc15799eba2c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:53:59 +0000
Subject: [PATCH 47/54] fix: draw the recorded water level seaward of the
 outlet in long section animations

---
 hapuamod/animate.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/hapuamod/animate.py b/hapuamod/animate.py
index 4123aa4..9ce1d2b 100644
--- a/hapuamod/animate.py
+++ b/hapuamod/animate.py
@@ -3,6 +3,7 @@
 """
 
 # Import standard packages
+import numpy as np
 import netCDF4
 import logging
 import argparse
@@ -64,7 +65,8 @@ def animateLongSec(TimeIx, NcFile, LongSecFig, PhysicalPars):
     
     Dx = ShoreX[1] - ShoreX[0]
     OutletDep = OutletWL - ShoreZ[:,1]
-    OutletEndDep = OutletEndWL - OutletEndElev
+    OutletEndDep = np.array([OutletEndWL - OutletEndElev, DummyXsDep])
+    OutletEndVel = np.array([OutletEndVel, DummyXsVel])
     RiverDep = RiverWL - RiverElev
     
     (ChanDx, ChanElev, ChanWidth, LagArea, LagLen, ChanDep, ChanVel, 
@@ -158,7 +160,8 @@ def main(ResultsFile, AnimationFile, StartTimestep=0, EndTimestep=None,
         
         # Set up initial figure
         OutletDep = OutletWL - ShoreZ[:,1]
-        OutletEndDep = OutletEndWL - OutletEndElev
+        OutletEndDep = np.array([OutletEndWL - OutletEndElev, DummyXsDep])
+        OutletEndVel = np.array([OutletEndVel, DummyXsVel])
         RiverDep = RiverWL - RiverElev
         Dx = ShoreX[1] - ShoreX[0]
         PhysicalPars = {'RiverWidth': NcFile.RiverWidth,
-- 
2.43.0


From 3d392d037d6a89910580ae939bd2cd6deb61477f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:53:59 +0000
Subject: [PATCH 48/54] fix: shoal waves to deep water with the group speed
 ratio the right way up

---
 preprocessing/WaveDataFromSwanOutput.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/preprocessing/WaveDataFromSwanOutput.py b/preprocessing/WaveDataFromSwanOutput.py
index 2e8b7f7..9ec233a 100644
--- a/preprocessing/WaveDataFromSwanOutput.py
+++ b/preprocessing/WaveDataFromSwanOutput.py
@@ -50,7 +50,7 @@ WaveData['Angle_Offshore'] = np.arcsin(np.maximum(np.minimum(WaveData['LoffRatio
                                                              np.sin(WaveData['Angle_h']), 
                                                              1.0), -1.0)) # min and max is to prevent tiny irregularities generating complex numbers due to calculation of asin(>1) or asin(<-1)
 OutputData['Hsig_Offshore'] = (WaveData['Hsig'] / 
-                               np.sqrt(0.5 * WaveData['n_h'] * WaveData['LoffRatio'] * 
+                               np.sqrt(0.5 / WaveData['n_h'] * WaveData['LoffRatio'] * 
                                        (np.cos(WaveData['Angle_Offshore']) / 
                                         np.cos(WaveData['Angle_h']))))
 
-- 
2.43.0


From bf4cbc04d442c77ac16652baf1ccd293d658078a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:53:59 +0000
Subject: [PATCH 49/54] fix: keep the minutes of wave model output times

---
 preprocessing/WaveDataFromSwanOutput.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/preprocessing/WaveDataFromSwanOutput.py b/preprocessing/WaveDataFromSwanOutput.py
index 9ec233a..ef673ca 100644
--- a/preprocessing/WaveDataFromSwanOutput.py
+++ b/preprocessing/WaveDataFromSwanOutput.py
@@ -12,7 +12,7 @@ ColNames = ['ModelTime', 'Year', 'Month', 'Day', 'Hour', 'Min',
 
 WaveData = pd.read_table(WaveModelOutputFile, sep=' ', skipinitialspace=True,
                          skiprows=27, names=ColNames)
-WaveData['DateTime'] = pd.to_datetime(WaveData.iloc[:,1:5])
+WaveData['DateTime'] = pd.to_datetime(WaveData.iloc[:,1:6].rename(columns={'Min':'Minute'}))
 WaveData = WaveData.set_index('DateTime')
 
 # Extract the columns we want
-- 
2.43.0


From bf4d30d7e6b047b4df05d01aebf3372f5984dc92 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:39:53 +0000
Subject: [PATCH 50/54] fix: cliff retreats where a restored barrier would roll
 landward of it

---
 hapuamod/mor.py | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/hapuamod/mor.py b/hapuamod/mor.py
index 28c8138..ed78205 100644
--- a/hapuamod/mor.py
+++ b/hapuamod/mor.py
@@ -611,6 +611,15 @@ def updateMorphology(ShoreX, ShoreY, ShoreZ,
                                             (ShoreZ[NotBreachIx, 3] + PhysicalPars['ClosureDepth']))
             ShoreY[NotBreachIx,0] -= ShoreShiftDist
             ShoreY[NotBreachIx,3] -= (OverlapDist + ShoreShiftDist)
+            
+            # where the lagoon is too narrow for the barrier to roll into, the cliff retreats
+            CliffIx = NotBreachIx[ShoreY[NotBreachIx,3] < ShoreY[NotBreachIx,4]]
+            CliffOverlapDist = ShoreY[CliffIx,4] - ShoreY[CliffIx,3]
+            CliffRetDist = CliffOverlapDist * ((ShoreZ[CliffIx,3] + PhysicalPars['ClosureDepth']) /
+                                               (PhysicalPars['BackshoreElev'] + PhysicalPars['ClosureDepth']))
+            ShoreY[CliffIx,4] -= CliffRetDist
+            ShoreY[CliffIx,3] = ShoreY[CliffIx,4]
+            ShoreY[CliffIx,0] += CliffOverlapDist - CliffRetDist
     
     #%% Check for overtopping breach 
     
-- 
2.43.0


From 51a495952b4f3582eac8c90b1a13dcb83a848cde Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:39:53 +0000
Subject: [PATCH 51/54] fix: count the eroded part of the outer barrier when
 the sea reaches a disconnected channel

---
 hapuamod/mor.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/hapuamod/mor.py b/hapuamod/mor.py
index ed78205..84bb3c7 100644
--- a/hapuamod/mor.py
+++ b/hapuamod/mor.py
@@ -547,8 +547,10 @@ def updateMorphology(ShoreX, ShoreY, ShoreZ,
         for IntersectIx in np.where(ShoreIntersect)[0]:
             logging.info('Outlet intersects shoreline at X = %.1fm - filling outlet with sediment from shoreface' % 
                          ShoreX[IntersectIx])
-        ShoreY[ShoreIntersect, 0] -= ((ShoreY[ShoreIntersect, 1] - ShoreY[ShoreIntersect, 2]) 
-                                      * (ShoreZ[ShoreIntersect, 2] - ShoreZ[ShoreIntersect, 1]) 
+        ShoreY[ShoreIntersect, 0] -= (((ShoreY[ShoreIntersect, 1] - ShoreY[ShoreIntersect, 2]) 
+                                       * (ShoreZ[ShoreIntersect, 2] - ShoreZ[ShoreIntersect, 1]) 
+                                       + (ShoreY[ShoreIntersect, 1] - ShoreY[ShoreIntersect, 0])
+                                       * (ShoreZ[ShoreIntersect, 0] - ShoreZ[ShoreIntersect, 2]))
                                       / (ShoreZ[ShoreIntersect, 2] + PhysicalPars['ClosureDepth']))
         # Remove outlet channel from transect now it has been dissolved into shoreline
         ShoreY[ShoreIntersect, 1] = np.nan
-- 
2.43.0


From 0ba4336da8066c283cb0c7dfa2e94745839760ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:45:34 +0000
Subject: [PATCH 52/54] fix: longshore transport of waves too steep to be
 refracted to their breaking depth

---
 hapuamod/coast.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/hapuamod/coast.py b/hapuamod/coast.py
index ec72221..c9f163c 100644
--- a/hapuamod/coast.py
+++ b/hapuamod/coast.py
@@ -73,7 +73,8 @@ def longShoreTransport(ShoreY, Dx, WavePower, WavePeriod, Wlen_h, EDir_h, Physic
     C_h = ((PhysicalPars['Gravity'] * WavePeriod / (2.0 * np.pi)) * 
            np.tanh(2.0 * np.pi * PhysicalPars['WaveDataDepth'] / Wlen_h))
     # sin(alpha_b)/sin(alpha_h) = C_b/C_h
-    BreakerAngle = np.arcsin(np.sin(LocalEDir_h) * (C_b / C_h))
+    # (limited to +/- 90 deg as waves which would break seaward of WaveDataDepth can't be refracted to it)
+    BreakerAngle = np.arcsin(np.clip(np.sin(LocalEDir_h) * (C_b / C_h), -1, 1))
     
     LST = - PhysicalPars['K2coef'] * LocalWavePower * np.cos(LocalEDir_h) * np.sin(BreakerAngle)
     
-- 
2.43.0


From 5a28211e7c07487320a955015eb266299b8dce1d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:07:10 +0000
Subject: [PATCH 53/54] fix: configuration path of the run script only worked
 on Windows

---
 RunHapuaMod.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/RunHapuaMod.py b/RunHapuaMod.py
index 2d6b730..118ff00 100644
--- a/RunHapuaMod.py
+++ b/RunHapuaMod.py
@@ -2,8 +2,8 @@ import logging
 import os
 from hapuamod.core import main
 
-#ModelConfigFile = 'inputs\HurunuiModel.cnf'
-ModelConfigFile = 'inputs\SimplifiedSynthetic.cnf'
+#ModelConfigFile = 'inputs/HurunuiModel.cnf'
+ModelConfigFile = 'inputs/SimplifiedSynthetic.cnf'
 
 RootLogger = logging.getLogger()
 RootLogger.setLevel(logging.DEBUG)
-- 
2.43.0


From d70a3832b723f278c4f9fbedfaab5a0a5dad5618 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:49:38 +0000
Subject: [PATCH 54/54] fix: lagoon end truncation could leave an outlet
 without a channel

---
 hapuamod/mor.py | 32 +++++++++++++++++++++-----------
 1 file changed, 21 insertions(+), 11 deletions(-)

diff --git a/hapuamod/mor.py b/hapuamod/mor.py
index 84bb3c7..125e76b 100644
--- a/hapuamod/mor.py
+++ b/hapuamod/mor.py
@@ -339,17 +339,27 @@ def updateMorphology(ShoreX, ShoreY, ShoreZ,
     # 5. First check for collision between outlet channel and sea in upstream most transect of online outlet
     # Truncation is not possible here so we adjust the outlet channel position to prevent it...
     if not Closed:
-        if ShoreY[OutletChanIx[0],1] >= ShoreY[OutletChanIx[0],0]:
-            logging.info('Preventing seaward truncation at X = %.1fm as it would result in a length 0 outlet channel' % 
-                         ShoreX[OutletChanIx[0]])
-            ShoreShiftDist = 0.001 + (ShoreY[OutletChanIx[0],1] - ShoreY[OutletChanIx[0],0])
-            ShoreY[OutletChanIx[0],1] -= ShoreShiftDist
-            ShoreY[OutletChanIx[0],2] -= (ShoreShiftDist * 
-                                          (ShoreZ[OutletChanIx[0],0] - ShoreZ[OutletChanIx[0],1]) /
-                                          (ShoreZ[OutletChanIx[0],2] - ShoreZ[OutletChanIx[0],1]))
-            # Note: this may have caused a new conflict between hte lagoonward 
-            #       edge of the outlet channel and the lagoon or cliff, but 
-            #       this will be delt with later.
+        UsPos = 0
+        while True:
+            UsTsect = OutletChanIx[UsPos]
+            if ShoreY[UsTsect,1] >= ShoreY[UsTsect,0]:
+                logging.info('Preventing seaward truncation at X = %.1fm as it would result in a length 0 outlet channel' % 
+                             ShoreX[UsTsect])
+                ShoreShiftDist = 0.001 + (ShoreY[UsTsect,1] - ShoreY[UsTsect,0])
+                ShoreY[UsTsect,1] -= ShoreShiftDist
+                ShoreY[UsTsect,2] -= (ShoreShiftDist * 
+                                      (ShoreZ[UsTsect,0] - ShoreZ[UsTsect,1]) /
+                                      (ShoreZ[UsTsect,2] - ShoreZ[UsTsect,1]))
+                # Note: this may have caused a new conflict between hte lagoonward 
+                #       edge of the outlet channel and the lagoon or cliff, but 
+                #       this will be delt with later.
+            
+            # Truncation of the lagoonward end (6. below) makes a transect further 
+            # downstream the upstream most one, so it needs the same check
+            TruncationPos = np.where(ShoreY[OutletChanIx[UsPos:-1],2] <= ShoreY[OutletChanIx[UsPos:-1],3])[0]
+            if TruncationPos.size == 0:
+                break
+            UsPos += TruncationPos[-1] + 1
     
     # 6. Check for collision between outlet channel and lagoon causing truncation 
     # of lagoonward end of outlet channel 
-- 
2.43.0

