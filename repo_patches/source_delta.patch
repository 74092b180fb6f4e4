From e00184bb343c7783800652e77e8c72a5b42a8b69 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:37:18 +0000
Subject: [PATCH 01/74] fix: extend() of the component containers looped over
 an undefined name

---
 trunk/SUAVE/Core/Container.py        | 2 +-
 trunk/SUAVE/Core/ContainerOrdered.py | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/trunk/SUAVE/Core/Container.py b/trunk/SUAVE/Core/Container.py
index b15b2ef..0e1d40d 100644
--- a/trunk/SUAVE/Core/Container.py
+++ b/trunk/SUAVE/Core/Container.py
@@ -134,7 +134,7 @@ class Container(Data):
             N/A
         """         
         if isinstance(vals,(list,tuple)):
-            for v in val: self.append(v)
+            for v in vals: self.append(v)
         elif isinstance(vals,dict):
             self.update(vals)
         else:
diff --git a/trunk/SUAVE/Core/ContainerOrdered.py b/trunk/SUAVE/Core/ContainerOrdered.py
index 706c4f6..12b3a6e 100644
--- a/trunk/SUAVE/Core/ContainerOrdered.py
+++ b/trunk/SUAVE/Core/ContainerOrdered.py
@@ -110,7 +110,7 @@ class ContainerOrdered(DataOrdered):
             N/A
             """          
         if isinstance(vals,(list,tuple)):
-            for v in val: self.append(v)
+            for v in vals: self.append(v)
         elif isinstance(vals,dict):
             self.update(vals)
         else:
-- 
2.43.0


From 0182505cfad4ad31fd773324251eb802f43fe38c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:37:26 +0000
Subject: [PATCH 02/74] fix: Container.append keeps every component, without
 random or clashing tags

---
 trunk/SUAVE/Core/Container.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/trunk/SUAVE/Core/Container.py b/trunk/SUAVE/Core/Container.py
index 0e1d40d..9e8f693 100644
--- a/trunk/SUAVE/Core/Container.py
+++ b/trunk/SUAVE/Core/Container.py
@@ -109,9 +109,10 @@ class Container(Data):
             n_comps = string_of_keys.count(val.tag)
             val.tag = tag + str(n_comps+1)
             
-            # Check again, because theres an outside chance that its duplicate again. Then assign a random
-            if val.tag in keys:
-                val.tag = tag + str(n_comps+random.randint(0,1000))
+            # Check again, because theres an outside chance that its duplicate again. Then count up until it is not
+            while val.tag in keys:
+                n_comps += 1
+                val.tag = tag + str(n_comps+1)
         
         Data.append(self,val)
         
-- 
2.43.0


From f68b4edd8c92028b445f181dffe2d66359e79afd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:37:26 +0000
Subject: [PATCH 03/74] fix: DataOrdered supports membership tests, so append
 refuses an existing key instead of overwriting it

---
 trunk/SUAVE/Core/DataOrdered.py | 20 ++++++++++++++++++++
 1 file changed, 20 insertions(+)

diff --git a/trunk/SUAVE/Core/DataOrdered.py b/trunk/SUAVE/Core/DataOrdered.py
index 92705bb..7195c69 100644
--- a/trunk/SUAVE/Core/DataOrdered.py
+++ b/trunk/SUAVE/Core/DataOrdered.py
@@ -832,6 +832,26 @@ class DataOrdered(OrderedDict):
         """             
         return k in self.__dict__
 
+    def __contains__(self,k):
+        """ Checks if the dictionary has the key, k
+            
+            Assumptions:
+            Entries are stored in the object's __dict__, not in the underlying dict
+    
+            Source:
+            N/A
+    
+            Inputs:
+            k
+    
+            Outputs:
+            N/A
+    
+            Properties Used:
+            N/A    
+        """             
+        return k in self.__dict__
+
     # allow override of iterators
     __iter = __iter__
     __getitem2 = OrderedDict.__getattribute__ 
-- 
2.43.0


From eb4f31c9a6fe1633f45fce3060dde0538a60d85d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:52:00 +0000
Subject: [PATCH 04/74] fix: multiplying by a unit object no longer turns that
 object into its base unit

---
 trunk/SUAVE/Core/Units.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/trunk/SUAVE/Core/Units.py b/trunk/SUAVE/Core/Units.py
index 20d29d6..c51b8e5 100644
--- a/trunk/SUAVE/Core/Units.py
+++ b/trunk/SUAVE/Core/Units.py
@@ -46,9 +46,13 @@ def __rmul__(self,other):
     if isinstance(other,_Quantity):
         return _Quantity.__rmul__(self,other)
     else:
+        units = self._units
         self._magnitude = other
         self.ito_base_units()
-        return self.magnitude
+        magnitude = self.magnitude
+        # keep the unit itself, so that it can be used again
+        self._units = units
+        return magnitude
 
 # division converts out of base unit
 ## @ingroup Core
-- 
2.43.0


From da79976ae7161e770e1338024457acbfa3e7f6a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:52:00 +0000
Subject: [PATCH 05/74] fix: dividing by a compound unit that contains a
 temperature converts instead of raising

---
 trunk/SUAVE/Core/Units.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/trunk/SUAVE/Core/Units.py b/trunk/SUAVE/Core/Units.py
index c51b8e5..4c32b40 100644
--- a/trunk/SUAVE/Core/Units.py
+++ b/trunk/SUAVE/Core/Units.py
@@ -77,7 +77,7 @@ def __rdiv__(self,other):
     if isinstance(other,_Quantity):
         return _Quantity.__truediv__(self,other)
     else:
-        units = str(self._units)
+        units = self._units
         self.ito_base_units()
         self._magnitude = other
         self.ito(units)
-- 
2.43.0


From 5d99675f30f2a9a8ca3e7eb460d44dba2517ad05 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:53:55 +0000
Subject: [PATCH 06/74] fix: archive stores numpy scalars, tuples and lists of
 numpy values instead of dropping them or failing

---
 trunk/SUAVE/Input_Output/SUAVE/archive.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/trunk/SUAVE/Input_Output/SUAVE/archive.py b/trunk/SUAVE/Input_Output/SUAVE/archive.py
index bd4cfb3..af89f13 100644
--- a/trunk/SUAVE/Input_Output/SUAVE/archive.py
+++ b/trunk/SUAVE/Input_Output/SUAVE/archive.py
@@ -105,7 +105,7 @@ def build_dict_r(v):
     tv = type(v) # Get value type
     
     # Transform to basic python data type as appropriate
-    if (tv == np.ndarray) or (tv == np.float64):
+    if isinstance(v,(np.ndarray,np.generic)):
         ret = v.tolist()
     elif (tv == str) or (tv == bool):
         ret = v
@@ -115,8 +115,8 @@ def build_dict_r(v):
         ret = v
     elif tv == types.FunctionType: # Functions cannot be stored
         ret = None        
-    elif tv == list:
-        ret = v    
+    elif (tv == list) or (tv == tuple):
+        ret = [build_dict_r(vi) for vi in v]
 
     else:
         # Assume other data types are SUAVE data types and check
-- 
2.43.0


From 1c805db748fe625d078bf0c005a8d85328880c64 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:53:55 +0000
Subject: [PATCH 07/74] fix: Tree_Element.append appends the element it is
 given

---
 trunk/SUAVE/Input_Output/D3JS/Tree_Element.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/trunk/SUAVE/Input_Output/D3JS/Tree_Element.py b/trunk/SUAVE/Input_Output/D3JS/Tree_Element.py
index af6f8f5..a409331 100644
--- a/trunk/SUAVE/Input_Output/D3JS/Tree_Element.py
+++ b/trunk/SUAVE/Input_Output/D3JS/Tree_Element.py
@@ -64,4 +64,4 @@ class Tree_Element(DataOrdered):
         """           
         if not 'children' in self:
             self.children = []
-        self.children.append(e)
\ No newline at end of file
+        self.children.append(element)
\ No newline at end of file
-- 
2.43.0


From 258bde4cd4ff8305a7e151c8ffbdeabd588057a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:03:33 +0000
Subject: [PATCH 08/74] fix: starting a segment no longer overwrites the last
 position of the previous segment

---
 trunk/SUAVE/Methods/Missions/Segments/Common/Frames.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/trunk/SUAVE/Methods/Missions/Segments/Common/Frames.py b/trunk/SUAVE/Methods/Missions/Segments/Common/Frames.py
index 774c420..d18aa0d 100644
--- a/trunk/SUAVE/Methods/Missions/Segments/Common/Frames.py
+++ b/trunk/SUAVE/Methods/Missions/Segments/Common/Frames.py
@@ -43,7 +43,7 @@ def initialize_inertial_position(segment):
     """    
     
     if segment.state.initials:
-        r_initial = segment.state.initials.conditions.frames.inertial.position_vector
+        r_initial = segment.state.initials.conditions.frames.inertial.position_vector[-1:,:].copy() # leave the previous segment as it is
         r_current = segment.state.conditions.frames.inertial.position_vector
         R_initial = segment.state.initials.conditions.frames.inertial.aircraft_range
         R_current = segment.state.conditions.frames.inertial.aircraft_range
-- 
2.43.0


From 3319c28f871fd21e54b60f6c42682df3a852c44b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:03:33 +0000
Subject: [PATCH 09/74] fix: longitude rate uses the cosine of the latitude, in
 radians and including the starting latitude

---
 trunk/SUAVE/Methods/Missions/Segments/Common/Frames.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/trunk/SUAVE/Methods/Missions/Segments/Common/Frames.py b/trunk/SUAVE/Methods/Missions/Segments/Common/Frames.py
index d18aa0d..169892e 100644
--- a/trunk/SUAVE/Methods/Missions/Segments/Common/Frames.py
+++ b/trunk/SUAVE/Methods/Missions/Segments/Common/Frames.py
@@ -200,7 +200,8 @@ def update_planet_position(segment):
     # Find the velocities and integrate the positions
     lamdadot  = (V/R)*np.cos(gamma)*np.cos(psi)
     lamda     = np.dot(I,lamdadot) / Units.deg # Latitude
-    mudot     = (V/R)*np.cos(gamma)*np.sin(psi)/np.cos(lamda)
+    lat       = conditions.frames.planet.latitude[0,0]
+    mudot     = (V/R)*np.cos(gamma)*np.sin(psi)/np.cos((lat+lamda)*Units.deg)
     mu        = np.dot(I,mudot) / Units.deg # Longitude
 
     # Reshape the size of the vectorss
@@ -209,7 +210,6 @@ def update_planet_position(segment):
     lamda     = np.reshape(lamda,shape)
 
     # Pack'r up
-    lat = conditions.frames.planet.latitude[0,0]
     lon = conditions.frames.planet.longitude[0,0]
     conditions.frames.planet.latitude  = lat + lamda
     conditions.frames.planet.longitude = lon + mu
-- 
2.43.0


From d3d3419ed48c8f476dce40d464e30dd865eeed80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:03:53 +0000
Subject: [PATCH 10/74] fix: pitch in the constant pitch rate segments is
 measured from the start of the segment

---
 .../Segments/Cruise/Constant_Pitch_Rate_Constant_Altitude.py  | 2 +-
 ...stant_Acceleration_Constant_Pitchrate_Constant_Altitude.py | 4 ++--
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/trunk/SUAVE/Methods/Missions/Segments/Cruise/Constant_Pitch_Rate_Constant_Altitude.py b/trunk/SUAVE/Methods/Missions/Segments/Cruise/Constant_Pitch_Rate_Constant_Altitude.py
index a8e59f9..468b408 100644
--- a/trunk/SUAVE/Methods/Missions/Segments/Cruise/Constant_Pitch_Rate_Constant_Altitude.py
+++ b/trunk/SUAVE/Methods/Missions/Segments/Cruise/Constant_Pitch_Rate_Constant_Altitude.py
@@ -67,7 +67,7 @@ def initialize_conditions(segment):
     time      = t_nondim * (t_final-t_initial) + t_initial
     
     # set the body angle
-    body_angle = theta_dot*time + T0
+    body_angle = theta_dot*(time-t_initial) + T0
     segment.state.conditions.frames.body.inertial_rotations[:,1] = body_angle[:,0]    
     
     # pack
diff --git a/trunk/SUAVE/Methods/Missions/Segments/Transition/Constant_Acceleration_Constant_Pitchrate_Constant_Altitude.py b/trunk/SUAVE/Methods/Missions/Segments/Transition/Constant_Acceleration_Constant_Pitchrate_Constant_Altitude.py
index df9d6d0..35622bf 100644
--- a/trunk/SUAVE/Methods/Missions/Segments/Transition/Constant_Acceleration_Constant_Pitchrate_Constant_Altitude.py
+++ b/trunk/SUAVE/Methods/Missions/Segments/Transition/Constant_Acceleration_Constant_Pitchrate_Constant_Altitude.py
@@ -65,9 +65,9 @@ def initialize_conditions(segment):
     
     # set the body angle
     if Tf > T0:
-        body_angle = T0 + time*(Tf-T0)/(t_final-t_initial)
+        body_angle = T0 + (time-t_initial)*(Tf-T0)/(t_final-t_initial)
     else:
-        body_angle = T0 - time*(T0-Tf)/(t_final-t_initial)
+        body_angle = T0 - (time-t_initial)*(T0-Tf)/(t_final-t_initial)
     segment.state.conditions.frames.body.inertial_rotations[:,1] = body_angle[:,0]     
     
     # pack
-- 
2.43.0


From d7b6869d930da2240d31d1a7fee2ff9f1d82ee69 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:03:53 +0000
Subject: [PATCH 11/74] fix: constant calibrated airspeed descent refers to the
 standard sea level on non-standard days, and its default speed has the name
 the segment reads

---
 .../Mission/Segments/Descent/Constant_CAS_Constant_Rate.py      | 2 +-
 .../Missions/Segments/Descent/Constant_CAS_Constant_Rate.py     | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/trunk/SUAVE/Analyses/Mission/Segments/Descent/Constant_CAS_Constant_Rate.py b/trunk/SUAVE/Analyses/Mission/Segments/Descent/Constant_CAS_Constant_Rate.py
index 160b348..6444c34 100644
--- a/trunk/SUAVE/Analyses/Mission/Segments/Descent/Constant_CAS_Constant_Rate.py
+++ b/trunk/SUAVE/Analyses/Mission/Segments/Descent/Constant_CAS_Constant_Rate.py
@@ -49,7 +49,7 @@ class Constant_CAS_Constant_Rate(Unknown_Throttle):
         self.altitude_start      = None # Optional
         self.altitude_end        = 10. * Units.km
         self.descent_rate        = 3.  * Units.m / Units.s
-        self.calibrated_airspeed = 100 * Units.m / Units.s
+        self.calibrated_air_speed = 100 * Units.m / Units.s
         self.true_course         = 0.0 * Units.degrees 
         
         # --------------------------------------------------------------
diff --git a/trunk/SUAVE/Methods/Missions/Segments/Descent/Constant_CAS_Constant_Rate.py b/trunk/SUAVE/Methods/Missions/Segments/Descent/Constant_CAS_Constant_Rate.py
index 87b2621..97463c4 100644
--- a/trunk/SUAVE/Methods/Missions/Segments/Descent/Constant_CAS_Constant_Rate.py
+++ b/trunk/SUAVE/Methods/Missions/Segments/Descent/Constant_CAS_Constant_Rate.py
@@ -66,7 +66,7 @@ def initialize_conditions(segment):
     density  = alt_data.density[:,0]  
     pressure = alt_data.pressure[:,0] 
 
-    MSL_data  = segment.analyses.atmosphere.compute_values(0.0,segment.temperature_deviation)
+    MSL_data  = segment.analyses.atmosphere.compute_values(0.0,0.0)
     pressure0 = MSL_data.pressure[0]
 
     kcas  = cas / Units.knots
-- 
2.43.0


From 165e4b2c68e2a82d7058d82ea6b63d887f0659d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:05:41 +0000
Subject: [PATCH 12/74] fix: Analysis.Container.initialize iterates over its
 analyses instead of over a bound method

---
 trunk/SUAVE/Analyses/Analysis.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/trunk/SUAVE/Analyses/Analysis.py b/trunk/SUAVE/Analyses/Analysis.py
index 7b8dc27..c2a2cea 100644
--- a/trunk/SUAVE/Analyses/Analysis.py
+++ b/trunk/SUAVE/Analyses/Analysis.py
@@ -214,7 +214,7 @@ class Container(ContainerBase):
                 Properties Used:
                 N/A
             """                    
-        for tag,analysis in self.items:
+        for tag,analysis in self.items():
             if hasattr(analysis,'initialize'):
                 analysis.initialize(*args,**kwarg)
     
-- 
2.43.0


From daae58e32f493f3f664f52eb2800736a8b05808d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:54:12 +0000
Subject: [PATCH 13/74] fix: climbs that solve for their altitude can start at
 the altitude of the previous segment

---
 trunk/SUAVE/Methods/Missions/Segments/Climb/Optimized.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/trunk/SUAVE/Methods/Missions/Segments/Climb/Optimized.py b/trunk/SUAVE/Methods/Missions/Segments/Climb/Optimized.py
index 58b9d41..c5b41a5 100644
--- a/trunk/SUAVE/Methods/Missions/Segments/Climb/Optimized.py
+++ b/trunk/SUAVE/Methods/Missions/Segments/Climb/Optimized.py
@@ -107,6 +107,11 @@ def update_differentials(segment):
     alt0       = segment.altitude_start
     altf       = segment.altitude_end    
 
+    # check for initial altitude
+    if alt0 is None:
+        if not segment.state.initials: raise AttributeError('initial altitude not set')
+        alt0 = -1.0 * segment.state.initials.conditions.frames.inertial.position_vector[-1,2]
+
     dz = altf - alt0
     vz = -v[:,2,None] # maintain column array
 
@@ -119,7 +124,7 @@ def update_differentials(segment):
     I = I * dt
     
     # Calculate the altitudes
-    alt = np.dot(I,vz) + segment.altitude_start
+    alt = np.dot(I,vz) + alt0
     
     # pack
     t_initial                                       = segment.state.conditions.frames.inertial.time[0,0]
-- 
2.43.0


From 275b77c9588a222a424bbd3c17afa223e2bf9297 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:06:15 +0000
Subject: [PATCH 14/74] fix: drag opposes and lift is normal to the velocity in
 banked or sideslipping flight (wind to inertial transformation)

---
 trunk/SUAVE/Methods/Missions/Segments/Common/Frames.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/trunk/SUAVE/Methods/Missions/Segments/Common/Frames.py b/trunk/SUAVE/Methods/Missions/Segments/Common/Frames.py
index 169892e..5fd7c38 100644
--- a/trunk/SUAVE/Methods/Missions/Segments/Common/Frames.py
+++ b/trunk/SUAVE/Methods/Missions/Segments/Common/Frames.py
@@ -299,12 +299,12 @@ def update_orientations(segment):
     wind_body_rotations = body_inertial_rotations * 0.
     wind_body_rotations[:,0] = 0          # no roll in wind frame
     wind_body_rotations[:,1] = alpha[:,0] # theta is angle of attack
-    wind_body_rotations[:,2] = beta[:,0]  # psi is side slip angle
+    wind_body_rotations[:,2] = -beta[:,0] # psi is side slip angle
 
     # wind frame tranformation matricies
     T_wind2body = angles_to_dcms(wind_body_rotations,(2,1,0))
     T_body2wind = orientation_transpose(T_wind2body)
-    T_wind2inertial = orientation_product(T_wind2body,T_body2inertial)
+    T_wind2inertial = orientation_product(T_body2inertial,T_wind2body)
 
     # pack wind rotations
     conditions.frames.wind.body_rotations = wind_body_rotations
-- 
2.43.0


From cb85f676b86983868ec8301f78a19b208e70a2d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:05:02 +0000
Subject: [PATCH 15/74] fix: control surfaces that start at a section and run
 past the next one keep their first section

---
 .../Two_Dimensional/Planform/populate_control_sections.py       | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/trunk/SUAVE/Methods/Geometry/Two_Dimensional/Planform/populate_control_sections.py b/trunk/SUAVE/Methods/Geometry/Two_Dimensional/Planform/populate_control_sections.py
index 367378d..93ed7d8 100644
--- a/trunk/SUAVE/Methods/Geometry/Two_Dimensional/Planform/populate_control_sections.py
+++ b/trunk/SUAVE/Methods/Geometry/Two_Dimensional/Planform/populate_control_sections.py
@@ -81,7 +81,7 @@ def populate_control_sections(wing):
                     append_CS = True 
                     
                 # Case 3   
-                elif (sf[0] < w_seg[i-1].percent_span_location) and (sf[1] > w_seg[i].percent_span_location):
+                elif (sf[0] <= w_seg[i-1].percent_span_location) and (sf[1] > w_seg[i].percent_span_location):
                     s_sf = np.array([w_seg[i-1].percent_span_location,w_seg[i].percent_span_location])       
                     append_CS = True                 
                 
-- 
2.43.0


From 917ab14734153d6c3e543da6dbd50b82cab98d80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:05:02 +0000
Subject: [PATCH 16/74] fix: wetted area of a symmetric segmented wing counts
 both sides

---
 .../Two_Dimensional/Planform/wing_segmented_planform.py         | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/trunk/SUAVE/Methods/Geometry/Two_Dimensional/Planform/wing_segmented_planform.py b/trunk/SUAVE/Methods/Geometry/Two_Dimensional/Planform/wing_segmented_planform.py
index 87c380c..abae28c 100644
--- a/trunk/SUAVE/Methods/Geometry/Two_Dimensional/Planform/wing_segmented_planform.py
+++ b/trunk/SUAVE/Methods/Geometry/Two_Dimensional/Planform/wing_segmented_planform.py
@@ -94,7 +94,7 @@ def wing_segmented_planform(wing, overwrite_reference = False):
     
     # Calculate the weighted area, this should not include any unexposed area 
     A_wets = 2*(1+0.2*t_cs[:-1])*As
-    wet_area = np.sum(A_wets)
+    wet_area = np.sum(A_wets)*(1+sym)
     
     # Calculate the wing area
     ref_area = np.sum(As)*(1+sym)
-- 
2.43.0


From edc83005e79130d697167d0b4278ede98ca806ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:05:02 +0000
Subject: [PATCH 17/74] fix: the default NACA 0012 section can be generated
 when no airfoil geometry is given

---
 .../Cross_Section/Airfoil/compute_airfoil_properties.py         | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/trunk/SUAVE/Methods/Geometry/Two_Dimensional/Cross_Section/Airfoil/compute_airfoil_properties.py b/trunk/SUAVE/Methods/Geometry/Two_Dimensional/Cross_Section/Airfoil/compute_airfoil_properties.py
index 64dbf39..31b3e59 100644
--- a/trunk/SUAVE/Methods/Geometry/Two_Dimensional/Cross_Section/Airfoil/compute_airfoil_properties.py
+++ b/trunk/SUAVE/Methods/Geometry/Two_Dimensional/Cross_Section/Airfoil/compute_airfoil_properties.py
@@ -286,7 +286,7 @@ def compute_boundary_layer_properties(airfoil_geometry,Airfoil_Data):
     '''
     if airfoil_geometry == None:
         print('No airfoil defined, NACA 0012 surrogates will be used') 
-        a_names                       = ['0012']                
+        a_names                       = '0012'
         airfoil_geometry              = compute_naca_4series(a_names, npoints= 100)    
     
     AoA_sweep = np.array([-4,0,2,4,8,10,14])*Units.degrees 
-- 
2.43.0


From 274c7577af9a80273215b55565bcc3605dbf22a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:05:02 +0000
Subject: [PATCH 18/74] fix: airfoil files with a header starting with a digit
 are read, coordinates are compared as numbers and closed trailing edges
 always get their gap

---
 .../Airfoil/import_airfoil_geometry.py           | 16 ++++++++++------
 1 file changed, 10 insertions(+), 6 deletions(-)

diff --git a/trunk/SUAVE/Methods/Geometry/Two_Dimensional/Cross_Section/Airfoil/import_airfoil_geometry.py b/trunk/SUAVE/Methods/Geometry/Two_Dimensional/Cross_Section/Airfoil/import_airfoil_geometry.py
index 9f05bb8..4ecd6af 100644
--- a/trunk/SUAVE/Methods/Geometry/Two_Dimensional/Cross_Section/Airfoil/import_airfoil_geometry.py
+++ b/trunk/SUAVE/Methods/Geometry/Two_Dimensional/Cross_Section/Airfoil/import_airfoil_geometry.py
@@ -57,10 +57,14 @@ def import_airfoil_geometry(airfoil_geometry_file, npoints = 200,surface_interpo
     data_block = f.readlines()
     try:
         # Check for header block
-        first_element = float(data_block[0][0])
-        if first_element == 1.:
-            lednicer_format = False
-    except:
+        first_point = [float(x) for x in data_block[0].replace(',',' ').split()]
+        has_header  = len(first_point) != 2 or abs(first_point[0]-1.) > 0.01
+    except ValueError:
+        has_header  = True
+        
+    if not has_header:
+        lednicer_format = False
+    else:
         # Check for format line and remove header block
         format_line = data_block[1]
 
@@ -141,7 +145,7 @@ def import_airfoil_geometry(airfoil_geometry_file, npoints = 200,surface_interpo
                 next_line  = data_block[line_count+1].strip()
                 next_line  = next_line.replace(',','')
             
-                if next_line.split()[0]>line_check.split()[0] and float(next_line.split()[0]) >0.:
+                if float(next_line.split()[0])>float(line_check.split()[0]) and float(next_line.split()[0]) >0.:
                     upper_surface_flag = False
                 
         # Upper surface values in Selig format are reversed from Lednicer format, so fix that
@@ -196,7 +200,7 @@ def import_airfoil_geometry(airfoil_geometry_file, npoints = 200,surface_interpo
     x_data[-1] = 1.0
     
     # make sure a small gap at trailing edge
-    if (y_data[0] == y_data[-1]): 
+    if abs(y_data[0] - y_data[-1]) < 1E-10: 
         y_data[0]          = y_data[0]  - 1E-4
         y_data[-1]         = y_data[-1] + 1E-4
         
-- 
2.43.0


From 8ee0339fc983d6feddfed0c2f830b4229dc48f9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:57:31 +0000
Subject: [PATCH 19/74] fix: lifting line takes root and tip twist at the right
 ends and sums the induced drag of its series

---
 .../Methods/Aerodynamics/Lifting_Line/Lifting_Line.py | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/trunk/SUAVE/Methods/Aerodynamics/Lifting_Line/Lifting_Line.py b/trunk/SUAVE/Methods/Aerodynamics/Lifting_Line/Lifting_Line.py
index 03ce3dd..39cb54e 100644
--- a/trunk/SUAVE/Methods/Aerodynamics/Lifting_Line/Lifting_Line.py
+++ b/trunk/SUAVE/Methods/Aerodynamics/Lifting_Line/Lifting_Line.py
@@ -66,8 +66,8 @@ def lifting_line(conditions,settings,geometry):
     AR          = wing.aspect_ratio
     MAC         = wing.chords.mean_aerodynamic
     taper       = wing.taper
-    tip_twist   = wing.twists.root
-    root_twist  = wing.twists.tip 
+    tip_twist   = wing.twists.tip
+    root_twist  = wing.twists.root 
     root_chord  = wing.chords.root
     tip_chord   = wing.chords.tip      
     r           = settings.number_of_stations # Number of divisions
@@ -150,16 +150,17 @@ def lifting_line(conditions,settings,geometry):
     CL = A[:,0]*np.pi*AR
     
     # Find the sectional coefficients of lift
-    Cl = b*np.cumsum(4*A*np.sin(n*thetan),axis=1)/c
+    sines = np.sin(n_trans*thetan)
+    Cl = 4*b*np.matmul(A,sines)/c
     
     # induced alpha
-    alpha_i = np.cumsum(n*A*np.sin(n*A)/np.sin(thetan),axis=1)
+    alpha_i = np.matmul(n*A,sines)/np.sin(thetan)
     
     # Sectional vortex drag
     Cdv = Cl*alpha_i
     
     # Total vortex drag
-    CDv = np.sum(Cdv*AR*etam,axis=1)
+    CDv = np.sum(Cdv*(c/b)*AR*etam,axis=1)
     
     #############
     # Profile drag of a 2-D section
-- 
2.43.0


From 55fd3b8ff3ea078cec7b74dc41a0f81e2ea1c2c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:57:31 +0000
Subject: [PATCH 20/74] fix: lifting line surrogates keep the lift and drag of
 each wing apart

---
 trunk/SUAVE/Analyses/Aerodynamics/Lifting_Line.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/trunk/SUAVE/Analyses/Aerodynamics/Lifting_Line.py b/trunk/SUAVE/Analyses/Aerodynamics/Lifting_Line.py
index 9db0c0a..9ebcf93 100644
--- a/trunk/SUAVE/Analyses/Aerodynamics/Lifting_Line.py
+++ b/trunk/SUAVE/Analyses/Aerodynamics/Lifting_Line.py
@@ -207,8 +207,11 @@ class Lifting_Line(Aerodynamics):
         CL  = np.zeros_like(AoA)
         CDi = np.zeros_like(AoA)
         
-        wing_CLs = Data.fromkeys(geometry.wings.keys(), np.zeros_like(AoA))
-        wing_CDis = Data.fromkeys(geometry.wings.keys(), np.zeros_like(AoA)) 
+        wing_CLs  = Data()
+        wing_CDis = Data()
+        for wing in geometry.wings.values():
+            wing_CLs[wing.tag]  = np.zeros_like(AoA)
+            wing_CDis[wing.tag] = np.zeros_like(AoA)
 
         # condition input, local, do not keep
         konditions              = Data()
@@ -281,7 +284,7 @@ class Lifting_Line(Aerodynamics):
         
         for wing in wing_CL_data.keys():
             wing_cl_surrogates[wing]  = np.poly1d(np.polyfit(X_data, wing_CL_data[wing] ,1))
-            wing_cdi_surrogates[wing] = np.poly1d(np.polyfit(X_data, wing_CL_data[wing] ,2))
+            wing_cdi_surrogates[wing] = np.poly1d(np.polyfit(X_data, wing_CDi_data[wing] ,2))
 
         self.surrogates.lift_coefficient       = cl_surrogate
         self.surrogates.drag_coefficient       = cdi_surrogate
-- 
2.43.0


From d8d26c4dc8ff2781adc2ad21c26aa087707ba75d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:57:31 +0000
Subject: [PATCH 21/74] fix: drag of an engine out uses the longitudinal arm of
 the vertical tail

---
 .../Common/Fidelity_Zero/Helper_Functions/asymmetry_drag.py   | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/trunk/SUAVE/Methods/Aerodynamics/Common/Fidelity_Zero/Helper_Functions/asymmetry_drag.py b/trunk/SUAVE/Methods/Aerodynamics/Common/Fidelity_Zero/Helper_Functions/asymmetry_drag.py
index 7521b3e..8a3c62f 100644
--- a/trunk/SUAVE/Methods/Aerodynamics/Common/Fidelity_Zero/Helper_Functions/asymmetry_drag.py
+++ b/trunk/SUAVE/Methods/Aerodynamics/Common/Fidelity_Zero/Helper_Functions/asymmetry_drag.py
@@ -74,7 +74,7 @@ def asymmetry_drag(state, geometry, windmilling_drag_coefficient = 0.):
                 break
             
     # getting cg x position
-    xcg = vehicle.mass_properties.center_of_gravity[0] 
+    xcg = vehicle.mass_properties.center_of_gravity[0][0]
     
     # getting engine y position and calculating thrust
     for idx,net in enumerate(nets):
@@ -97,7 +97,7 @@ def asymmetry_drag(state, geometry, windmilling_drag_coefficient = 0.):
 
     # getting vertical tail data (span, distance to cg)
     vertical_height = wings[vertical_idx].spans.projected
-    vertical_dist   = wings[vertical_idx].aerodynamic_center[0] + wings[vertical_idx].origin[0] - xcg
+    vertical_dist   = wings[vertical_idx].aerodynamic_center[0] + wings[vertical_idx].origin[0][0] - xcg
     
     # colculating windmilling drag
     if windmilling_drag_coefficient == 0:
-- 
2.43.0


From b71e6af274b684263b8333d219013495946fc81e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:57:31 +0000
Subject: [PATCH 22/74] fix: pylon drag averages over the nacelles it is summed
 over

---
 .../Common/Fidelity_Zero/Drag/parasite_drag_pylon.py   | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/trunk/SUAVE/Methods/Aerodynamics/Common/Fidelity_Zero/Drag/parasite_drag_pylon.py b/trunk/SUAVE/Methods/Aerodynamics/Common/Fidelity_Zero/Drag/parasite_drag_pylon.py
index 7db2212..2b22595 100644
--- a/trunk/SUAVE/Methods/Aerodynamics/Common/Fidelity_Zero/Drag/parasite_drag_pylon.py
+++ b/trunk/SUAVE/Methods/Aerodynamics/Common/Fidelity_Zero/Drag/parasite_drag_pylon.py
@@ -49,7 +49,7 @@ def parasite_drag_pylon(state,settings,geometry):
     conditions = state.conditions 
     
     pylon_factor        = 0.20 # 20% of nacelle drag
-    n_networks          =  len(geometry.networks)  # number of propulsive system in vehicle (NOT # of ENGINES)
+    n_nacelles          = max(len(geometry.nacelles),1)  # number of nacelles the factors below are averaged over
     pylon_parasite_drag = 0.00
     pylon_wetted_area   = 0.00
     pylon_cf            = 0.00
@@ -67,10 +67,10 @@ def parasite_drag_pylon(state,settings,geometry):
         pylon_rey_fact      += conditions.aerodynamics.drag_breakdown.parasite[nacelle.tag].reynolds_factor
         pylon_FF            += conditions.aerodynamics.drag_breakdown.parasite[nacelle.tag].form_factor
     
-    pylon_cf            /= n_networks           
-    pylon_compr_fact    /= n_networks   
-    pylon_rey_fact      /= n_networks     
-    pylon_FF            /= n_networks   
+    pylon_cf            /= n_nacelles           
+    pylon_compr_fact    /= n_nacelles   
+    pylon_rey_fact      /= n_nacelles     
+    pylon_FF            /= n_nacelles   
     
     # dump data to conditions
     pylon_result = Data(
-- 
2.43.0


From 666f078e2496683254f0cc1e7f75b954fa50ef89 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:57:31 +0000
Subject: [PATCH 23/74] fix: parasite drag of a wing is defined at Mach 1 and
 the exposed root chord of a symmetric wing uses its semi-span

---
 .../Common/Fidelity_Zero/Drag/parasite_drag_wing.py           | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/trunk/SUAVE/Methods/Aerodynamics/Common/Fidelity_Zero/Drag/parasite_drag_wing.py b/trunk/SUAVE/Methods/Aerodynamics/Common/Fidelity_Zero/Drag/parasite_drag_wing.py
index a607f7b..7ad3cbb 100644
--- a/trunk/SUAVE/Methods/Aerodynamics/Common/Fidelity_Zero/Drag/parasite_drag_wing.py
+++ b/trunk/SUAVE/Methods/Aerodynamics/Common/Fidelity_Zero/Drag/parasite_drag_wing.py
@@ -144,6 +144,8 @@ def parasite_drag_wing(state,settings,geometry):
         
         chord_root = wing.chords.root
         chord_tip  = wing.chords.tip
+        if wing.symmetric:
+            span_w    = span_w/2. # the chord varies over one side
         wing_root     = chord_root + exposed_root_chord_offset*((chord_tip - chord_root)/span_w)
         
         if recalculate_total_wetted_area or wing.areas.wetted==0.:  
@@ -233,7 +235,7 @@ def compute_parasite_drag(re,mac_w,Mc,Tc,xtu,xtl,sweep_w,t_c_w,Sref,Swet,C):
     cos_sweep = np.cos(sweep_w)
     cos2      = cos_sweep*cos_sweep
     
-    ind = Mc <= 1.
+    ind = Mc < 1.
     
     k_w = np.ones_like(Mc)
     k_w[ind] = 1. + ( 2.* C * (t_c_w * cos2) ) / ( np.sqrt(1.- Mc[ind]*Mc[ind] * cos2) )  \
-- 
2.43.0


From d20f73a68b50f4b3cf8dcd5435da999a039d828c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:57:31 +0000
Subject: [PATCH 24/74] fix: volume wave drag at the upper end of the transonic
 range is evaluated at that end

---
 .../Supersonic_Zero/Drag/compressibility_drag_total.py          | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/trunk/SUAVE/Methods/Aerodynamics/Supersonic_Zero/Drag/compressibility_drag_total.py b/trunk/SUAVE/Methods/Aerodynamics/Supersonic_Zero/Drag/compressibility_drag_total.py
index 7809bf5..69353d0 100644
--- a/trunk/SUAVE/Methods/Aerodynamics/Supersonic_Zero/Drag/compressibility_drag_total.py
+++ b/trunk/SUAVE/Methods/Aerodynamics/Supersonic_Zero/Drag/compressibility_drag_total.py
@@ -96,7 +96,7 @@ def compressibility_drag_total(state,settings,geometry):
     
     for wing in geometry.wings:
         low_cutoff_volume_total += drag_div(low_mach_cutoff*np.ones([1]), wing, cl[wing.tag], Sref_main)[0]
-    high_cutoff_volume_total = wave_drag_volume(geometry,low_mach_cutoff*np.ones([1]),scaling_factor)
+    high_cutoff_volume_total = wave_drag_volume(geometry,high_mach_cutoff*np.ones([1]),scaling_factor)
     
     peak_volume_total = high_cutoff_volume_total*peak_factor
     
-- 
2.43.0


From 4f69581414002e6a3c02758501d2ae0fed24c390 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:57:31 +0000
Subject: [PATCH 25/74] fix: lift wave drag stays with its Mach number when
 subsonic and supersonic points are mixed

---
 .../Supersonic_Zero/Drag/compressibility_drag_total.py          | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/trunk/SUAVE/Methods/Aerodynamics/Supersonic_Zero/Drag/compressibility_drag_total.py b/trunk/SUAVE/Methods/Aerodynamics/Supersonic_Zero/Drag/compressibility_drag_total.py
index 69353d0..eb6d0de 100644
--- a/trunk/SUAVE/Methods/Aerodynamics/Supersonic_Zero/Drag/compressibility_drag_total.py
+++ b/trunk/SUAVE/Methods/Aerodynamics/Supersonic_Zero/Drag/compressibility_drag_total.py
@@ -186,7 +186,7 @@ def lift_wave_drag(conditions,configuration,wing,Sref_main):
     cd_lift_wave = wave_drag_lift(conditions,configuration,wing)
 
     # Pack supersonic results into correct elements
-    cd_c_l[mach >= 1.01] = cd_lift_wave[0:len(mach[mach >= 1.01]),0]
+    cd_c_l[mach >= 1.01] = cd_lift_wave[mach >= 1.01]
 
     # Convert coefficient to full aircraft value
     cd_c_l = cd_c_l*wing.areas.reference/Sref_main
-- 
2.43.0


From ced3a32447e63b0239d137f7ace1bddd948de810 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:57:31 +0000
Subject: [PATCH 26/74] fix: the transonic induced drag surrogate gets its last
 training column

---
 trunk/SUAVE/Analyses/Aerodynamics/Vortex_Lattice.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/trunk/SUAVE/Analyses/Aerodynamics/Vortex_Lattice.py b/trunk/SUAVE/Analyses/Aerodynamics/Vortex_Lattice.py
index e6d76ca..80dea69 100644
--- a/trunk/SUAVE/Analyses/Aerodynamics/Vortex_Lattice.py
+++ b/trunk/SUAVE/Analyses/Aerodynamics/Vortex_Lattice.py
@@ -569,6 +569,7 @@ class Vortex_Lattice(Aerodynamics):
             CL_data_trans[:,2]   = CL_data_sup[:,1] 
             CDi_data_trans[:,0]  = CDi_data_sub[:,-1]	     
             CDi_data_trans[:,1]  = CDi_data_sup[:,0] 
+            CDi_data_trans[:,2]  = CDi_data_sup[:,1] 
     
             mach_data_trans_CL   = np.array([mach_data_sub[-1],mach_data_sup[0],mach_data_sup[1]]) 
             mach_data_trans_CDi  = np.array([mach_data_sub[-1],mach_data_sup[0],mach_data_sup[1]]) 
-- 
2.43.0


From beb2b5a0ef5fa280d53a7786e2196bc1edade926 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:51:19 +0000
Subject: [PATCH 27/74] fix: ramjet, scramjet, rocket and solar low-fidelity
 networks return the thrust rotation that the missions read

---
 trunk/SUAVE/Components/Energy/Networks/Liquid_Rocket.py      | 1 +
 trunk/SUAVE/Components/Energy/Networks/Ramjet.py             | 1 +
 trunk/SUAVE/Components/Energy/Networks/Scramjet.py           | 1 +
 trunk/SUAVE/Components/Energy/Networks/Solar_Low_Fidelity.py | 1 +
 4 files changed, 4 insertions(+)

diff --git a/trunk/SUAVE/Components/Energy/Networks/Liquid_Rocket.py b/trunk/SUAVE/Components/Energy/Networks/Liquid_Rocket.py
index cf19e19..5b7a1b4 100644
--- a/trunk/SUAVE/Components/Energy/Networks/Liquid_Rocket.py
+++ b/trunk/SUAVE/Components/Energy/Networks/Liquid_Rocket.py
@@ -129,6 +129,7 @@ class Liquid_Rocket(Network):
         results.thrust_force_vector = F
         results.vehicle_mass_rate   = mdot
         results.specific_impulse    = Isp
+        results.network_y_axis_rotation = conditions.ones_row(1)*0.0
 
         return results
 
diff --git a/trunk/SUAVE/Components/Energy/Networks/Ramjet.py b/trunk/SUAVE/Components/Energy/Networks/Ramjet.py
index 329d409..6128ed4 100644
--- a/trunk/SUAVE/Components/Energy/Networks/Ramjet.py
+++ b/trunk/SUAVE/Components/Energy/Networks/Ramjet.py
@@ -145,6 +145,7 @@ class Ramjet(Network):
         results.thrust_force_vector = F
         results.vehicle_mass_rate   = mdot
         results.specific_impulse    = Isp
+        results.network_y_axis_rotation = conditions.ones_row(1)*0.0
 
         return results
 
diff --git a/trunk/SUAVE/Components/Energy/Networks/Scramjet.py b/trunk/SUAVE/Components/Energy/Networks/Scramjet.py
index 3901ec9..0d81247 100644
--- a/trunk/SUAVE/Components/Energy/Networks/Scramjet.py
+++ b/trunk/SUAVE/Components/Energy/Networks/Scramjet.py
@@ -165,6 +165,7 @@ class Scramjet(Network):
         results.thrust_force_vector = F 
         results.vehicle_mass_rate   = mdot 
         results.specific_impulse    = Isp
+        results.network_y_axis_rotation = conditions.ones_row(1)*0.0
 
         return results 
 
diff --git a/trunk/SUAVE/Components/Energy/Networks/Solar_Low_Fidelity.py b/trunk/SUAVE/Components/Energy/Networks/Solar_Low_Fidelity.py
index e138cf0..306039a 100644
--- a/trunk/SUAVE/Components/Energy/Networks/Solar_Low_Fidelity.py
+++ b/trunk/SUAVE/Components/Energy/Networks/Solar_Low_Fidelity.py
@@ -198,6 +198,7 @@ class Solar_Low_Fidelity(Network):
         results = Data()
         results.thrust_force_vector = F
         results.vehicle_mass_rate   = mdot
+        results.network_y_axis_rotation = conditions.ones_row(1)*0.0
     
         return results
             
-- 
2.43.0


From 099aca2d6f9b6eba53ae16c4ab801bfca2f88bf5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:51:19 +0000
Subject: [PATCH 28/74] fix: networks with and without a second fuel can be
 mixed

---
 trunk/SUAVE/Components/Energy/Networks/Network.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/trunk/SUAVE/Components/Energy/Networks/Network.py b/trunk/SUAVE/Components/Energy/Networks/Network.py
index f44570e..ae69a46 100644
--- a/trunk/SUAVE/Components/Energy/Networks/Network.py
+++ b/trunk/SUAVE/Components/Energy/Networks/Network.py
@@ -135,7 +135,7 @@ class Container(Physical_Component.Container):
 
             if hasattr(net, 'has_additional_fuel_type'):
                 
-                if net.has_additional_fuel_type: #Check if Network has additional fuel
+                if net.has_additional_fuel_type and 'vehicle_fuel_rate' not in results: #Check if Network has additional fuel
 
                     results.vehicle_additional_fuel_rate  =  0.*ones_row(1) #fuel rate for additional fuel types, eg cryogenic fuel
                     results.vehicle_fuel_rate             =  0.*ones_row(1)    
@@ -143,7 +143,8 @@ class Container(Physical_Component.Container):
             results_p = net.evaluate_thrust(state) 
             
             for key in results.keys():
-                results[key] += results_p[key]
+                if key in results_p:
+                    results[key] += results_p[key]
 
         return results
 
-- 
2.43.0


From fc23ad8f296c9008dd0b1e08f62e4ffc49ec1313 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:51:19 +0000
Subject: [PATCH 29/74] fix: the mass flow of several rocket engines is that of
 all of them

---
 trunk/SUAVE/Components/Energy/Processes/Rocket_Thrust.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/trunk/SUAVE/Components/Energy/Processes/Rocket_Thrust.py b/trunk/SUAVE/Components/Energy/Processes/Rocket_Thrust.py
index 497d214..013174d 100644
--- a/trunk/SUAVE/Components/Energy/Processes/Rocket_Thrust.py
+++ b/trunk/SUAVE/Components/Energy/Processes/Rocket_Thrust.py
@@ -122,7 +122,7 @@ class Rocket_Thrust(Energy_Component):
         thrust        = num_eng*mdot_temp*C
         
         #--Make mdot size of thrust
-        mdot               = mdot_temp 
+        mdot               = num_eng*mdot_temp 
         mdot[mdot<0.0]     = 0.0 
         thrust[thrust<0.0] = 0.0
         
-- 
2.43.0


From 5e88a9b9037420871565133e286b89d80126a5cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:51:19 +0000
Subject: [PATCH 30/74] fix: total temperature behind supersonic combustion

---
 trunk/SUAVE/Components/Energy/Converters/Combustor.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/trunk/SUAVE/Components/Energy/Converters/Combustor.py b/trunk/SUAVE/Components/Energy/Converters/Combustor.py
index 761ce24..3254573 100644
--- a/trunk/SUAVE/Components/Energy/Converters/Combustor.py
+++ b/trunk/SUAVE/Components/Energy/Converters/Combustor.py
@@ -337,7 +337,7 @@ class Combustor(Energy_Component):
         V_out  = V_in*(((1.+f*Vfx_V3)/(1.+f))-(Cfb/(2.*(1.+f)))) 
         T_out  = ((T_in/(1.+f))*(1.+(1./(Cpb*T_in ))*(eta_b*f*htf+f*hf+f*Cpb*Tref+(1.+f*Vf_V3*Vf_V3)*V_in*V_in/2.))) - V_out*V_out/(2.*Cpb) 
         M_out  = V_out/(np.sqrt(gamma_b*R*T_out)) 
-        Tt_out = T_out*(1.+(gamma_b-1.)/2.)*M_out*M_out
+        Tt_out = T_out*(1.+(gamma_b-1.)/2.*M_out*M_out)
         
         # compute the exity static and stagnation conditions 
         ht_out = Cpb*Tt_out 
-- 
2.43.0


From b7fe5c0f9b41fed6414ec5b04b16a1c4b3002ab8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:51:19 +0000
Subject: [PATCH 31/74] fix: the fuel flow of a combustor or afterburner fed by
 burnt gas balances the energy

---
 trunk/SUAVE/Components/Energy/Converters/Combustor.py    | 2 +-
 trunk/SUAVE/Components/Energy/Networks/Turbojet_Super.py | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/trunk/SUAVE/Components/Energy/Converters/Combustor.py b/trunk/SUAVE/Components/Energy/Converters/Combustor.py
index 3254573..bd2f9bf 100644
--- a/trunk/SUAVE/Components/Energy/Converters/Combustor.py
+++ b/trunk/SUAVE/Components/Energy/Converters/Combustor.py
@@ -146,7 +146,7 @@ class Combustor(Energy_Component):
         ho      = Cp*To
         
         # Using the Turbine exit temperature, the fuel properties and freestream temperature to compute the fuel to air ratio f
-        f       = (ht4 - ht_in)/(eta_b*htf-ht4)
+        f       = (ht4 - ht_in)/(eta_b*htf-Cp*Tt4)
 
         # Computing the exit static and stagnation conditions
         ht_out  = Cp*Tt4
diff --git a/trunk/SUAVE/Components/Energy/Networks/Turbojet_Super.py b/trunk/SUAVE/Components/Energy/Networks/Turbojet_Super.py
index e05f61d..cbe37f7 100644
--- a/trunk/SUAVE/Components/Energy/Networks/Turbojet_Super.py
+++ b/trunk/SUAVE/Components/Energy/Networks/Turbojet_Super.py
@@ -192,7 +192,7 @@ class Turbojet_Super(Network):
             #link the core nozzle to the afterburner
             afterburner.inputs.stagnation_temperature              = low_pressure_turbine.outputs.stagnation_temperature
             afterburner.inputs.stagnation_pressure                 = low_pressure_turbine.outputs.stagnation_pressure   
-            afterburner.inputs.nondim_ratio                        = 1.0 + combustor.outputs.fuel_to_air_ratio
+            afterburner.inputs.nondim_mass_ratio                        = 1.0 + combustor.outputs.fuel_to_air_ratio
             
             #flow through the afterburner
             afterburner(conditions)
-- 
2.43.0


From c5b2f47242645881c7ba8731d56a044b13193831 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:51:19 +0000
Subject: [PATCH 32/74] fix: the pressure recovery of a compressible inlet
 reaches the total pressure

---
 .../SUAVE/Components/Energy/Converters/Compression_Nozzle.py  | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/trunk/SUAVE/Components/Energy/Converters/Compression_Nozzle.py b/trunk/SUAVE/Components/Energy/Converters/Compression_Nozzle.py
index f6869ea..3ce8423 100644
--- a/trunk/SUAVE/Components/Energy/Converters/Compression_Nozzle.py
+++ b/trunk/SUAVE/Components/Energy/Converters/Compression_Nozzle.py
@@ -146,14 +146,14 @@ class Compression_Nozzle(Energy_Component):
             P_out    = np.ones_like(Pt_in)
 
             #-- Inlet Mach <= 1.0, isentropic relations
-            Pt_out[i_low]  = Pt_in[i_low]*pid
+            Pt_out[i_low]  = Pt_in[i_low]*pid*eta_rec
             Mach[i_low]    = np.sqrt( (((Pt_out[i_low]/Po[i_low])**((gamma[i_low]-1.)/gamma[i_low]))-1.) *2./(gamma[i_low]-1.) ) 
             T_out[i_low]   = Tt_out[i_low]/(1.+(gamma[i_low]-1.)/2.*Mach[i_low]*Mach[i_low])
 
             #-- Inlet Mach > 1.0, normal shock
             Mach[i_high]   = np.sqrt((1.+(gamma[i_high]-1.)/2.*Mo[i_high]**2.)/(gamma[i_high]*Mo[i_high]**2-(gamma[i_high]-1.)/2.))
             T_out[i_high]  = Tt_out[i_high]/(1.+(gamma[i_high]-1.)/2*Mach[i_high]*Mach[i_high])
-            Pt_out[i_high] = pid*Pt_in[i_high]*((((gamma[i_high]+1.)*(Mo[i_high]**2.))/((gamma[i_high]-1.)*Mo[i_high]**2.+2.))**(gamma[i_high]/(gamma[i_high]-1.)))*((gamma[i_high]+1.)/(2.*gamma[i_high]*Mo[i_high]**2.-(gamma[i_high]-1.)))**(1./(gamma[i_high]-1.))
+            Pt_out[i_high] = pid*eta_rec*Pt_in[i_high]*((((gamma[i_high]+1.)*(Mo[i_high]**2.))/((gamma[i_high]-1.)*Mo[i_high]**2.+2.))**(gamma[i_high]/(gamma[i_high]-1.)))*((gamma[i_high]+1.)/(2.*gamma[i_high]*Mo[i_high]**2.-(gamma[i_high]-1.)))**(1./(gamma[i_high]-1.))
             P_out[i_high]  = Pt_out[i_high]*(1.+(gamma[i_high]-1.)/2.*Mach[i_high]**2.)**(-gamma[i_high]/(gamma[i_high]-1.))
         else:
             Pt_out  = Pt_in*pid*eta_rec
-- 
2.43.0


From ba8a02a9eb9fa77cac5a462a5b3bd4d3ac0d3340 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:51:19 +0000
Subject: [PATCH 33/74] fix: mach_area solves each control point on its own

---
 trunk/SUAVE/Methods/Propulsion/nozzle_calculations.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/trunk/SUAVE/Methods/Propulsion/nozzle_calculations.py b/trunk/SUAVE/Methods/Propulsion/nozzle_calculations.py
index 2134249..7b8a6ec 100644
--- a/trunk/SUAVE/Methods/Propulsion/nozzle_calculations.py
+++ b/trunk/SUAVE/Methods/Propulsion/nozzle_calculations.py
@@ -64,7 +64,10 @@ def mach_area(area_ratio, gamma, subsonic):
     Me            [dimensionless]  
     
     """
-    func = lambda Me : (area_ratio**2. - ((1./Me)**2.)*(((2./(gamma+1.))*(1.+((gamma-1.)/2.)*Me**2.))**((gamma+1.)/((gamma-1.)))))[:,0]
+    # fsolve hands Me over as a flat array, one entry per control point
+    gamma      = np.atleast_2d(gamma)[:,0]
+    area_ratio = np.ravel(area_ratio)
+    func = lambda Me : area_ratio**2. - ((1./Me)**2.)*(((2./(gamma+1.))*(1.+((gamma-1.)/2.)*Me**2.))**((gamma+1.)/((gamma-1.))))
     if subsonic:
         Me_initial_guess = np.ones_like(gamma)*0.01
     else:
-- 
2.43.0


From e005206f974281293b7cb7d7bf195f041875411b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:51:19 +0000
Subject: [PATCH 34/74] fix: the limited-geometry nozzle compares its exit area
 with the capture area

---
 .../Components/Energy/Converters/Supersonic_Nozzle.py    | 9 +++------
 1 file changed, 3 insertions(+), 6 deletions(-)

diff --git a/trunk/SUAVE/Components/Energy/Converters/Supersonic_Nozzle.py b/trunk/SUAVE/Components/Energy/Converters/Supersonic_Nozzle.py
index 4a4741c..2edd2d3 100644
--- a/trunk/SUAVE/Components/Energy/Converters/Supersonic_Nozzle.py
+++ b/trunk/SUAVE/Components/Energy/Converters/Supersonic_Nozzle.py
@@ -267,7 +267,6 @@ class Supersonic_Nozzle(Energy_Component):
         #-- Compute the output Mach number guess with freestream pressure
         #-- Initializing arrays
         P_out       = np.ones_like(Pt_out)
-        A_ratio     = area_ratio*np.ones_like(Pt_out)
         M_out       = np.ones_like(Pt_out)
 
         # Establishing a correspondence between real pressure ratio and limits of each flow condition
@@ -296,27 +295,22 @@ class Supersonic_Nozzle(Energy_Component):
         #-- Subsonic and sonic flow
         P_out[i_sub]        = Po[i_sub]
         M_out[i_sub]        = np.sqrt((((Pt_out[i_sub]/P_out[i_sub])**((gamma[i_sub]-1.)/gamma[i_sub]))-1.)*2./(gamma[i_sub]-1.))
-        A_ratio[i_sub]      = 1./fm_id(M_out[i_sub],gamma[i_sub])
         
         #-- Shock inside nozzle
         P_out[i_shock]      = Po[i_shock]
         M_out[i_shock]      = np.sqrt((((Pt_out[i_shock]/P_out[i_shock])**((gamma[i_shock]-1.)/gamma[i_shock]))-1.)*2./(gamma[i_shock]-1.))   
-        A_ratio[i_shock]    = 1./fm_id(M_out[i_shock],gamma[i_shock])
         
         #-- Overexpanded flow
         P_out[i_over]       = supersonic_min_Area[i_over]*Pt_out[i_over] 
         M_out[i_over]       = np.sqrt((((Pt_out[i_over]/P_out[i_over])**((gamma[i_over]-1.)/gamma[i_over]))-1.)*2./(gamma[i_over]-1.))
-        A_ratio[i_over]     = 1./fm_id(M_out[i_over],gamma[i_over])
         
         #-- Isentropic supersonic flow, with variable area adjustments
         P_out[i_sup]        = Po[i_sup]
         M_out[i_sup]        = np.sqrt((((Pt_out[i_sup]/P_out[i_sup])**((gamma[i_sup]-1.)/gamma[i_sup]))-1.)*2./(gamma[i_sup]-1.))    
-        A_ratio[i_sup]      = 1./fm_id(M_out[i_sup],gamma[i_sup])
         
         #-- Underexpanded flow
         P_out[i_und]        = supersonic_max_Area[i_und]*Pt_out[i_und] 
         M_out[i_und]        = np.sqrt((((Pt_out[i_und]/P_out[i_und])**((gamma[i_und]-1.)/gamma[i_und]))-1.)*2./(gamma[i_und]-1.))
-        A_ratio[i_und]      = 1./fm_id(M_out[i_und],gamma[i_und])
         
         #-- Calculate other flow properties
         T_out   = Tt_out/(1.+(gamma-1.)/2.*M_out*M_out)
@@ -324,6 +318,9 @@ class Supersonic_Nozzle(Energy_Component):
         u_out   = M_out*np.sqrt(gamma*R*T_out)
         rho_out = P_out/(R*T_out)
 
+        #-- Exit area relative to the freestream capture area, which is what the thrust is computed with
+        A_ratio = (fm_id(Mo,gamma)/fm_id(M_out,gamma)*(1/(Pt_out/Pto))*(np.sqrt(Tt_out/Tto)))
+
         #pack computed quantities into outputs
         self.outputs.stagnation_temperature  = Tt_out
         self.outputs.stagnation_pressure     = Pt_out
-- 
2.43.0


From aca5fbf7c8f1c76a77c0d9c76596d3b942e9a2ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:51:19 +0000
Subject: [PATCH 35/74] fix: rayleigh flow in closed form

---
 trunk/SUAVE/Methods/Propulsion/rayleigh.py | 25 +++++++---------------
 1 file changed, 8 insertions(+), 17 deletions(-)

diff --git a/trunk/SUAVE/Methods/Propulsion/rayleigh.py b/trunk/SUAVE/Methods/Propulsion/rayleigh.py
index d5215a2..7b7678e 100644
--- a/trunk/SUAVE/Methods/Propulsion/rayleigh.py
+++ b/trunk/SUAVE/Methods/Propulsion/rayleigh.py
@@ -6,8 +6,6 @@
 
 import numpy as np
 
-from scipy.optimize import fsolve
-
 # ----------------------------------------------------------------------
 #  rayleigh
 # ----------------------------------------------------------------------
@@ -31,23 +29,16 @@ def rayleigh(gamma, M0, TtR):
     
     """
 
-    func = lambda M1: (((1.+gamma*M0*M0)**2.*M1*M1*(1.+(gamma-1.)/2.*M1*M1))/((1.+gamma*M1*M1)**2.*M0*M0*(1.+(gamma-1.)/2.*M0*M0))-TtR)
-
-    #Initializing the array
-    M1_guess = np.ones_like(M0)
+    # Stagnation temperature relative to the one that chokes the flow, after the heat is added
+    tau = TtR*2.*(gamma+1.)*M0*M0*(1.+(gamma-1.)/2.*M0*M0)/((1.+gamma*M0*M0)**2.)
     
-    # Separating supersonic and subsonic solutions
-    i_low = M0 <= 1.0
-    i_high = M0 > 1.0
-
-    #--Subsonic solution Guess
-    M1_guess[i_low]= .01
+    # The flow stays on its branch, and cannot be heated past Mach 1
+    root         = np.sqrt(np.maximum(1.-tau,0.))
+    root         = np.where(M0 <= 1.0, root, -root)
+    tau          = np.minimum(tau,1.)
     
-    #--Supersonic solution Guess
-    M1_guess[i_high]= 1.1
-
-    # Find Mach number
-    M1 = fsolve(func,M1_guess, factor=0.1)
+    # Find Mach number, the Rayleigh relation is quadratic in its square
+    M1 = np.sqrt(tau/((gamma+1.)*(1.+root)-tau*gamma))
     
     #Calculate stagnation pressure ratio
     Ptr = ((1.+gamma*M0*M0)/(1.+gamma*M1*M1)*((1.+(gamma-1.)/2.*M1*M1)/(1.+(gamma-1.)/2.*M0*M0))**(gamma/(gamma-1.)))
-- 
2.43.0


From 7a0fef558d521fd6e7a6b89fc17d7c835b7c564d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:51:19 +0000
Subject: [PATCH 36/74] fix: the scramjet passes the burnt gas to its nozzle
 and its reference state to the thrust

---
 trunk/SUAVE/Components/Energy/Networks/Scramjet.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/trunk/SUAVE/Components/Energy/Networks/Scramjet.py b/trunk/SUAVE/Components/Energy/Networks/Scramjet.py
index 0d81247..cf66792 100644
--- a/trunk/SUAVE/Components/Energy/Networks/Scramjet.py
+++ b/trunk/SUAVE/Components/Energy/Networks/Scramjet.py
@@ -129,6 +129,8 @@ class Scramjet(Network):
         core_nozzle.inputs.static_pressure                     = combustor.outputs.static_pressure 
         core_nozzle.inputs.velocity                            = combustor.outputs.velocity 
         core_nozzle.inputs.fuel_to_air_ratio                   = combustor.outputs.fuel_to_air_ratio  
+        core_nozzle.inputs.specific_heat_constant_pressure     = combustor.outputs.specific_heat_constant_pressure
+        core_nozzle.inputs.isentropic_expansion_factor         = combustor.outputs.isentropic_expansion_factor
 
         #flow through the core nozzle 
         core_nozzle.compute_scramjet(conditions)   
@@ -144,8 +146,8 @@ class Scramjet(Network):
         thrust.inputs.fuel_to_air_ratio                        = combustor.outputs.fuel_to_air_ratio 
 
         #link the thrust component to the low pressure compressor  
-        thrust.inputs.stag_temp_lpt_exit                       = core_nozzle.outputs.stagnation_temperature 
-        thrust.inputs.stag_press_lpt_exit                      = core_nozzle.outputs.stagnation_pressure 
+        thrust.inputs.total_temperature_reference              = core_nozzle.outputs.stagnation_temperature 
+        thrust.inputs.total_pressure_reference                 = core_nozzle.outputs.stagnation_pressure 
         thrust.inputs.number_of_engines                        = number_of_engines 
 
         thrust.inputs.flow_through_core                        = 1.0 #scaled constant to turn on core thrust computation 
-- 
2.43.0


From e1fe7ebddac82f065c29eeb29f6baf857b868e0f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:51:19 +0000
Subject: [PATCH 37/74] fix: the ducted fan reports the exit stagnation
 pressure

---
 trunk/SUAVE/Components/Energy/Networks/Ducted_Fan.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/trunk/SUAVE/Components/Energy/Networks/Ducted_Fan.py b/trunk/SUAVE/Components/Energy/Networks/Ducted_Fan.py
index 84e899a..fba86f6 100644
--- a/trunk/SUAVE/Components/Energy/Networks/Ducted_Fan.py
+++ b/trunk/SUAVE/Components/Energy/Networks/Ducted_Fan.py
@@ -163,7 +163,7 @@ class Ducted_Fan(Network):
             exit_static_temperature             = fan_nozzle.outputs.static_temperature,
             exit_static_pressure                = fan_nozzle.outputs.static_pressure,
             exit_stagnation_temperature         = fan_nozzle.outputs.stagnation_temperature,
-            exit_stagnation_pressure            = fan_nozzle.outputs.static_pressure,
+            exit_stagnation_pressure            = fan_nozzle.outputs.stagnation_pressure,
             exit_velocity                       = fan_nozzle.outputs.velocity
             )
         
-- 
2.43.0


From 75d0db6303aca6fbed2d4cec1aafb5163e1c0f22 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:51:19 +0000
Subject: [PATCH 38/74] fix: the NMC cell model leaves the current demand alone

---
 .../Battery/Cell_Cycle_Models/LiNiMnCoO2_cell_cycle_model.py   | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/trunk/SUAVE/Methods/Power/Battery/Cell_Cycle_Models/LiNiMnCoO2_cell_cycle_model.py b/trunk/SUAVE/Methods/Power/Battery/Cell_Cycle_Models/LiNiMnCoO2_cell_cycle_model.py
index 49e74d7..69d5211 100644
--- a/trunk/SUAVE/Methods/Power/Battery/Cell_Cycle_Models/LiNiMnCoO2_cell_cycle_model.py
+++ b/trunk/SUAVE/Methods/Power/Battery/Cell_Cycle_Models/LiNiMnCoO2_cell_cycle_model.py
@@ -44,8 +44,7 @@ def compute_NMC_cell_state_variables(battery_data,SOC,T,I):
     T[T<272.65]    = 272.65 # model does not fit for below 0  degrees
     T[T>322.65]    = 322.65 # model does not fit for above 50 degrees
      
-    I[I<0.0]       = 0.0
-    I[I>8.0]       = 8.0   
+    I              = np.clip(I, 0.0, 8.0) # on a copy, the caller keeps the actual current
      
     pts            = np.hstack((np.hstack((I, T)),DOD  )) # amps, temp, SOC   
     V_ul           = np.atleast_2d(battery_data.Voltage(pts)[:,1]).T  
-- 
2.43.0


From 89142ee78378cc8158a02a0b961622c8ea2a383f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:51:19 +0000
Subject: [PATCH 39/74] fix: battery cooling chooses its correlation from the
 Reynolds number

---
 .../Methods/Power/Battery/compute_net_generated_battery_heat.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/trunk/SUAVE/Methods/Power/Battery/compute_net_generated_battery_heat.py b/trunk/SUAVE/Methods/Power/Battery/compute_net_generated_battery_heat.py
index 715d3b5..300ee6a 100644
--- a/trunk/SUAVE/Methods/Power/Battery/compute_net_generated_battery_heat.py
+++ b/trunk/SUAVE/Methods/Power/Battery/compute_net_generated_battery_heat.py
@@ -84,7 +84,7 @@ def compute_net_generated_battery_heat(n_total,battery,Q_heat_gen,numerics):
 
         T        = (T_ambient+T_current)/2   
         Re_max   = V_max*D_cell/nu_coolant   
-        if all(Re_max) > 10E2: 
+        if np.all(Re_max > 10E2): 
             C = 0.35*((S_T/S_L)**0.2) 
             m = 0.6 
         else:
-- 
2.43.0


From 92b888481e6690832dcd7f05bb9f97dc2b4cb779 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:51:19 +0000
Subject: [PATCH 40/74] fix: the cell power draw is the pack power over all
 cells

---
 trunk/SUAVE/Methods/Power/Battery/pack_battery_conditions.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/trunk/SUAVE/Methods/Power/Battery/pack_battery_conditions.py b/trunk/SUAVE/Methods/Power/Battery/pack_battery_conditions.py
index 807a1ea..d163f4c 100644
--- a/trunk/SUAVE/Methods/Power/Battery/pack_battery_conditions.py
+++ b/trunk/SUAVE/Methods/Power/Battery/pack_battery_conditions.py
@@ -87,7 +87,7 @@ def pack_battery_conditions(conditions,battery,avionics_payload_power,P):
     conditions.propulsion.payload_efficiency                   = (battery_power_draw+avionics_payload_power)/battery_power_draw            
     conditions.propulsion.battery_specfic_power                = -battery_power_draw/battery.mass_properties.mass    
     conditions.propulsion.electronics_efficiency               = -(P)/battery_power_draw    
-    conditions.propulsion.battery_cell_power_draw              = battery.inputs.power_in /n_series
+    conditions.propulsion.battery_cell_power_draw              = battery.inputs.power_in /n_total
     conditions.propulsion.battery_cell_energy                  = battery.current_energy/n_total   
     conditions.propulsion.battery_cell_voltage_under_load      = battery.cell_voltage_under_load    
     conditions.propulsion.battery_cell_voltage_open_circuit    = battery.cell_voltage_open_circuit  
-- 
2.43.0


From 4dc359a361937f0532bf1ea350e67c3227899cba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:51:19 +0000
Subject: [PATCH 41/74] fix: the gearbox torque follows its gear ratio

---
 trunk/SUAVE/Components/Energy/Converters/Gearbox.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/trunk/SUAVE/Components/Energy/Converters/Gearbox.py b/trunk/SUAVE/Components/Energy/Converters/Gearbox.py
index b76ae1f..44d56a9 100644
--- a/trunk/SUAVE/Components/Energy/Converters/Gearbox.py
+++ b/trunk/SUAVE/Components/Energy/Converters/Gearbox.py
@@ -98,7 +98,7 @@ class Gearbox(Energy_Component):
         # method to compute gearbox properties
 
         w2 = w1 * R1/R2          # gear output speed
-        T2 = T1 * R1/R2 * eta    # gear output torque
+        T2 = T1 * R2/R1 * eta    # gear output torque
         P2 = P1 * eta            # gear output horsepower
         
         # pack computed quantities into outputs
-- 
2.43.0


From 4c78cc734ab2d9a4a73f300667048cf78e6fba7e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:51:19 +0000
Subject: [PATCH 42/74] fix: size_optimal_motor sizes the motor at its own
 shaft

---
 trunk/SUAVE/Methods/Propulsion/electric_motor_sizing.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/trunk/SUAVE/Methods/Propulsion/electric_motor_sizing.py b/trunk/SUAVE/Methods/Propulsion/electric_motor_sizing.py
index b0d9231..680fb84 100644
--- a/trunk/SUAVE/Methods/Propulsion/electric_motor_sizing.py
+++ b/trunk/SUAVE/Methods/Propulsion/electric_motor_sizing.py
@@ -137,12 +137,12 @@ def size_optimal_motor(motor,prop):
     motor.origin                = prop.origin  
     
     # motor design torque 
-    motor.design_torque         = prop.design_torque  
+    motor.design_torque         = prop.design_torque/motor.gear_ratio  
     
     # design conditions for motor 
     io                          = motor.no_load_current
     v                           = motor.nominal_voltage
-    omeg                        = prop.angular_velocity/motor.gear_ratio    
+    omeg                        = prop.angular_velocity*motor.gear_ratio    
     etam                        = motor.efficiency 
     Q                           = motor.design_torque 
     
-- 
2.43.0


From 2562cf246226ec15c259ea552cf29234b901ab6f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:51:19 +0000
Subject: [PATCH 43/74] fix: the Larminie fuel cell splits the power over its
 cells

---
 trunk/SUAVE/Methods/Power/Fuel_Cell/Discharge/larminie.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/trunk/SUAVE/Methods/Power/Fuel_Cell/Discharge/larminie.py b/trunk/SUAVE/Methods/Power/Fuel_Cell/Discharge/larminie.py
index 1aaff9e..938d44c 100644
--- a/trunk/SUAVE/Methods/Power/Fuel_Cell/Discharge/larminie.py
+++ b/trunk/SUAVE/Methods/Power/Fuel_Cell/Discharge/larminie.py
@@ -12,6 +12,7 @@ import numpy as np
 import scipy as sp
 from SUAVE.Core import Units
 from .find_voltage_larminie import find_voltage_larminie
+from .find_power_larminie import find_power_larminie
 from .find_power_diff_larminie import find_power_diff_larminie
 
 # ----------------------------------------------------------------------
@@ -44,10 +45,14 @@ def larminie(fuel_cell,conditions,numerics):
     power           = fuel_cell.inputs.power_in  
     lb              = .1*Units.mA/(Units.cm**2.)    #lower bound on fuel cell current density
     ub              = 1200.0*Units.mA/(Units.cm**2.)
+    n_cells         = max(fuel_cell.number_of_cells, 1.)
     current_density = np.zeros_like(power)
     
+    # every power below the maximum is found at two current densities, the cells run at the lower one
+    ub              = sp.optimize.fminbound(find_power_larminie, lb, ub, args=(fuel_cell, -1.))
+
     for i in range(len(power)):
-        current_density[i] = sp.optimize.fminbound(find_power_diff_larminie, lb, ub, args=(fuel_cell, power[i]))
+        current_density[i] = sp.optimize.fminbound(find_power_diff_larminie, lb, ub, args=(fuel_cell, power[i]/n_cells))
     
     v          = find_voltage_larminie(fuel_cell,current_density)    
     efficiency = np.divide(v, fuel_cell.ideal_voltage)
-- 
2.43.0


From 6f3d388941e712ba4a2065f8d540eab238ae5282 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:51:19 +0000
Subject: [PATCH 44/74] fix: the built-in section data work in azimuthally
 resolved rotor analysis

---
 .../Aerodynamics/Common/Fidelity_Zero/Lift/BET_calculations.py  | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/trunk/SUAVE/Methods/Aerodynamics/Common/Fidelity_Zero/Lift/BET_calculations.py b/trunk/SUAVE/Methods/Aerodynamics/Common/Fidelity_Zero/Lift/BET_calculations.py
index 40ad900..7746095 100644
--- a/trunk/SUAVE/Methods/Aerodynamics/Common/Fidelity_Zero/Lift/BET_calculations.py
+++ b/trunk/SUAVE/Methods/Aerodynamics/Common/Fidelity_Zero/Lift/BET_calculations.py
@@ -87,6 +87,8 @@ def compute_airfoil_aerodynamics(beta,c,r,R,B,Wa,Wt,a,nu,airfoils,a_loc,ctrl_pts
         Cl_max_ref = -0.0009*tc_1**3 + 0.0217*tc_1**2 - 0.0442*tc_1 + 0.7005
         Cl_max_ref[Cl_max_ref<0.7] = 0.7
         Re_ref     = 9.*10**6
+        if use_2d_analysis:
+            Cl_max_ref = np.reshape(Cl_max_ref, (1,-1,1))
         Cl1maxp    = Cl_max_ref * ( Re / Re_ref ) **0.1
 
         # If not airfoil polar provided, use 2*pi as lift curve slope
-- 
2.43.0


From 45901e9502aa292c8a0ba839db0222b2265d7ad7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:51:19 +0000
Subject: [PATCH 45/74] fix: radial inflow on the rotor disc is perpendicular
 to the tangential one

---
 trunk/SUAVE/Components/Energy/Converters/Rotor.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/trunk/SUAVE/Components/Energy/Converters/Rotor.py b/trunk/SUAVE/Components/Energy/Converters/Rotor.py
index 10d7651..30787a0 100644
--- a/trunk/SUAVE/Components/Energy/Converters/Rotor.py
+++ b/trunk/SUAVE/Components/Energy/Converters/Rotor.py
@@ -319,7 +319,7 @@ class Rotor(Energy_Component):
             utz =  -Vz*np.sin(psi_2d)
             urz =   Vz*np.cos(psi_2d)
             uty =  -Vy*np.cos(psi_2d)
-            ury =   Vy*np.sin(psi_2d)
+            ury =  -Vy*np.sin(psi_2d)
 
             ut +=  (utz + uty)  # tangential velocity in direction of rotor rotation
             ur +=  (urz + ury)  # radial velocity (positive toward tip)
-- 
2.43.0


From cb95c5f3afd5df3049d5ab7c9b527705d1cfb8a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:06:19 +0000
Subject: [PATCH 46/74] fix: piston propeller network: disc loading, power
 loading and efficiencies are per control point and propeller

---
 .../Energy/Networks/Internal_Combustion_Propeller.py        | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/trunk/SUAVE/Components/Energy/Networks/Internal_Combustion_Propeller.py b/trunk/SUAVE/Components/Energy/Networks/Internal_Combustion_Propeller.py
index ad8d501..6f2c754 100644
--- a/trunk/SUAVE/Components/Energy/Networks/Internal_Combustion_Propeller.py
+++ b/trunk/SUAVE/Components/Energy/Networks/Internal_Combustion_Propeller.py
@@ -130,7 +130,7 @@ class Internal_Combustion_Propeller(Network):
             # Pack the conditions
             R                   = prop.tip_radius
             rpm                 = engine.inputs.speed / Units.rpm
-            F_mag               = np.atleast_2d(np.linalg.norm(F, axis=1))  
+            F_mag               = np.atleast_2d(np.linalg.norm(F, axis=1)).T
             total_thrust        = total_thrust + F * factor
             total_power         = total_power  + P * factor
               
@@ -141,8 +141,8 @@ class Internal_Combustion_Propeller(Network):
             conditions.propulsion.propeller_tip_mach[:,ii] = (R*rpm[:,0]*Units.rpm)/a[:,0]
             conditions.propulsion.disc_loading[:,ii]       = (F_mag[:,0])/(np.pi*(R**2)) # N/m^2                  
             conditions.propulsion.power_loading[:,ii]      = (F_mag[:,0])/(P[:,0])      # N/W   
-            conditions.propulsion.propeller_efficiency     = etap[:,0]
-            conditions.propulsion.figure_of_merit          = outputs.figure_of_merit[:,0]
+            conditions.propulsion.propeller_efficiency[:,ii] = etap[:,0]
+            conditions.propulsion.figure_of_merit[:,ii]   = outputs.figure_of_merit[:,0]
             
             conditions.noise.sources.propellers[prop.tag]  = outputs
 
-- 
2.43.0


From dbf47506be74f6bcbc7faf16ad36eaa121e9f5a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:06:19 +0000
Subject: [PATCH 47/74] fix: constant speed piston propeller network returns
 the thrust of all its propellers, per-propeller reports in their columns and
 tip Mach in rad/s

---
 .../Internal_Combustion_Propeller_Constant_Speed.py   | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/trunk/SUAVE/Components/Energy/Networks/Internal_Combustion_Propeller_Constant_Speed.py b/trunk/SUAVE/Components/Energy/Networks/Internal_Combustion_Propeller_Constant_Speed.py
index 58eb15a..0122595 100644
--- a/trunk/SUAVE/Components/Energy/Networks/Internal_Combustion_Propeller_Constant_Speed.py
+++ b/trunk/SUAVE/Components/Energy/Networks/Internal_Combustion_Propeller_Constant_Speed.py
@@ -104,6 +104,7 @@ class Internal_Combustion_Propeller_Constant_Speed(Network):
         conditions.propulsion.propeller_torque           = ones_row(n_evals)
         conditions.propulsion.propeller_tip_mach         = ones_row(n_evals)
         conditions.propulsion.combustion_engine_throttle = ones_row(n_evals)
+        conditions.propulsion.propeller_efficiency       = ones_row(n_evals)
             
         # Setup numbers for iteration
         total_thrust        = 0. * state.ones_row(3)
@@ -131,18 +132,18 @@ class Internal_Combustion_Propeller_Constant_Speed(Network):
             # Create the outputs
             R                   = prop.tip_radius
             mdot                = mdot + engine.outputs.fuel_flow_rate * factor
-            F_mag               = np.atleast_2d(np.linalg.norm(F, axis=1))  
+            F_mag               = np.atleast_2d(np.linalg.norm(F, axis=1)).T
             engine_throttle     = engine.outputs.throttle  
             total_thrust        = total_thrust + F * factor
             total_power         = total_power  + P * factor            
 
             # Pack the conditions
             conditions.propulsion.propeller_torque[:,ii]     = Q[:,0]
-            conditions.propulsion.propeller_tip_mach[:,ii]   = (R*rpm[:,0]*Units.rpm)/a[:,0]
+            conditions.propulsion.propeller_tip_mach[:,ii]   = (R*rpm[:,0])/a[:,0]
             conditions.propulsion.disc_loading[:,ii]         = (F_mag[:,0])/(np.pi*(R**2)) # N/m^2                  
             conditions.propulsion.power_loading[:,ii]        = (F_mag[:,0])/(P[:,0])      # N/W            
-            conditions.propulsion.combustion_engine_throttle = engine_throttle
-            conditions.propulsion.propeller_efficiency       = etap[:,0]
+            conditions.propulsion.combustion_engine_throttle[:,ii] = engine_throttle[:,0]
+            conditions.propulsion.propeller_efficiency[:,ii] = etap[:,0]
             
             
             conditions.noise.sources.propellers[prop.tag]    = outputs
@@ -151,7 +152,7 @@ class Internal_Combustion_Propeller_Constant_Speed(Network):
         conditions.propulsion.power = total_power
         
         results = Data()
-        results.thrust_force_vector       = F
+        results.thrust_force_vector       = total_thrust
         results.vehicle_mass_rate         = mdot
         results.network_y_axis_rotation   = state.ones_row(1) * 0.0
         
-- 
2.43.0


From 50f3b2a27054d63750f608428961b31ccafd76cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:06:19 +0000
Subject: [PATCH 48/74] fix: electronics efficiency of the battery propeller
 and solar networks uses the shaft power of all propellers

---
 trunk/SUAVE/Components/Energy/Networks/Battery_Propeller.py | 4 ++--
 trunk/SUAVE/Components/Energy/Networks/Solar.py             | 2 +-
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/trunk/SUAVE/Components/Energy/Networks/Battery_Propeller.py b/trunk/SUAVE/Components/Energy/Networks/Battery_Propeller.py
index 4c69ee0..fe47023 100644
--- a/trunk/SUAVE/Components/Energy/Networks/Battery_Propeller.py
+++ b/trunk/SUAVE/Components/Energy/Networks/Battery_Propeller.py
@@ -275,10 +275,10 @@ class Battery_Propeller(Network):
             
             avionics_payload_power   = np.zeros((len(volts),1)) 
             total_thrust             = np.zeros((len(volts),3)) 
-            P                        = battery.inputs.power_in
+            total_power              = battery.inputs.power_in
             
         # Pack the conditions for outputs
-        pack_battery_conditions(conditions,battery,avionics_payload_power,P)  
+        pack_battery_conditions(conditions,battery,avionics_payload_power,total_power)  
         
          # Create the outputs
         results = Data()
diff --git a/trunk/SUAVE/Components/Energy/Networks/Solar.py b/trunk/SUAVE/Components/Energy/Networks/Solar.py
index 0b65bf9..76a8c25 100644
--- a/trunk/SUAVE/Components/Energy/Networks/Solar.py
+++ b/trunk/SUAVE/Components/Energy/Networks/Solar.py
@@ -241,7 +241,7 @@ class Solar(Network):
         # Pack the conditions for outputs 
         battery.inputs.current             = solar_logic.inputs.currentesc
         conditions.propulsion.solar_flux   = solar_flux.outputs.flux          
-        pack_battery_conditions(conditions,battery,avionics_payload_power,P)  
+        pack_battery_conditions(conditions,battery,avionics_payload_power,total_power)  
 
         # Create the outputs
         results = Data()
-- 
2.43.0


From 9fff2699356bf360c45c133a129ed9e0cfb375b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:06:19 +0000
Subject: [PATCH 49/74] fix: lift+cruise network: lift rotor wakes are offset
 by lift rotor origins, charging works before any flight, explicit rotors get
 zero columns of their own

---
 .../Components/Energy/Networks/Lift_Cruise.py     | 15 ++++++++-------
 1 file changed, 8 insertions(+), 7 deletions(-)

diff --git a/trunk/SUAVE/Components/Energy/Networks/Lift_Cruise.py b/trunk/SUAVE/Components/Energy/Networks/Lift_Cruise.py
index 3acc1ae..106862f 100644
--- a/trunk/SUAVE/Components/Energy/Networks/Lift_Cruise.py
+++ b/trunk/SUAVE/Components/Energy/Networks/Lift_Cruise.py
@@ -378,7 +378,7 @@ class Lift_Cruise(Network):
                         wake_vd   = base_wake.vortex_distribution
                         
                         # apply offset 
-                        origin_offset = np.array(p.origin[0]) - np.array(prop.origin[0])
+                        origin_offset = np.array(r.origin[0]) - np.array(lift_rotor.origin[0])
                         r.Wake = base_wake
                         r.Wake.shift_wake_VD(wake_vd, origin_offset)  
                         
@@ -427,13 +427,13 @@ class Lift_Cruise(Network):
              
             total_prop_thrust       = np.zeros((len(volts),3))  
             total_lift_rotor_thrust = np.zeros((len(volts),3))  
-            P_forward               = np.zeros((len(volts),1))  
-            P_lift                  = np.zeros((len(volts),1))  
+            avionics_payload_power  = np.zeros((len(volts),1))
+            total_prop_power        = np.zeros((len(volts),1))  
+            total_lift_rotor_power  = np.zeros((len(volts),1))  
             current_total           = battery.cell.charging_current*n_parallel * np.ones_like(volts) 
         
         # Pack the conditions for outputs     
-        P = P_forward + P_lift
-        avionics_payload_power = avionics.outputs.power + payload.outputs.power
+        P = total_prop_power + total_lift_rotor_power
         pack_battery_conditions(conditions,battery,avionics_payload_power,P)  
 
         F_total = total_prop_thrust + total_lift_rotor_thrust
@@ -527,7 +527,7 @@ class Lift_Cruise(Network):
         ss = segment.state 
         if segment.battery_discharge: 
             ss.conditions.propulsion.throttle_lift                       = 0.0 * ones_row(1)
-            ss.conditions.propulsion.lift_rotor_power_coefficient        = 0.0 * ones_row(1) 
+            ss.conditions.propulsion.lift_rotor_power_coefficient        = 0.0 * ones_row(1 if self.identical_lift_rotors else len(self.lift_rotors))
             ss.conditions.propulsion.propeller_power_coefficient         = segment.state.unknowns.propeller_power_coefficient
             ss.conditions.propulsion.throttle                            = segment.state.unknowns.throttle   
         else: 
@@ -572,7 +572,7 @@ class Lift_Cruise(Network):
         if segment.battery_discharge:
             ss.conditions.propulsion.throttle_lift                = segment.state.unknowns.throttle_lift 
             ss.conditions.propulsion.lift_rotor_power_coefficient = segment.state.unknowns.lift_rotor_power_coefficient
-            ss.conditions.propulsion.propeller_power_coefficient  = 0.0 * ones_row(1)
+            ss.conditions.propulsion.propeller_power_coefficient  = 0.0 * ones_row(1 if self.identical_propellers else len(self.propellers))
             ss.conditions.propulsion.throttle                     = 0.0 * ones_row(1)
         else: 
             ss.conditions.propulsion.propeller_power_coefficient  = 0.0 * ones_row(1) 
@@ -957,6 +957,7 @@ class Lift_Cruise(Network):
             initial_lift_rotor_power_coefficient = float(self.lift_rotors[prop_key].design_power_coefficient)     
             
         # Count how many unknowns and residuals based on p
+        n_props         = len(self.propellers)
         n_lift_rotors   = len(self.lift_rotors)
         n_motors_r = len(self.lift_rotor_motors)
         n_eng_r    = self.number_of_lift_rotor_engines
-- 
2.43.0


From 22769dc495c4b811a7a9019e5091cee25be79946 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:22:50 +0000
Subject: [PATCH 50/74] fix: landing gear weights are stored as component
 masses, BWB gear classes not exchanged, BWB and GA empty accept settings

---
 trunk/SUAVE/Methods/Weights/Buildups/eVTOL/empty.py    |  4 ++--
 trunk/SUAVE/Methods/Weights/Correlations/BWB/empty.py  | 10 +++++-----
 .../Weights/Correlations/Common/weight_transport.py    |  4 ++--
 .../Weights/Correlations/General_Aviation/empty.py     |  6 +++---
 4 files changed, 12 insertions(+), 12 deletions(-)

diff --git a/trunk/SUAVE/Methods/Weights/Buildups/eVTOL/empty.py b/trunk/SUAVE/Methods/Weights/Buildups/eVTOL/empty.py
index 707e6a7..9998da7 100644
--- a/trunk/SUAVE/Methods/Weights/Buildups/eVTOL/empty.py
+++ b/trunk/SUAVE/Methods/Weights/Buildups/eVTOL/empty.py
@@ -340,10 +340,10 @@ def empty(config,
     #-------------------------------------------------------------------------------
     if not hasattr(config.landing_gear, 'nose'):
         config.landing_gear.nose       = SUAVE.Components.Landing_Gear.Nose_Landing_Gear()
-    config.landing_gear.nose.mass      = 0.0
+    config.landing_gear.nose.mass_properties.mass      = 0.0
     if not hasattr(config.landing_gear, 'main'):
         config.landing_gear.main       = SUAVE.Components.Landing_Gear.Main_Landing_Gear()
-    config.landing_gear.main.mass      = output.landing_gear
+    config.landing_gear.main.mass_properties.mass      = output.landing_gear
 
     #-------------------------------------------------------------------------------
     # Fuselage  Weight
diff --git a/trunk/SUAVE/Methods/Weights/Correlations/BWB/empty.py b/trunk/SUAVE/Methods/Weights/Correlations/BWB/empty.py
index 15bebc7..4d4763b 100644
--- a/trunk/SUAVE/Methods/Weights/Correlations/BWB/empty.py
+++ b/trunk/SUAVE/Methods/Weights/Correlations/BWB/empty.py
@@ -28,7 +28,7 @@ import warnings
 # ----------------------------------------------------------------------
 
 ## @ingroup Methods-Weights-Correlations-BWB
-def empty(vehicle):
+def empty(vehicle,settings=None):
     """ This is for a BWB aircraft configuration.
 
     Assumptions:
@@ -201,10 +201,10 @@ def empty(vehicle):
     avionics                = SUAVE.Components.Energy.Peripherals.Avionics()
     optionals               = SUAVE.Components.Physical_Component()
 
-    vehicle.landing_gear.nose       = SUAVE.Components.Landing_Gear.Main_Landing_Gear()
-    vehicle.landing_gear.nose.mass  = output.structures.nose_landing_gear
-    vehicle.landing_gear.main       = SUAVE.Components.Landing_Gear.Nose_Landing_Gear()   
-    vehicle.landing_gear.main.mass  = output.structures.main_landing_gear  
+    vehicle.landing_gear.nose       = SUAVE.Components.Landing_Gear.Nose_Landing_Gear()
+    vehicle.landing_gear.nose.mass_properties.mass  = output.structures.nose_landing_gear
+    vehicle.landing_gear.main       = SUAVE.Components.Landing_Gear.Main_Landing_Gear()   
+    vehicle.landing_gear.main.mass_properties.mass  = output.structures.main_landing_gear  
 
     control_systems.mass_properties.mass    = output.systems_breakdown.control_systems
     electrical_systems.mass_properties.mass = output.systems_breakdown.electrical
diff --git a/trunk/SUAVE/Methods/Weights/Correlations/Common/weight_transport.py b/trunk/SUAVE/Methods/Weights/Correlations/Common/weight_transport.py
index 69529ae..c0037d9 100644
--- a/trunk/SUAVE/Methods/Weights/Correlations/Common/weight_transport.py
+++ b/trunk/SUAVE/Methods/Weights/Correlations/Common/weight_transport.py
@@ -395,10 +395,10 @@ def empty_weight(vehicle, settings=None, method_type='New SUAVE'):
 
     if not hasattr(vehicle.landing_gear, 'nose'):
         vehicle.landing_gear.nose       = SUAVE.Components.Landing_Gear.Nose_Landing_Gear()
-    vehicle.landing_gear.nose.mass  = output.structures.nose_landing_gear
+    vehicle.landing_gear.nose.mass_properties.mass  = output.structures.nose_landing_gear
     if not hasattr(vehicle.landing_gear, 'main'):
         vehicle.landing_gear.main       = SUAVE.Components.Landing_Gear.Main_Landing_Gear()   
-    vehicle.landing_gear.main.mass  = output.structures.main_landing_gear  
+    vehicle.landing_gear.main.mass_properties.mass  = output.structures.main_landing_gear  
 
     control_systems.mass_properties.mass        = output.systems_breakdown.control_systems
     electrical_systems.mass_properties.mass     = output.systems_breakdown.electrical
diff --git a/trunk/SUAVE/Methods/Weights/Correlations/General_Aviation/empty.py b/trunk/SUAVE/Methods/Weights/Correlations/General_Aviation/empty.py
index 74b2efd..31f591f 100644
--- a/trunk/SUAVE/Methods/Weights/Correlations/General_Aviation/empty.py
+++ b/trunk/SUAVE/Methods/Weights/Correlations/General_Aviation/empty.py
@@ -23,7 +23,7 @@ import warnings
 #  Empty
 # ----------------------------------------------------------------------
 ## @ingroup Methods-Weights-Correlations-General_Aviation
-def empty(vehicle):
+def empty(vehicle,settings=None):
     """ output = SUAVE.Methods.Weights.Correlations.Tube_Wing.empty(engine,wing,aircraft,fuselage,horizontal,vertical)
         Computes the empty weight breakdown of a General Aviation type aircraft  
         
@@ -386,10 +386,10 @@ def empty(vehicle):
 
     if not hasattr(vehicle.landing_gear, 'nose'):
         vehicle.landing_gear.nose       = SUAVE.Components.Landing_Gear.Nose_Landing_Gear()
-    vehicle.landing_gear.nose.mass  = output.structures.nose_landing_gear
+    vehicle.landing_gear.nose.mass_properties.mass  = output.structures.nose_landing_gear
     if not hasattr(vehicle.landing_gear, 'main'):
         vehicle.landing_gear.main       = SUAVE.Components.Landing_Gear.Main_Landing_Gear()   
-    vehicle.landing_gear.main.mass  = output.structures.main_landing_gear 
+    vehicle.landing_gear.main.mass_properties.mass  = output.structures.main_landing_gear 
     
     control_systems.mass_properties.mass    = output.systems_breakdown.control_systems
     electrical_systems.mass_properties.mass = output.systems_breakdown.electrical
-- 
2.43.0


From a9236269cd6128fe08ce69f7234d695792b031c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:22:50 +0000
Subject: [PATCH 51/74] fix: weight estimate keeps a flap ratio given on the
 main wing

---
 .../Correlations/Common/weight_transport.py       | 15 +++++++--------
 1 file changed, 7 insertions(+), 8 deletions(-)

diff --git a/trunk/SUAVE/Methods/Weights/Correlations/Common/weight_transport.py b/trunk/SUAVE/Methods/Weights/Correlations/Common/weight_transport.py
index c0037d9..699ee80 100644
--- a/trunk/SUAVE/Methods/Weights/Correlations/Common/weight_transport.py
+++ b/trunk/SUAVE/Methods/Weights/Correlations/Common/weight_transport.py
@@ -138,14 +138,13 @@ def empty_weight(vehicle, settings=None, method_type='New SUAVE'):
             raise ValueError("FLOPS requires a design range for sizing!")
         if not hasattr(vehicle, 'design_cruise_alt'):
             raise ValueError("FLOPS requires a cruise altitude for sizing!")
-        if not hasattr(vehicle, 'flap_ratio'):
-            if vehicle.systems.accessories == "sst":
-                flap_ratio = 0.22
-            else:
-                flap_ratio = 0.33
-            for wing in vehicle.wings:
-                if isinstance(wing, Wings.Main_Wing):
-                    wing.flap_ratio = flap_ratio
+        if vehicle.systems.accessories == "sst":
+            flap_ratio = 0.22
+        else:
+            flap_ratio = 0.33
+        for wing in vehicle.wings:
+            if isinstance(wing, Wings.Main_Wing) and not hasattr(wing, 'flap_ratio'):
+                wing.flap_ratio = flap_ratio
 
     # Set the factors
     if not hasattr(settings, 'weight_reduction_factors'):
-- 
2.43.0


From d2e803f9a6edf0a7b4c5f7e8208b0fe3dfe65d55 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:22:50 +0000
Subject: [PATCH 52/74] fix: T-tail vertical fin weight recognises t_tail =
 True

---
 .../Weights/Correlations/General_Aviation/tail_vertical.py      | 2 +-
 .../Methods/Weights/Correlations/Transport/tail_vertical.py     | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/trunk/SUAVE/Methods/Weights/Correlations/General_Aviation/tail_vertical.py b/trunk/SUAVE/Methods/Weights/Correlations/General_Aviation/tail_vertical.py
index 65fb3e0..b2b064c 100644
--- a/trunk/SUAVE/Methods/Weights/Correlations/General_Aviation/tail_vertical.py
+++ b/trunk/SUAVE/Methods/Weights/Correlations/General_Aviation/tail_vertical.py
@@ -50,7 +50,7 @@ def tail_vertical(S_v, AR_v, sweep_v, q_c, taper_v, t_c_v, Nult,TOW,t_tail, rudd
     q     = q_c /(Units.force_pound / Units.ft**2.)
 
     # Determine weight of the vertical portion of the tail
-    if t_tail == "yes": 
+    if t_tail == True or t_tail == "yes": 
         T_tail_factor = 1.# Weight of vertical portion of the T-tail is 25% more than a conventional tail
     else: 
         T_tail_factor = 0.
diff --git a/trunk/SUAVE/Methods/Weights/Correlations/Transport/tail_vertical.py b/trunk/SUAVE/Methods/Weights/Correlations/Transport/tail_vertical.py
index 3b4c56a..54807a7 100644
--- a/trunk/SUAVE/Methods/Weights/Correlations/Transport/tail_vertical.py
+++ b/trunk/SUAVE/Methods/Weights/Correlations/Transport/tail_vertical.py
@@ -55,7 +55,7 @@ def tail_vertical(vehicle, wing, rudder_fraction=0.25):
     Sref    = vehicle.reference_area / Units.ft ** 2  # Convert from meters squared to ft squared
     t_c_v   = wing.thickness_to_chord
     # Determine weight of the vertical portion of the tail
-    if wing.t_tail == "yes":
+    if wing.t_tail == True or wing.t_tail == "yes":
         T_tail_factor = 1.25  # Weight of vertical portion of the T-tail is 25% more than a conventional tail
     else:
         T_tail_factor = 1.0
-- 
2.43.0


From 99cab0e610deafcb68f400afcc329c5ef2358d87 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:22:50 +0000
Subject: [PATCH 53/74] fix: general aviation landing gear, FLOPS wing and
 human powered weights evaluate (Data instance, number of fuselages, vehicle
 fuselages)

---
 trunk/SUAVE/Methods/Weights/Correlations/FLOPS/wing.py          | 2 +-
 .../Weights/Correlations/General_Aviation/landing_gear.py       | 2 +-
 trunk/SUAVE/Methods/Weights/Correlations/Human_Powered/empty.py | 2 +-
 3 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/trunk/SUAVE/Methods/Weights/Correlations/FLOPS/wing.py b/trunk/SUAVE/Methods/Weights/Correlations/FLOPS/wing.py
index 2162c05..67acc36 100644
--- a/trunk/SUAVE/Methods/Weights/Correlations/FLOPS/wing.py
+++ b/trunk/SUAVE/Methods/Weights/Correlations/FLOPS/wing.py
@@ -213,7 +213,7 @@ def wing_weight_FLOPS(vehicle, wing, WPOD, complexity, settings, num_main_wings)
     ULF     = vehicle.envelope.ultimate_load
     if len(vehicle.fuselages) == 1:
         CAYF    = 1  # Multiple fuselage factor [1 one fuselage, 0.5 multiple fuselages]
-    elif len(vehicle.fuselage) > 1:
+    elif len(vehicle.fuselages) > 1:
         CAYF    = 0.5
     else:
         raise NotImplementedError
diff --git a/trunk/SUAVE/Methods/Weights/Correlations/General_Aviation/landing_gear.py b/trunk/SUAVE/Methods/Weights/Correlations/General_Aviation/landing_gear.py
index bc6c142..439ab8e 100644
--- a/trunk/SUAVE/Methods/Weights/Correlations/General_Aviation/landing_gear.py
+++ b/trunk/SUAVE/Methods/Weights/Correlations/General_Aviation/landing_gear.py
@@ -41,7 +41,7 @@ def landing_gear(landing_weight, Nult, strut_length_main, strut_length_nose):
     nose_weight = .125*((Nult*W_l)**.566)*(l_n/12.)**.845
 
     #pack outputs
-    output = Data
+    output = Data()
     output.main = main_weight*Units.lbs
     output.nose = nose_weight*Units.lbs
 
diff --git a/trunk/SUAVE/Methods/Weights/Correlations/Human_Powered/empty.py b/trunk/SUAVE/Methods/Weights/Correlations/Human_Powered/empty.py
index 0ea6d34..56a2650 100644
--- a/trunk/SUAVE/Methods/Weights/Correlations/Human_Powered/empty.py
+++ b/trunk/SUAVE/Methods/Weights/Correlations/Human_Powered/empty.py
@@ -134,7 +134,7 @@ def empty(vehicle,settings=None):
     else: 
         Ltb     = vehicle.Ltb  
         wt_tb   = fuselage.fuselage(S_h,qm,Ltb)
-        vehicle.Fuselages['fuselage'].mass_properties.mass = wt_tb
+        vehicle.fuselages['fuselage'].mass_properties.mass = wt_tb
     
     weight                 = Data()
     weight.wing            = wt_wing
-- 
2.43.0


From 3f0dd29c71ea534d3b82bc235626c6d3a9a8a2a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:22:50 +0000
Subject: [PATCH 54/74] fix: component centres of gravity: every network,
 origins, hydraulics, vertical tails and main gear enter the balance where
 they are

---
 .../compute_component_centers_of_gravity.py       | 15 ++++++++-------
 1 file changed, 8 insertions(+), 7 deletions(-)

diff --git a/trunk/SUAVE/Methods/Center_of_Gravity/compute_component_centers_of_gravity.py b/trunk/SUAVE/Methods/Center_of_Gravity/compute_component_centers_of_gravity.py
index c7647a2..960231a 100644
--- a/trunk/SUAVE/Methods/Center_of_Gravity/compute_component_centers_of_gravity.py
+++ b/trunk/SUAVE/Methods/Center_of_Gravity/compute_component_centers_of_gravity.py
@@ -63,8 +63,8 @@ def compute_component_centers_of_gravity(vehicle, nose_load = 0.06):
                                                                           h_tail_35_percent_semi_span_offset            
 
         elif isinstance(wing,C.Wings.Vertical_Tail):
-            chord_length_v_tail_35_percent_semi_span  = compute_chord_length_from_span_location(wing,.35*wing.spans.projected)
-            v_tail_35_percent_semi_span_offset        = np.tan(wing.sweeps.quarter_chord)*.35*.5*wing.spans.projected
+            chord_length_v_tail_35_percent_semi_span  = compute_chord_length_from_span_location(wing,.35*wing.spans.projected*.5)
+            v_tail_35_percent_semi_span_offset        = np.tan(wing.sweeps.quarter_chord)*.35*wing.spans.projected
             wing.mass_properties.center_of_gravity[0][0] = .3*chord_length_v_tail_35_percent_semi_span + \
                                                                         v_tail_35_percent_semi_span_offset
         else:
@@ -80,13 +80,13 @@ def compute_component_centers_of_gravity(vehicle, nose_load = 0.06):
     for net in vehicle.networks:
         net.mass_properties.center_of_gravity[0][0] = net.engine_length*.5
         network_mass                               += net.mass_properties.mass
-        network_moment                             += network_mass*(np.sum(np.array(net.origin),axis=0) +
+        network_moment                             += net.mass_properties.mass*(np.mean(np.array(net.origin),axis=0) +
                                                                          net.mass_properties.center_of_gravity)
 
         for key,Comp in net.items():
             if isinstance(Comp,Energy_Component):
                 network_moment += net[key].mass_properties.mass*(np.sum(np.array(net[key].origin),axis=0) +
-                                                                     net[key].mass_properties.center_of_gravity)
+                                                                     len(net[key].origin)*net[key].mass_properties.center_of_gravity)
                 network_mass   += net[key].mass_properties.mass*len(net[key].origin)
 
     if network_mass!= 0.:
@@ -175,7 +175,7 @@ def compute_component_centers_of_gravity(vehicle, nose_load = 0.06):
     electrical_systems.mass_properties.center_of_gravity[0][0] = 0.0
     
     hydraulics.origin[0][0]                                    = .75*(vehicle.wings.main_wing.origin[0][0] + \
-                                                                      wing.mass_properties.center_of_gravity[0][0]) + 0.25* \
+                                                                      vehicle.wings.main_wing.mass_properties.center_of_gravity[0][0]) + 0.25* \
                                                                      length_scale*.95
     hydraulics.mass_properties.center_of_gravity[0][0]         = 0.0       
     
@@ -186,9 +186,10 @@ def compute_component_centers_of_gravity(vehicle, nose_load = 0.06):
     nose_gear.mass_properties.center_of_gravity[0][0]          = 0.0   
     
     # Main gear
-    moment_sans_main = vehicle.center_of_gravity()[0][0]*(vehicle.sum_mass()-main_gear.mass_properties.mass)
+    main_gear.mass_properties.center_of_gravity                = np.array([[0.0,0.0,0.0]])
+    main_gear.origin[0][0]                                     = 0.0 # carries no moment of its own below
+    moment_sans_main = vehicle.center_of_gravity()[0][0]*vehicle.sum_mass()
     
     main_gear_location = moment_sans_main/(vehicle.mass_properties.takeoff-main_gear.mass_properties.mass)/(1-nose_load)
     main_gear.origin[0][0]                                     = main_gear_location
-    main_gear.mass_properties.center_of_gravity                = 0.0
     
-- 
2.43.0


From 9dd9ab1761af168780d800d806381adf592f4280 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:22:50 +0000
Subject: [PATCH 55/74] fix: neutral point is measured from the mission centre
 of gravity at every control point, roll mode uses the roll inertia

---
 trunk/SUAVE/Analyses/Stability/Fidelity_Zero.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/trunk/SUAVE/Analyses/Stability/Fidelity_Zero.py b/trunk/SUAVE/Analyses/Stability/Fidelity_Zero.py
index 604ea79..d8b4be0 100644
--- a/trunk/SUAVE/Analyses/Stability/Fidelity_Zero.py
+++ b/trunk/SUAVE/Analyses/Stability/Fidelity_Zero.py
@@ -23,6 +23,7 @@ from .Stability import Stability
 from SUAVE.Methods.Flight_Dynamics.Static_Stability.Approximations.Tube_Wing.taw_cmalpha import taw_cmalpha
 from SUAVE.Methods.Flight_Dynamics.Static_Stability.Approximations.Tube_Wing.taw_cnbeta import taw_cnbeta
 from SUAVE.Methods.Flight_Dynamics.Static_Stability.Approximations.datcom import datcom
+from SUAVE.Methods.Center_of_Gravity.compute_mission_center_of_gravity import compute_mission_center_of_gravity
 from SUAVE.Methods.Flight_Dynamics.Dynamic_Stability import Approximations as Approximations
 from SUAVE.Methods.Flight_Dynamics.Dynamic_Stability import Full_Linearized_Equations as Full_Linearized_Equations
 from SUAVE.Methods.Flight_Dynamics.Dynamic_Stability.Full_Linearized_Equations import Supporting_Functions as Supporting_Functions
@@ -131,7 +132,6 @@ class Fidelity_Zero(Stability):
         density       = conditions.freestream.density
         Span          = geometry.wings['main_wing'].spans.projected
         mac           = geometry.wings['main_wing'].chords.mean_aerodynamic
-        cg_x          = geometry.mass_properties.center_of_gravity[0]  
         aero          = conditions.aerodynamics
 
         # set up data structures
@@ -161,6 +161,9 @@ class Fidelity_Zero(Stability):
         stability.static.static_margin = -stability.static.Cm_alpha/conditions.lift_curve_slope
         
         # neutral point 
+        # measured from the mission center of gravity the moment slope was taken about
+        fuel_weights  = conditions.weights.total_mass - configuration.mass_properties.max_zero_fuel
+        cg_x          = np.atleast_2d(compute_mission_center_of_gravity(configuration, fuel_weights)[:,0]).T
         stability.static.neutral_point = cg_x + mac*stability.static.static_margin
         
         # Dynamic Stability
@@ -199,7 +202,7 @@ class Fidelity_Zero(Stability):
             stability.dynamic.dutchRollDamping            = dutch_roll.damping_ratio
 
             if stability.static.Cl_p.all() != 0:
-                stability.dynamic.rollSubsistenceTimeConstant   = Approximations.roll(configuration.mass_properties.moments_of_inertia.tensor[2][2], Sref, density, velocity, Span, stability.static.Cl_p)      
+                stability.dynamic.rollSubsistenceTimeConstant   = Approximations.roll(configuration.mass_properties.moments_of_inertia.tensor[0][0], Sref, density, velocity, Span, stability.static.Cl_p)      
                 stability.static.Cy_phi                                  = Supporting_Functions.cy_phi(aero.lift_coefficient)
                 stability.static.Cl_r                                    = Supporting_Functions.cl_r(aero.lift_coefficient) # Will need to be changed
                 stability.dynamic.spiralSubsistenceTimeConstant = Approximations.spiral(conditions.weights.total_mass, velocity, density, Sref, stability.static.Cl_p, stability.static.Cn_beta, stability.static.Cy_phi,\
-- 
2.43.0


From 2a9808fec1b60970bb62f320437a83a8db04ba35 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:22:50 +0000
Subject: [PATCH 56/74] fix: tube and wing pitching moment at zero lift: sign
 of the lift moment

---
 .../Static_Stability/Approximations/Tube_Wing/taw_cmalpha.py    | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/trunk/SUAVE/Methods/Flight_Dynamics/Static_Stability/Approximations/Tube_Wing/taw_cmalpha.py b/trunk/SUAVE/Methods/Flight_Dynamics/Static_Stability/Approximations/Tube_Wing/taw_cmalpha.py
index f097d82..a560602 100644
--- a/trunk/SUAVE/Methods/Flight_Dynamics/Static_Stability/Approximations/Tube_Wing/taw_cmalpha.py
+++ b/trunk/SUAVE/Methods/Flight_Dynamics/Static_Stability/Approximations/Tube_Wing/taw_cmalpha.py
@@ -136,7 +136,7 @@ def taw_cmalpha(geometry,mach,conditions,configuration):
         #Calculate Cm_alpha contributions
         l_surf    = x_surf + x_ac_surf - x_cg
         Cma       = -l_surf*s/(mac*Sref)*(CL_alpha*eta*downw)*(1. - vertical)
-        cmo       = cmac+ s*eta*CL0_surf*l_surf*downw*(1. - vertical)/(mac*Sref)
+        cmo       = cmac- s*eta*CL0_surf*l_surf*downw*(1. - vertical)/(mac*Sref)
         CmAlpha_surf.append(Cma)
         Cm0_surf.append(cmo)
         
-- 
2.43.0


From 2056a47ea952ca5c8d335309c749d9a3df0577ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:22:50 +0000
Subject: [PATCH 57/74] fix: full linearised lateral equations: dutch roll
 damping and mode identification

---
 .../Full_Linearized_Equations/lateral_directional.py | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/trunk/SUAVE/Methods/Flight_Dynamics/Dynamic_Stability/Full_Linearized_Equations/lateral_directional.py b/trunk/SUAVE/Methods/Flight_Dynamics/Dynamic_Stability/Full_Linearized_Equations/lateral_directional.py
index 6744c8c..28f85a4 100644
--- a/trunk/SUAVE/Methods/Flight_Dynamics/Dynamic_Stability/Full_Linearized_Equations/lateral_directional.py
+++ b/trunk/SUAVE/Methods/Flight_Dynamics/Dynamic_Stability/Full_Linearized_Equations/lateral_directional.py
@@ -90,12 +90,14 @@ def lateral_directional(velocity, Cn_Beta, S_gross_w, density, span, I_z, Cn_r,
     poly  = total / total[5]
     
     # Generate the time constant for the spiral and roll modes along with the damping and natural frequency for the dutch roll mode
+    # the roots are the inverses of the eigenvalues, as the coefficients are in ascending order
     root       = np.roots(poly)
-    root       = sorted(root,reverse=True)
-    spiral_tau = 1 * root[0].real
-    w_n        = (root[1].imag**2 + root[1].real**2)**(-0.5)
-    zeta       = -2*root[1].real/w_n
-    roll_tau   = 1 * root [3].real
+    pair       = root[np.argmax(np.abs(root.imag))]
+    subsidence = sorted(root[root.imag==0.].real, key=abs)
+    spiral_tau = subsidence[-1]
+    w_n        = np.abs(pair)**(-1.)
+    zeta       = -pair.real*w_n
+    roll_tau   = subsidence[0]
     
     output = Data()
     output.dutch_natural_frequency = w_n
-- 
2.43.0


From 756e761c8b65a71b4618709cc12496635ea2209e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:22:50 +0000
Subject: [PATCH 58/74] fix: dynamic flight modes: angle of attack in radians,
 reference chord, Cm_u, inertia rotation, yaw sign and mode identification

---
 .../compute_dynamic_flight_modes.py              | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/trunk/SUAVE/Methods/Flight_Dynamics/Dynamic_Stability/compute_dynamic_flight_modes.py b/trunk/SUAVE/Methods/Flight_Dynamics/Dynamic_Stability/compute_dynamic_flight_modes.py
index 387dd79..74d7b3e 100644
--- a/trunk/SUAVE/Methods/Flight_Dynamics/Dynamic_Stability/compute_dynamic_flight_modes.py
+++ b/trunk/SUAVE/Methods/Flight_Dynamics/Dynamic_Stability/compute_dynamic_flight_modes.py
@@ -51,7 +51,7 @@ def compute_dynamic_flight_modes(results,aircraft,flight_conditions,cases):
         surf.ep_alpha = Supporting_Functions.ep_alpha(surf.CL_alpha, sref, span) 
         
     # Unpack aircraft Properties
-    theta0 = results.aerodynamics.AoA
+    theta0 = results.aerodynamics.AoA * Units.degrees
     AoA    = results.aerodynamics.AoA
     CLtot  = results.aerodynamics.lift_coefficient 
     CDtot  = results.aerodynamics.drag_coefficient
@@ -104,7 +104,7 @@ def compute_dynamic_flight_modes(results,aircraft,flight_conditions,cases):
     Zw         = 0.5 * rho * u0 * S_ref * Czalpha
     Czq        = -st.CL_q 
     Zq         = 0.25 * rho * u0 * c_ref * S_ref * Czq
-    Cmu        = st.Cm_q   
+    Cmu        = st.Cm_u   
     Mu         = 0.5 * rho * u0 * c_ref * S_ref * Cmu
     Mw         = 0.5 * rho * u0 * c_ref * S_ref * st.Cm_alpha
     Mq         = 0.25 * rho * u0 * c_ref * c_ref * S_ref * st.Cm_q 
@@ -120,7 +120,7 @@ def compute_dynamic_flight_modes(results,aircraft,flight_conditions,cases):
         st.Cz_alpha_dot = 0
         
     ZwDot      = 0.25 * rho * c_ref * S_ref * st.Cz_alpha_dot    
-    MwDot      = 0.25 * rho * c_ref * S_ref * st.Cm_alpha_dot 
+    MwDot      = 0.25 * rho * c_ref * c_ref * S_ref * st.Cm_alpha_dot 
     
     # Elevator effectiveness 
     for wing in aircraft.wings:
@@ -170,13 +170,13 @@ def compute_dynamic_flight_modes(results,aircraft,flight_conditions,cases):
         LonModes[i,:] = D
         
         # Find phugoid
-        phugoidInd               = np.argmax(V[0,:]) # u is the primary state involved
+        phugoidInd               = np.argmax(np.abs(V[0,:])) # u is the primary state involved
         phugoidFreqHz[i]         = abs(LonModes[i,phugoidInd]) / 2 / np.pi
         phugoidDamping[i]        = -np.cos(np.angle(LonModes[i,phugoidInd]))
         phugoidTimeDoubleHalf[i] = np.log(2) / abs(2 * np.pi * phugoidFreqHz[i] * phugoidDamping[i])
         
         # Find short period
-        shortPeriodInd               = np.argmax(V[1,:]) # w is the primary state involved
+        shortPeriodInd               = np.argmax(np.abs(V[1,:])) # w is the primary state involved
         shortPeriodFreqHz[i]         = abs(LonModes[i, shortPeriodInd]) / 2 / np.pi
         shortPeriodDamping[i]        = -np.cos(np.angle(LonModes[i, shortPeriodInd ]))
         shortPeriodTimeDoubleHalf[i] = np.log(2) / abs(2 * np.pi * shortPeriodFreqHz[i] * shortPeriodDamping[i]) 
@@ -195,9 +195,9 @@ def compute_dynamic_flight_modes(results,aircraft,flight_conditions,cases):
     Ixzp = np.zeros((num_cases,1))
     
     for i in range(num_cases): 
-        R       = np.array( [[np.cos(AoA[i][0]*Units.degrees) ,  - np.sin(AoA[i][0]*Units.degrees) ], [ np.sin( AoA[i][0]*Units.degrees) , np.cos(AoA[i][0]*Units.degrees)]])
+        R       = np.array( [[np.cos(AoA[i][0]*Units.degrees) ,  np.sin(AoA[i][0]*Units.degrees) ], [ -np.sin( AoA[i][0]*Units.degrees) , np.cos(AoA[i][0]*Units.degrees)]])
         modI    = np.array([[moments_of_inertia[0][0],moments_of_inertia[0][2]],[moments_of_inertia[2][0],moments_of_inertia[2][2]]] ) 
-        INew    = R * modI  * np.transpose(R)
+        INew    = R @ modI  @ np.transpose(R)
         IxxStab =  INew[0,0]
         IxzStab = -INew[0,1]
         IzzStab =  INew[1,1]
@@ -306,7 +306,7 @@ def compute_dynamic_flight_modes(results,aircraft,flight_conditions,cases):
     results.dynamic_stability           = Data()
     results.dynamic_stability.LongModes = Data()
     results.dynamic_stability.LatModes  = Data()
-    results.dynamic_stability.pMax = min(min(np.sqrt(-Mw * u0 / (Izz - Ixx))), min(np.sqrt(-Nv * u0 / (Iyy - Ixx)))) 
+    results.dynamic_stability.pMax = min(min(np.sqrt(-Mw * u0 / (Izz - Ixx))), min(np.sqrt(Nv * u0 / (Iyy - Ixx)))) 
     
     # -----------------------------------------------------------------------------------------------------------------------  
     # Store Results
-- 
2.43.0


From 190d129b5e97fc39b9532937f308c12afb290ad0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:22:50 +0000
Subject: [PATCH 59/74] fix: perceived noise level applies the noy table to all
 24 bands, tone correction follows FAR 36 over 24 bands

---
 .../Noise_Tools/noise_tone_correction.py      | 57 +++++++++----------
 .../Fidelity_One/Noise_Tools/pnl_noise.py     |  4 +-
 2 files changed, 29 insertions(+), 32 deletions(-)

diff --git a/trunk/SUAVE/Methods/Noise/Fidelity_One/Noise_Tools/noise_tone_correction.py b/trunk/SUAVE/Methods/Noise/Fidelity_One/Noise_Tools/noise_tone_correction.py
index 2dc6518..3a0fe54 100644
--- a/trunk/SUAVE/Methods/Noise/Fidelity_One/Noise_Tools/noise_tone_correction.py
+++ b/trunk/SUAVE/Methods/Noise/Fidelity_One/Noise_Tools/noise_tone_correction.py
@@ -38,9 +38,9 @@ def noise_tone_correction(SPL):
         
     # Defining the necessary arrays for the tone correction procedure
     nsteps              = len(SPL)
-    slope               = np.zeros(23)
-    aux_ds              = np.zeros(23)
-    delta_slope         = np.zeros(23)
+    slope               = np.zeros(24)
+    aux_ds              = np.zeros(24)
+    delta_slope         = np.zeros(24)
     tone_correction_max = np.zeros(nsteps)
     
     for j in range(0,nsteps):
@@ -48,13 +48,13 @@ def noise_tone_correction(SPL):
         #------------------------------------------------------------
         #STEP 1 - Calculation of slopes in the one-third octave bands
         #------------------------------------------------------------
-        for i in range(3,23):
+        for i in range(3,24):
             slope[i] = SPL[j][i]-SPL[j][i-1]
         
         #------------------------------------------------------------
         #STEP 2 - Encircle the necessary values of the slope
         #------------------------------------------------------------    
-        for i in range(3,23):        
+        for i in range(4,24):        
             aux_ds[i] = np.abs(slope[i]-slope[i-1])
             
             if aux_ds[i]>5:
@@ -64,10 +64,10 @@ def noise_tone_correction(SPL):
         #------------------------------------------------------------
         #STEP 3 - Encircle the slope
         #------------------------------------------------------------
-        step3  = np.zeros(23)
-        step3a = np.zeros(23)
-        step3b = np.zeros(23)
-        for i in range(3,23):
+        step3  = np.zeros(24)
+        step3a = np.zeros(24)
+        step3b = np.zeros(24)
+        for i in range(4,24):
             if delta_slope[i]==1 and slope[i]>0 and slope[i]>slope[i-1]:
                 step3a[i]   = 1
             if  delta_slope[i]==1 and slope[i]<=0 and slope[i-1]>0:
@@ -77,11 +77,11 @@ def noise_tone_correction(SPL):
         #------------------------------------------------------------
         #STEP 4 - Compute new adjusted sound pressure level
         #------------------------------------------------------------        
-        step4 = np.zeros(23)
-        for i in range(1,23):
+        step4 = np.zeros(24)
+        for i in range(1,24):
             if step3[i]!=0 and i<23:
                 step4[i] = (SPL[j][i-1]+SPL[j][i+1])/2
-            if step3[i]!=0 and i==22:
+            if step3[i]!=0 and i==23:
                 step4[i] = SPL[j][i-1]+slope[i-1]
             if step3[i]==0:
                 step4[i] = SPL[j][i]
@@ -90,7 +90,7 @@ def noise_tone_correction(SPL):
         #STEP 5 - Recompute new slope
         #------------------------------------------------------------    
         step5 = np.zeros(25)
-        for i in range(3,23):
+        for i in range(3,24):
             step5[i]=step4[i]-step4[i-1]
         step5[2]  = step5[3]
         step5[24] = step5[23]
@@ -99,18 +99,15 @@ def noise_tone_correction(SPL):
         #STEP 6 - Compute the arithmetic average of the three adjacent slopes
         #------------------------------------------------------------
         step6 = np.zeros(23)
-        for i in range(2,22):
-            if i==22:
-                step6[i] = (step5[i]+step5[i+1])/3.
-            else:
-                step6[i] = (step5[i]+step5[i+1]+step5[i+2])/3.
+        for i in range(2,23):
+            step6[i] = (step5[i]+step5[i+1]+step5[i+2])/3.
         
         #------------------------------------------------------------
         #STEP 7 - Compute the final 1/3 octave band
         #------------------------------------------------------------
         step7 = np.zeros(24)
         step7[2]=SPL[j][2]
-        for i in range(3,23):
+        for i in range(3,24):
             step7[i] = step7[i-1]+step6[i-1]
         
         #------------------------------------------------------------
@@ -118,13 +115,13 @@ def noise_tone_correction(SPL):
         #------------------------------------------------------------    
         step8 = np.zeros(24)
         step8_aux = np.zeros(24)
-        for i in range(2,16):
+        for i in range(2,17):
             step8_aux[i] = SPL[j][i]-step7[i]
             if step8_aux[i]>=1.5:
                 step8[i] = step8_aux[i]
             else:
                 step8[i]=0.
-        for i in range(17,22):
+        for i in range(17,23):
             step8_aux[i] = SPL[j][i]-step7[i]
             if step8_aux[i]>=1.5 and SPL[j][i]>0 and SPL[j][i+1]>0 and SPL[j][i-1]>0:
                 step8[i] = step8_aux[i]
@@ -140,33 +137,33 @@ def noise_tone_correction(SPL):
         #------------------------------------------------------------
         #STEP 9 - Determine tone correction factors for each 1/3 octave band
         #------------------------------------------------------------
-        tone_correction = np.zeros(23)
-        for i in range(2,9):
+        tone_correction = np.zeros(24)
+        for i in range(2,10):
             if step8[i]>=1.5 and step8[i]<3:
                 tone_correction[i] = (step8[i]/3)-0.5
             if step8[i]>=3 and step8[i]<20:
                 tone_correction[i] = step8[i]/6.
-            if step8[i]>20:
+            if step8[i]>=20:
                 tone_correction[i] = 3+(1/3)
-        for i in range(10,20):
+        for i in range(10,21):
             if step8[i]>=1.5 and step8[i]<3:
                 tone_correction[i] = (2/3)*(step8[i])-1
             if step8[i]>=3 and step8[i]<20:
                 tone_correction[i] = step8[i]/3.
-            if step8[i]>20:
+            if step8[i]>=20:
                 tone_correction[i] = 6+(2/3)
-        for i in range(21,23):
+        for i in range(21,24):
             if step8[i]>=1.5 and step8[i]<3:
                 tone_correction[i] = (step8[i]/3)-(1/2)
             if step8[i]>=3 and step8[i]<20:
                 tone_correction[i] = step8[i]/6.
-            if step8[i]>20:
+            if step8[i]>=20:
                 tone_correction[i] = 3+(1/3)
                 
         #------------------------------------------------------------
         #STEP 10 - Largest tone correction factor
         #------------------------------------------------------------
         tone_correction_max[j] = np.max(tone_correction)
-    
-        return tone_correction_max
+
+    return tone_correction_max
     
\ No newline at end of file
diff --git a/trunk/SUAVE/Methods/Noise/Fidelity_One/Noise_Tools/pnl_noise.py b/trunk/SUAVE/Methods/Noise/Fidelity_One/Noise_Tools/pnl_noise.py
index 1a3bae7..bd92953 100644
--- a/trunk/SUAVE/Methods/Noise/Fidelity_One/Noise_Tools/pnl_noise.py
+++ b/trunk/SUAVE/Methods/Noise/Fidelity_One/Noise_Tools/pnl_noise.py
@@ -71,8 +71,8 @@ def pnl_noise (SPL):
     #-------------------------------------------  
     for j in range(0,nsteps):
     
-        for i in range(0,23):
-            if SPL[j][i]>=noy[1][2]:
+        for i in range(0,24):
+            if SPL[j][i]>=noy[i][2]:
                 SPL_noy[j][i] = 10**(noy[i][8]*(SPL[j][i]-noy[i][4]))
                 
             if SPL[j][i]>=noy[i][3] and SPL[j][i]<noy[i][2]:
-- 
2.43.0


From 6b102c6beb7aea7b1008b918c2e9c873caaec898 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:22:50 +0000
Subject: [PATCH 60/74] fix: EPNL and SENEL integrate over the 10 dB-down
 window of the history

---
 .../Methods/Noise/Fidelity_One/Noise_Tools/epnl_noise.py      | 4 ++--
 .../Methods/Noise/Fidelity_One/Noise_Tools/senel_noise.py     | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/trunk/SUAVE/Methods/Noise/Fidelity_One/Noise_Tools/epnl_noise.py b/trunk/SUAVE/Methods/Noise/Fidelity_One/Noise_Tools/epnl_noise.py
index 201aebc..827a983 100644
--- a/trunk/SUAVE/Methods/Noise/Fidelity_One/Noise_Tools/epnl_noise.py
+++ b/trunk/SUAVE/Methods/Noise/Fidelity_One/Noise_Tools/epnl_noise.py
@@ -54,7 +54,7 @@ def epnl_noise(PNLT):
 
     # Correction for PNLTM-10 when it falls outside the limit of the data
     if PNLT[nsteps-1]>=(PNLT_max-10):
-        t2=nsteps-2
+        t2=nsteps-1
     else:
         while i<=nsteps and PNLT[i]>=(PNLT_max-10):
             i = i+1
@@ -62,7 +62,7 @@ def epnl_noise(PNLT):
     
     # Calculates the integral of the PNLT which between t1 and t2 points
     sumation = 0
-    for i in range (t1-1,t2+1):
+    for i in range (max(t1-1,0),t2+1):
         sumation = 10**(PNLT[i]/10)+sumation
         
     # Duration Correction calculation
diff --git a/trunk/SUAVE/Methods/Noise/Fidelity_One/Noise_Tools/senel_noise.py b/trunk/SUAVE/Methods/Noise/Fidelity_One/Noise_Tools/senel_noise.py
index adb31ea..6a9e392 100644
--- a/trunk/SUAVE/Methods/Noise/Fidelity_One/Noise_Tools/senel_noise.py
+++ b/trunk/SUAVE/Methods/Noise/Fidelity_One/Noise_Tools/senel_noise.py
@@ -48,7 +48,7 @@ def senel_noise(SPLt_dBA_max):
 
     # Correction for PNLTM-10 when it falls outside the limit of the data
     if SPLt_dBA_max[nsteps-1]>=(dBA_max-10):
-        t2=nsteps-2
+        t2=nsteps-1
     else:
         while i<=nsteps and SPLt_dBA_max[i]>=(dBA_max-10):
             i = i+1
@@ -56,7 +56,7 @@ def senel_noise(SPLt_dBA_max):
         
     # Calculates the integral of the PNLT which between t1 and t2 points
     sumation = 0
-    for i in range (t1-1,t2+1):
+    for i in range (max(t1-1,0),t2+1):
         sumation = 10**(SPLt_dBA_max[i]/10)+sumation
         
     SENEL = 10*np.log10(sumation)
-- 
2.43.0


From abc85c796c315abaad6221ab8337a3b516e053a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:22:50 +0000
Subject: [PATCH 61/74] fix: building microphones: one side of the faces has as
 many points as the other

---
 .../Noise_Tools/generate_microphone_points.py        | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/trunk/SUAVE/Methods/Noise/Fidelity_One/Noise_Tools/generate_microphone_points.py b/trunk/SUAVE/Methods/Noise/Fidelity_One/Noise_Tools/generate_microphone_points.py
index 6488864..9f9b68c 100644
--- a/trunk/SUAVE/Methods/Noise/Fidelity_One/Noise_Tools/generate_microphone_points.py
+++ b/trunk/SUAVE/Methods/Noise/Fidelity_One/Noise_Tools/generate_microphone_points.py
@@ -114,9 +114,9 @@ def generate_building_microphone_points(building_locations,building_dimensions,N
     z_coords_2     = non_dim_z_2*Z_2 
     start_idx_2    = end_idx_1    
     end_idx_2      = start_idx_2 + num_mics_on_xz_surface  
-    b_mic_locations[:,start_idx_2:end_idx_2 ,0] = x_coords_2.reshape(N_b,N_y*N_z)
-    b_mic_locations[:,start_idx_2:end_idx_2 ,1] = y_coords_2.reshape(N_b,N_y*N_z)
-    b_mic_locations[:,start_idx_2:end_idx_2 ,2] = z_coords_2.reshape(N_b,N_y*N_z)  
+    b_mic_locations[:,start_idx_2:end_idx_2 ,0] = x_coords_2.reshape(N_b,N_x*N_z)
+    b_mic_locations[:,start_idx_2:end_idx_2 ,1] = y_coords_2.reshape(N_b,N_x*N_z)
+    b_mic_locations[:,start_idx_2:end_idx_2 ,2] = z_coords_2.reshape(N_b,N_x*N_z)  
         
     # surface 3 (back) 
     x_coords_3     = np.repeat(np.repeat(np.atleast_2d(x0+l/2).T,N_y,axis = 1)[:,:,np.newaxis],N_z,axis = 2) 
@@ -145,9 +145,9 @@ def generate_building_microphone_points(building_locations,building_dimensions,N
     z_coords_4     = non_dim_z_4*Z_4 
     start_idx_4    = end_idx_3 
     end_idx_4      = start_idx_4 + num_mics_on_xz_surface      
-    b_mic_locations[:,start_idx_4:end_idx_4 ,0] = x_coords_4.reshape(N_b,N_y*N_z)      
-    b_mic_locations[:,start_idx_4:end_idx_4 ,1] = y_coords_4.reshape(N_b,N_y*N_z)      
-    b_mic_locations[:,start_idx_4:end_idx_4 ,2] = z_coords_4.reshape(N_b,N_y*N_z)      
+    b_mic_locations[:,start_idx_4:end_idx_4 ,0] = x_coords_4.reshape(N_b,N_x*N_z)      
+    b_mic_locations[:,start_idx_4:end_idx_4 ,1] = y_coords_4.reshape(N_b,N_x*N_z)      
+    b_mic_locations[:,start_idx_4:end_idx_4 ,2] = z_coords_4.reshape(N_b,N_x*N_z)      
     
     # surface 5 (top) 
     X_5            = np.repeat(np.repeat(np.atleast_2d(x0).T,N_x,axis = 1)[:,:,np.newaxis],N_y,axis = 2)
-- 
2.43.0


From 89f06432210cfa24b8bdce63c9a114a94b7007a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:22:50 +0000
Subject: [PATCH 62/74] fix: Fink airframe noise: main strut length and nose
 tyre diameter not exchanged

---
 .../Noise/Fidelity_One/Airframe/noise_airframe_Fink.py        | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/trunk/SUAVE/Methods/Noise/Fidelity_One/Airframe/noise_airframe_Fink.py b/trunk/SUAVE/Methods/Noise/Fidelity_One/Airframe/noise_airframe_Fink.py
index 733de00..27ec67e 100644
--- a/trunk/SUAVE/Methods/Noise/Fidelity_One/Airframe/noise_airframe_Fink.py
+++ b/trunk/SUAVE/Methods/Noise/Fidelity_One/Airframe/noise_airframe_Fink.py
@@ -99,8 +99,8 @@ def noise_airframe_Fink(segment,analyses,config,settings,ioprint = 0, filename=0
     Sf       = flap.area  / (Units.ft)**2                                   # flap area, sq.ft        
     cf       = flap.chord_dimensional  / Units.ft                           # flap chord, ft
     Dp       = config.landing_gear.main_tire_diameter  / Units.ft           # MLG tyre diameter, ft
-    Hp       = config.landing_gear.nose_tire_diameter  / Units.ft           # MLG strut length, ft
-    Dn       = config.landing_gear.main_strut_length   / Units.ft           # NLG tyre diameter, ft
+    Hp       = config.landing_gear.main_strut_length  / Units.ft           # MLG strut length, ft
+    Dn       = config.landing_gear.nose_tire_diameter   / Units.ft           # NLG tyre diameter, ft
     Hn       = config.landing_gear.nose_strut_length   / Units.ft           # NLG strut length, ft
     gear     = config.landing_gear.gear_condition                           # Gear up or gear down
     
-- 
2.43.0


From c8aad0c909a429447a982ce31cfd8f49454c942b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:26:21 +0000
Subject: [PATCH 63/74] fix: facility cash flow is not multiplied by the
 tooling design cost

---
 .../Industrial_Costs/distribute_non_recurring_cost.py           | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/trunk/SUAVE/Methods/Costs/Correlations/Industrial_Costs/distribute_non_recurring_cost.py b/trunk/SUAVE/Methods/Costs/Correlations/Industrial_Costs/distribute_non_recurring_cost.py
index 4cab4aa..e18e941 100644
--- a/trunk/SUAVE/Methods/Costs/Correlations/Industrial_Costs/distribute_non_recurring_cost.py
+++ b/trunk/SUAVE/Methods/Costs/Correlations/Industrial_Costs/distribute_non_recurring_cost.py
@@ -91,10 +91,10 @@ def distribute_non_recurring_cost(costs):
     # compute dimensional cost data, applying non-dimentional costs to each cost fraction
     engineering         *= nrec_engineering
     manuf_engineering   *= nrec_manufacturing
+    facilities           = nrec_facilities * tooling_design # facilities are paid as the tooling is designed
     tooling_design      *= nrec_tooling_design
     tooling_production  *= nrec_tooling_production
     support             *= nrec_support
-    facilities           = nrec_facilities * tooling_design
 
     # pack output
     costs.industrial.non_recurring.cash_flow           = Data()
-- 
2.43.0


From c60ed0dd931bd7dbb8c9c1d5ae75d55a7aea8608 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:26:21 +0000
Subject: [PATCH 64/74] fix: V-n diagram: main wing chord, designer limit load
 above 50,000 lb, standard sea level for equivalent airspeed, FAR 25 cruise
 speed constant, cruise gust on the negative branch

---
 .../SUAVE/Methods/Performance/V_n_diagram.py  | 19 ++++++++++---------
 1 file changed, 10 insertions(+), 9 deletions(-)

diff --git a/trunk/SUAVE/Methods/Performance/V_n_diagram.py b/trunk/SUAVE/Methods/Performance/V_n_diagram.py
index e5748ce..966542f 100644
--- a/trunk/SUAVE/Methods/Performance/V_n_diagram.py
+++ b/trunk/SUAVE/Methods/Performance/V_n_diagram.py
@@ -80,9 +80,8 @@ def V_n_diagram(vehicle,analyses,weight,altitude,delta_ISA):
     atmo            = analyses.atmosphere
     Mc              = vehicle.envelope.cruise_mach
 
-    for wing in vehicle.wings: 
-        reference_area  = vehicle.reference_area 
-        Cmac            = wing.chords.mean_aerodynamic
+    reference_area  = vehicle.reference_area 
+    Cmac            = vehicle.wings.main_wing.chords.mean_aerodynamic
 
     for envelope in vehicle:
         pos_limit_load  = vehicle.envelope.limit_loads.positive
@@ -94,7 +93,7 @@ def V_n_diagram(vehicle,analyses,weight,altitude,delta_ISA):
     # Computing atmospheric conditions
     # ----------------------------------------------
     atmo_values       = atmo.compute_values(altitude,delta_ISA)
-    SL_atmo_values    = atmo.compute_values(0,delta_ISA)
+    SL_atmo_values    = atmo.compute_values(0)         # equivalent airspeeds refer to standard sea level
     conditions        = SUAVE.Analyses.Mission.Segments.Conditions.Aerodynamics()
 
     rho               = atmo_values.density
@@ -167,11 +166,11 @@ def V_n_diagram(vehicle,analyses,weight,altitude,delta_ISA):
         if load_factors_pos[2] < 2.5:
             flog.write('        Defined positive limit load factor < 2.5. Setting 2.5...\n')
             load_factors_pos[2] = 2.5
-        elif load_factors_pos[2] < pos_limit_load:
-            load_factors_pos[2] = pos_limit_load
         elif load_factors_pos[2] > 3.8:
             flog.write('        Defined positive limit load factor > 3.8. Setting 3.8...\n')
             load_factors_pos[2] = 3.8
+        if load_factors_pos[2] < pos_limit_load:
+            load_factors_pos[2] = pos_limit_load
 
         # Negative limit
         flog.write('    Estimating n-...\n')
@@ -188,11 +187,11 @@ def V_n_diagram(vehicle,analyses,weight,altitude,delta_ISA):
             if load_factors_pos[2] < 2.5:
                 flog.write('        Defined positive limit load factor < 2.5. Setting 2.5...\n')
                 load_factors_pos[2] = 2.5
-            elif load_factors_pos[2] < pos_limit_load:
-                load_factors_pos[2] = pos_limit_load
             elif load_factors_pos[2] > 3.8:
                 flog.write('        Defined positive limit load factor > 3.8. Setting 3.8...\n')
                 load_factors_pos[2] = 3.8
+            if load_factors_pos[2] < pos_limit_load:
+                load_factors_pos[2] = pos_limit_load
 
             # Negative limit
             flog.write('    Estimating n-...\n')
@@ -303,7 +302,7 @@ def V_n_diagram(vehicle,analyses,weight,altitude,delta_ISA):
             Uref_dive   = 0.5 * Uref_cruise
             
         # Minimum Cruise speed Vc_min
-        coefs = [1, -Uref_cruise * (2.64 + (Kg * CLa * airspeeds_pos[1]**2)/(498 * wing_loading)), 1.72424 * Uref_cruise**2 - airspeeds_pos[1]**2]
+        coefs = [1, -Uref_cruise * (2.64 + (Kg * CLa * airspeeds_pos[1]**2)/(498 * wing_loading)), 1.7424 * Uref_cruise**2 - airspeeds_pos[1]**2]
         Vc1   = max(np.roots(coefs))
         
     elif FAR_part_number == 23:           
@@ -710,6 +709,8 @@ def gust_loads(category_tag, V_n_data, Kg, CLa, Num_of_points, FAR_part_number,
             airspeeds    = np.concatenate((airspeeds[:(Num_of_points + 3)], [Vc], airspeeds[(Num_of_points + 3):]))
             load_factors = np.concatenate((load_factors[:(Num_of_points + 3)], [gust_load_factors[2]], \
                                            load_factors[(Num_of_points + 3):]))
+        elif abs(gust_load_factors[2]) > abs(limit_load):
+            load_factors[len(airspeeds)-2] = gust_load_factors[2]
 
     # Intersection between cruise gust load and maximum load at Vc
     elif abs(gust_load_factors[2]) > abs(limit_load):
-- 
2.43.0


From 6c8bdafc39ad35e2994df4b358eb03b1daad3639 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:26:21 +0000
Subject: [PATCH 65/74] fix: field lengths take the airport altitude in metres,
 landing_constants of the vehicle are used

---
 .../Methods/Performance/estimate_landing_field_length.py      | 4 ++--
 .../Methods/Performance/estimate_take_off_field_length.py     | 2 +-
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/trunk/SUAVE/Methods/Performance/estimate_landing_field_length.py b/trunk/SUAVE/Methods/Performance/estimate_landing_field_length.py
index 806452d..607962d 100644
--- a/trunk/SUAVE/Methods/Performance/estimate_landing_field_length.py
+++ b/trunk/SUAVE/Methods/Performance/estimate_landing_field_length.py
@@ -53,7 +53,7 @@ def estimate_landing_field_length(vehicle,analyses,airport):
     # Unpack
     # ==============================================
     atmo            = airport.atmosphere
-    altitude        = airport.altitude * Units.ft
+    altitude        = airport.altitude
     delta_isa       = airport.delta_isa
     weight          = vehicle.mass_properties.landing
     reference_area  = vehicle.reference_area
@@ -102,7 +102,7 @@ def estimate_landing_field_length(vehicle,analyses,airport):
 
     # Defining landing distance equation coefficients
     try:
-        landing_constants = config.landing_constants # user defined
+        landing_constants = vehicle.landing_constants # user defined
     except:  # default values - According to Torenbeek book
         landing_constants = np.zeros(3)
         landing_constants[0] = 250.
diff --git a/trunk/SUAVE/Methods/Performance/estimate_take_off_field_length.py b/trunk/SUAVE/Methods/Performance/estimate_take_off_field_length.py
index d023797..a1b3d3c 100644
--- a/trunk/SUAVE/Methods/Performance/estimate_take_off_field_length.py
+++ b/trunk/SUAVE/Methods/Performance/estimate_take_off_field_length.py
@@ -65,7 +65,7 @@ def estimate_take_off_field_length(vehicle,analyses,airport,compute_2nd_seg_clim
         # Unpack
     # ==============================================
     atmo            = analyses.atmosphere
-    altitude        = airport.altitude * Units.ft
+    altitude        = airport.altitude
     delta_isa       = airport.delta_isa
     weight          = vehicle.mass_properties.takeoff
     reference_area  = vehicle.reference_area
-- 
2.43.0


From f7d8f4b0206b9a6df078e890bc802108f0b72224 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:26:21 +0000
Subject: [PATCH 66/74] fix: take-off weight for a field length leaves the
 take-off mass of the vehicle as it was

---
 .../Methods/Performance/find_take_off_weight_given_tofl.py    | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/trunk/SUAVE/Methods/Performance/find_take_off_weight_given_tofl.py b/trunk/SUAVE/Methods/Performance/find_take_off_weight_given_tofl.py
index 787a872..845e089 100644
--- a/trunk/SUAVE/Methods/Performance/find_take_off_weight_given_tofl.py
+++ b/trunk/SUAVE/Methods/Performance/find_take_off_weight_given_tofl.py
@@ -47,7 +47,7 @@ def find_take_off_weight_given_tofl(vehicle,analyses,airport,target_tofl):
     tow_upper = 1.10 * vehicle.mass_properties.max_takeoff
 
     #saving initial reference takeoff weight
-    tow_ref = vehicle.mass_properties.max_takeoff
+    tow_ref = vehicle.mass_properties.takeoff
 
     tow_vec = np.linspace(tow_lower,tow_upper,50)
     tofl    = np.zeros_like(tow_vec)
@@ -63,6 +63,6 @@ def find_take_off_weight_given_tofl(vehicle,analyses,airport,target_tofl):
         max_tow[id] = np.interp(toflid,tofl,tow_vec)
 
     #reset the initial takeoff weight
-    vehicle.mass_properties.max_takeoff = tow_ref
+    vehicle.mass_properties.takeoff = tow_ref
 
     return max_tow
\ No newline at end of file
-- 
2.43.0


From ce235dba79831fb4f0ba5e6cb5cf1901c18357e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:26:21 +0000
Subject: [PATCH 67/74] fix: payload range: results of their own per call,
 payload at full tanks limited to the maximum payload

---
 .../Methods/Performance/payload_range.py      | 22 ++++++++++---------
 1 file changed, 12 insertions(+), 10 deletions(-)

diff --git a/trunk/SUAVE/Methods/Performance/payload_range.py b/trunk/SUAVE/Methods/Performance/payload_range.py
index ba4f90a..52e12af 100644
--- a/trunk/SUAVE/Methods/Performance/payload_range.py
+++ b/trunk/SUAVE/Methods/Performance/payload_range.py
@@ -8,7 +8,7 @@
 #  Imports
 # ----------------------------------------------------------------------
 
-from SUAVE.Core import Units
+from SUAVE.Core import Units, Data
 import time
 import numpy as np
 
@@ -96,9 +96,10 @@ def payload_range(vehicle,mission,cruise_segment_tag,reserves=0.):
 
     # Define payload range points
     #Point  = [ RANGE WITH MAX. PLD   , RANGE WITH MAX. FUEL , FERRY RANGE   ]
-    TOW     = [ MTOW                               , MTOW                   , OEW + MaxFuel ]
-    FUEL    = [ min(TOW[1] - OEW - MaxPLD,MaxFuel) , MaxFuel                , MaxFuel       ]
-    PLD     = [ MaxPLD                             , MTOW - MaxFuel - OEW   , 0.            ]
+    # (the take-off weight stays below MTOW where maximum fuel can be carried with maximum payload)
+    FUEL    = [ min(MTOW - OEW - MaxPLD,MaxFuel)   , MaxFuel                           , MaxFuel       ]
+    PLD     = [ MaxPLD                             , min(MTOW - MaxFuel - OEW,MaxPLD)  , 0.            ]
+    TOW     = [ OEW + PLD[0] + FUEL[0]             , OEW + PLD[1] + FUEL[1]            , OEW + MaxFuel ]
 
     # allocating Range array
     R       = [0,0,0]
@@ -172,11 +173,12 @@ def payload_range(vehicle,mission,cruise_segment_tag,reserves=0.):
     TOW.insert(0,0)
 
     # packing results
-    payload_range.range     = np.multiply(R,1.0*Units.nautical_mile / Units.m) # [m]
-    payload_range.payload   = PLD
-    payload_range.fuel      = FUEL
-    payload_range.takeoff_weight = TOW
-    payload_range.reserves = reserves
+    results = Data()
+    results.range     = np.multiply(R,1.0*Units.nautical_mile / Units.m) # [m]
+    results.payload   = PLD
+    results.fuel      = FUEL
+    results.takeoff_weight = TOW
+    results.reserves = reserves
 
     # Write output file
     if iwrite:
@@ -224,4 +226,4 @@ def payload_range(vehicle,mission,cruise_segment_tag,reserves=0.):
         plt.grid(True)
         plt.show()
 
-    return payload_range
+    return results
-- 
2.43.0


From 7ba2e09e26ba0ed91516e3f5c27a9085d5bf3f42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:26:21 +0000
Subject: [PATCH 68/74] fix: electric V-h diagram: integer default grid,
 temperature offset reaches drag and propeller

---
 trunk/SUAVE/Methods/Performance/electric_V_h_diagram.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/trunk/SUAVE/Methods/Performance/electric_V_h_diagram.py b/trunk/SUAVE/Methods/Performance/electric_V_h_diagram.py
index 3d8a28d..f06cbb7 100644
--- a/trunk/SUAVE/Methods/Performance/electric_V_h_diagram.py
+++ b/trunk/SUAVE/Methods/Performance/electric_V_h_diagram.py
@@ -25,7 +25,7 @@ def electric_V_h_diagram(vehicle,
                          analyses,
                          CL_max,
                          delta_isa = 0.,
-                         grid_points = 20.,
+                         grid_points = 20,
                          altitude_ceiling = 2e4 * Units.ft,
                          max_speed = 130 * Units['m/s'],
                          test_omega = 800. * Units.rpm,
@@ -96,6 +96,7 @@ def electric_V_h_diagram(vehicle,
         segment.analyses.extend(analyses)
         segment.altitude = altitude
         segment.air_speed = speed
+        segment.temperature_deviation = delta_isa
 
         mission.append_segment(segment)
 
@@ -149,7 +150,7 @@ def electric_V_h_diagram(vehicle,
                                                pitch=0.,
                                                omega=test_omega,
                                                altitude=altitude,
-                                               delta_isa=0.,
+                                               delta_isa=delta_isa,
                                                speed=V)
                     Power += res.power * p_factor
                         
-- 
2.43.0


From 0bdaac2263ea03efe3af1a5861fcf114893390d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:08:18 +0000
Subject: [PATCH 69/74] fix: scale the bound of a Nexus constraint as its value

---
 trunk/SUAVE/Optimization/Nexus.py | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/trunk/SUAVE/Optimization/Nexus.py b/trunk/SUAVE/Optimization/Nexus.py
index 11b6cf1..c09c76b 100644
--- a/trunk/SUAVE/Optimization/Nexus.py
+++ b/trunk/SUAVE/Optimization/Nexus.py
@@ -200,15 +200,15 @@ class Nexus(Data):
                 indices.append(ii)        
         iqconstraints = np.delete(constraints,indices,axis=0)
     
-        if iqconstraints == []:
-            scaled_constraints = []
+        if len(iqconstraints) == 0:
+            constraint_evaluations = np.array([])
         else:
 
             # get constaint values 
             constraint_values = help_fun.get_values(self,iqconstraints,aliases)          
             
             # scale bounds 
-            scaled_bnd_constraints  = help_fun.scale_const_bnds(iqconstraints)
+            scaled_bnd_constraints  = help_fun.scale_const_values(iqconstraints,help_fun.scale_const_bnds(iqconstraints))
             
             # scale constaits 
             scaled_constraints = help_fun.scale_const_values(iqconstraints,constraint_values)
@@ -254,11 +254,12 @@ class Nexus(Data):
                 indices.append(ii)
         eqconstraints = np.delete(constraints,indices,axis=0)
     
-        if eqconstraints == []:
-            scaled_constraints = []
+        if len(eqconstraints) == 0:
+            scaled_constraints = np.array([])
         else:
             constraint_values  = help_fun.get_values(self,eqconstraints,aliases)
-            scaled_constraints = help_fun.scale_const_values(eqconstraints,constraint_values) - help_fun.scale_const_bnds(eqconstraints)
+            scaled_bnd_constraints = help_fun.scale_const_values(eqconstraints,help_fun.scale_const_bnds(eqconstraints))
+            scaled_constraints = help_fun.scale_const_values(eqconstraints,constraint_values) - scaled_bnd_constraints
 
         return scaled_constraints   
         
-- 
2.43.0


From f2708a910e8f3e58a8c5cb6b3cb3822afa610693 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:08:18 +0000
Subject: [PATCH 70/74] fix: expand every star of an alias path

---
 trunk/SUAVE/Optimization/helper_functions.py | 21 +++++++++-----------
 1 file changed, 9 insertions(+), 12 deletions(-)

diff --git a/trunk/SUAVE/Optimization/helper_functions.py b/trunk/SUAVE/Optimization/helper_functions.py
index 68b6f4e..3809e50 100644
--- a/trunk/SUAVE/Optimization/helper_functions.py
+++ b/trunk/SUAVE/Optimization/helper_functions.py
@@ -105,19 +105,16 @@ def find_a_star(dictionary,string):
     N/A
     """
     splitstring = string.split('.')
-    for ii in range(0,len(splitstring)):
-        if '*' in splitstring[ii]:
-            if ii==0:
-                newkeys = dictionary.keys()
-            elif ii !=0:
-                strtoeval = 'dictionary.'+'.'.join(splitstring[0:ii])+'.keys()'
-                newkeys = list(eval(strtoeval))
-            lastindex   = ii
+    newstrings  = ['']
+    for part in splitstring:
+        if '*' in part:
+            # every key there is at this level of each branch
+            newstrings = [base + key + '.' for base in newstrings 
+                          for key in (dictionary.deep_get(base[:-1]) if base else dictionary).keys()]
+        else:
+            newstrings = [base + part + '.' for base in newstrings]
+    newstrings = [name[:-1] for name in newstrings]
             
-    newstrings = []
-    for ii in range(0,len(newkeys)):
-        newstrings.append('.'.join(splitstring[0:lastindex])+'.'+newkeys[ii]+'.'+'.'.join(splitstring[lastindex+1:]))
-        
     return newstrings
 
 ## @ingroup Optimization
-- 
2.43.0


From 919af09da6f356f886b8aafeb7da280339ea8c31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:08:18 +0000
Subject: [PATCH 71/74] fix: give every differential evolution constraint its
 own function

---
 trunk/SUAVE/Optimization/Package_Setups/scipy_setup.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/trunk/SUAVE/Optimization/Package_Setups/scipy_setup.py b/trunk/SUAVE/Optimization/Package_Setups/scipy_setup.py
index 6801f1a..c4d5d8d 100644
--- a/trunk/SUAVE/Optimization/Package_Setups/scipy_setup.py
+++ b/trunk/SUAVE/Optimization/Package_Setups/scipy_setup.py
@@ -82,7 +82,7 @@ def SciPy_Solve(problem,solver='SLSQP', sense_step = 1.4901161193847656e-08, ite
         aliases            = problem.optimization_problem.aliases
         for ii in range(0,len(con)):
             de_constraint  = con[[ii]] 
-            def fun(x):
+            def fun(x,de_constraint=de_constraint):
                 problem.evaluate(x)
                 constraint_val = help_fun.get_values(problem,de_constraint,aliases)
                 return np.atleast_1d(constraint_val)
-- 
2.43.0


From ca244da3c70f05bf25d8e908d0e76c74142bf31f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:08:18 +0000
Subject: [PATCH 72/74] fix: write optimisation inputs divided by their scale

---
 trunk/SUAVE/Optimization/write_optimization_outputs.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/trunk/SUAVE/Optimization/write_optimization_outputs.py b/trunk/SUAVE/Optimization/write_optimization_outputs.py
index e14b8a9..a81a229 100644
--- a/trunk/SUAVE/Optimization/write_optimization_outputs.py
+++ b/trunk/SUAVE/Optimization/write_optimization_outputs.py
@@ -44,7 +44,7 @@ def write_optimization_outputs(nexus, filename):
     
     #inputs
     unscaled_inputs    = nexus.optimization_problem.inputs[:,1] #use optimization problem inputs here
-    input_scaling      = nexus.optimization_problem.inputs[:,3]
+    input_scaling      = nexus.optimization_problem.inputs[:,-2]
     scaled_inputs      = unscaled_inputs/input_scaling
     
     #objective
-- 
2.43.0


From 890815416025d7fb29e3934cc1ce45a63ecc650c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:08:18 +0000
Subject: [PATCH 73/74] fix: let a feasible particle replace an infeasible
 start in the swarm

---
 .../Optimization/Package_Setups/particle_swarm_optimization.py  | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/trunk/SUAVE/Optimization/Package_Setups/particle_swarm_optimization.py b/trunk/SUAVE/Optimization/Package_Setups/particle_swarm_optimization.py
index 71d8dd7..3e745c0 100644
--- a/trunk/SUAVE/Optimization/Package_Setups/particle_swarm_optimization.py
+++ b/trunk/SUAVE/Optimization/Package_Setups/particle_swarm_optimization.py
@@ -165,7 +165,7 @@ def particle_swarm_optimization(func, lb, ub, ieqcons=[], f_ieqcons=None, args=(
             fx = obj(x[i, :])
             
             # Compare particle's best position (if constraints are satisfied)
-            if fx<fp[i] and is_feasible(x[i, :]):
+            if (fx<fp[i] or fx<fg) and is_feasible(x[i, :]):
                 p[i, :] = x[i, :].copy()
                 fp[i] = fx
 
-- 
2.43.0


From 837c6dbbabc3fb7cea8ef4f20bf2bd1b59665fcd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:08:18 +0000
Subject: [PATCH 74/74] fix: scale the constraint edges of the multi-fidelity
 SLSQP problems

---
 .../Package_Setups/TRMM/Trust_Region_Optimization.py   |  7 ++++---
 .../Optimization/Package_Setups/additive_setup.py      | 10 ++++++----
 2 files changed, 10 insertions(+), 7 deletions(-)

diff --git a/trunk/SUAVE/Optimization/Package_Setups/TRMM/Trust_Region_Optimization.py b/trunk/SUAVE/Optimization/Package_Setups/TRMM/Trust_Region_Optimization.py
index 5593ee5..10ad35d 100644
--- a/trunk/SUAVE/Optimization/Package_Setups/TRMM/Trust_Region_Optimization.py
+++ b/trunk/SUAVE/Optimization/Package_Setups/TRMM/Trust_Region_Optimization.py
@@ -287,7 +287,7 @@ class Trust_Region_Optimization(Data):
                         gOpt_corr[ii] = new_outputs[1][ii]
                 elif self.optimizer == 'SLSQP':
                     bounds = []
-                    for lb, ub in zip(con_low_edge, con_up_edge):
+                    for lb, ub in zip(tr.lower_bound, tr.upper_bound):
                         bounds.append((lb,ub)) 
                         
                     res = minimize(self.evaluate_constraints, x, \
@@ -761,6 +761,7 @@ class Trust_Region_Optimization(Data):
     def initialize_SLSQP_constraints(self,con,problem,corrections,tr):
         # Initialize variables according to SLSQP requirements
         slsqp_con_list = []
+        edges = help_fun.scale_const_values(con,help_fun.scale_const_bnds(con))
         for i,c in enumerate(con):
             c_dict = {}
             if c[1] == '<' or c[1] == '>':
@@ -771,9 +772,9 @@ class Trust_Region_Optimization(Data):
                 raise ValueError('Constraint specification not recognized.')
             c_dict['fun'] = self.unpack_constraints_slsqp
             if c[1] == '<':
-                c_dict['args'] = [i,-1,c[2],problem,corrections,tr]
+                c_dict['args'] = [i,-1,edges[i],problem,corrections,tr]
             else:
-                c_dict['args'] = [i,1,c[2],problem,corrections,tr]
+                c_dict['args'] = [i,1,edges[i],problem,corrections,tr]
             slsqp_con_list.append(c_dict)
         
         return slsqp_con_list
diff --git a/trunk/SUAVE/Optimization/Package_Setups/additive_setup.py b/trunk/SUAVE/Optimization/Package_Setups/additive_setup.py
index eebe2af..3ef19a2 100644
--- a/trunk/SUAVE/Optimization/Package_Setups/additive_setup.py
+++ b/trunk/SUAVE/Optimization/Package_Setups/additive_setup.py
@@ -697,6 +697,7 @@ class Additive_Solver():
         # Initialize variables according to SLSQP requirements
         x0 = x_eval
         slsqp_con_list = []
+        edges = help_fun.scale_const_values(con,help_fun.scale_const_bnds(con))
         for i,c in enumerate(con):
             c_dict = {}
             if c[1] == '<' or c[1] == '>':
@@ -707,9 +708,9 @@ class Additive_Solver():
                 raise ValueError('Constraint specification not recognized.')
             c_dict['fun'] = self.unpack_constraints_slsqp
             if c[1] == '<':
-                c_dict['args'] = [i,-1,c[2],problem,cons_surr]
+                c_dict['args'] = [i,-1,edges[i],problem,cons_surr]
             else:
-                c_dict['args'] = [i,1,c[2],problem,cons_surr]
+                c_dict['args'] = [i,1,edges[i],problem,cons_surr]
             slsqp_con_list.append(c_dict)
         
         return x0,slsqp_con_list
@@ -720,6 +721,7 @@ class Additive_Solver():
         for i in range(len(x_low_bound)):
             bound_list.append((x_low_bound[i],x_up_bound[i]))
         slsqp_con_list = []
+        edges = help_fun.scale_const_values(con,help_fun.scale_const_bnds(con))
         for i,c in enumerate(con):
             c_dict = {}
             if c[1] == '<' or c[1] == '>':
@@ -730,9 +732,9 @@ class Additive_Solver():
                 raise ValueError('Constraint specification not recognized.')
             c_dict['fun'] = self.unpack_constraints_slsqp
             if c[1] == '<':
-                c_dict['args'] = [i,-1,c[2],problem,cons_surr]
+                c_dict['args'] = [i,-1,edges[i],problem,cons_surr]
             else:
-                c_dict['args'] = [i,1,c[2],problem,cons_surr]
+                c_dict['args'] = [i,1,edges[i],problem,cons_surr]
             slsqp_con_list.append(c_dict)
         
         return bound_list,slsqp_con_list    
-- 
2.43.0

