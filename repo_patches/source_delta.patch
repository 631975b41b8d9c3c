From 439e2decb11088c7d23eb947390665498798e63e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:43 +0000
Subject: [PATCH 01/67] fix: save_npy stores a copy of each frame

Frames were buffered by reference. SaveSimulationData sends the agents array
that the simulation then updates in place, so every frame of a chunk came out
equal to the last one.
---
 crowddynamics/io.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/crowddynamics/io.py b/crowddynamics/io.py
index 986124b..53504f2 100644
--- a/crowddynamics/io.py
+++ b/crowddynamics/io.py
@@ -36,7 +36,8 @@ def save_npy(directory, basename):
     index = 0
     while True:
         data = yield  # numpy.ndarray
-        buffer.append(data)
+        # Data can be modified in place after it is sent (e.g. agents array).
+        buffer.append(np.copy(data))
 
         dump = yield  # bool
         if dump:
-- 
2.43.0


From d3208f8272eab3f488fc0d2b2e40a4f3c909a835 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:43 +0000
Subject: [PATCH 02/67] fix: find_npy_files matches only files of the given
 basename

lstrip/rstrip strip sets of characters: with a basename containing digits
(or 'n', 'p', 'y', '.') the index was cut short or empty, and files of another
basename with the same prefix made the lookup fail.
---
 crowddynamics/io.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/crowddynamics/io.py b/crowddynamics/io.py
index 53504f2..5778667 100644
--- a/crowddynamics/io.py
+++ b/crowddynamics/io.py
@@ -6,6 +6,7 @@ Data flow ::
 
 """
 import os
+import re
 from collections import Iterable, Mapping
 from io import StringIO
 import csv
@@ -58,9 +59,9 @@ def find_npy_files(directory, basename):
     """
     for root, dirs, files in os.walk(directory):
         for file in files:
-            if file.startswith(basename) and file.endswith('.npy'):
-                index = int(file.lstrip(basename + '_').rstrip('.npy'))
-                yield index, os.path.join(root, file)
+            match = re.match(re.escape(basename) + r'_([0-9]+)\.npy$', file)
+            if match:
+                yield int(match.group(1)), os.path.join(root, file)
 
 
 def load_npy(directory, basename):
-- 
2.43.0


From a43599c45dc6019f573e8737e2776c07ec4f7b4d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:29 +0000
Subject: [PATCH 03/67] fix: geometries of every kind survive the JSON round
 trip

---
 crowddynamics/io.py | 23 ++++++++++++++---------
 1 file changed, 14 insertions(+), 9 deletions(-)

diff --git a/crowddynamics/io.py b/crowddynamics/io.py
index 5778667..c606385 100644
--- a/crowddynamics/io.py
+++ b/crowddynamics/io.py
@@ -148,24 +148,29 @@ def save_csv(directory, basename):
 
 def geometry_mapping(geom):
     from shapely.geometry import mapping
+    from shapely.geometry.base import BaseGeometry
 
-    if isinstance(geom, Iterable):
-        return [mapping(geo) for geo in geom]
+    if isinstance(geom, BaseGeometry):
+        return mapping(geom) if geom else None
     elif isinstance(geom, Mapping):
-        return {name: mapping(geo) for name, geo in geom.items()}
+        return {name: geometry_mapping(geo) for name, geo in geom.items()}
+    elif isinstance(geom, Iterable):
+        return [geometry_mapping(geo) for geo in geom]
     else:
-        return mapping(geom) if geom else geom
+        return geom
 
 
 def geometry_shape(geom):
     from shapely.geometry import shape
 
-    if isinstance(geom, Iterable):
-        return [shape(geo) for geo in geom]
-    elif isinstance(geom, Mapping):
-        return {name: shape(geo) for name, geo in geom.items()}
+    if isinstance(geom, Mapping):
+        if isinstance(geom.get('type'), str):
+            return shape(geom)
+        return {name: geometry_shape(geo) for name, geo in geom.items()}
+    elif isinstance(geom, Iterable):
+        return [geometry_shape(geo) for geo in geom]
     else:
-        return shape(geom) if geom else geom
+        return geom
 
 
 def save_geometry_json(filename, geometries):
-- 
2.43.0


From c5daa27fb1f85948bdd4a3ec2914b040227804b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:29 +0000
Subject: [PATCH 04/67] fix: save_geometry_json overwrites instead of appending
 a second JSON document

---
 crowddynamics/io.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crowddynamics/io.py b/crowddynamics/io.py
index c606385..e7eb25b 100644
--- a/crowddynamics/io.py
+++ b/crowddynamics/io.py
@@ -181,7 +181,7 @@ def save_geometry_json(filename, geometries):
         geometries (dict):
 
     """
-    with open(filename, 'a') as fp:
+    with open(filename, 'w') as fp:
         obj = {name: geometry_mapping(geom) for name, geom in
                geometries.items()}
         json.dump(obj, fp, indent=2, separators=(', ', ': '))
-- 
2.43.0


From f786f5ca5d443db1793b178f538fc5098ce00241 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:29 +0000
Subject: [PATCH 05/67] fix: save_npy accepts directories and basenames with
 braces

---
 crowddynamics/io.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/crowddynamics/io.py b/crowddynamics/io.py
index e7eb25b..a30001d 100644
--- a/crowddynamics/io.py
+++ b/crowddynamics/io.py
@@ -32,7 +32,7 @@ def save_npy(directory, basename):
         >>> storage.send(data)
         >>> storage.send(True)  # True dumps data into file
     """
-    filepath = os.path.join(directory, basename + '_{index}.npy')
+    filepath = os.path.join(directory, basename + '_')
     buffer = []
     index = 0
     while True:
@@ -42,7 +42,7 @@ def save_npy(directory, basename):
 
         dump = yield  # bool
         if dump:
-            np.save(filepath.format(index=index), np.vstack(buffer))
+            np.save(filepath + '%d.npy' % index, np.vstack(buffer))
             buffer.clear()
             index += 1
 
-- 
2.43.0


From cfc2d40148de9276e5d92decfbd796c3a9370804 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:52:41 +0000
Subject: [PATCH 06/67] fix: MultiAgentProcess queues its end marker also when
 the simulation fails unexpectedly

---
 crowddynamics/simulation/multiagent.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/crowddynamics/simulation/multiagent.py b/crowddynamics/simulation/multiagent.py
index d434525..96b0d4e 100644
--- a/crowddynamics/simulation/multiagent.py
+++ b/crowddynamics/simulation/multiagent.py
@@ -92,7 +92,8 @@ class MultiAgentProcess(Process):
             self.logger.error(
                 'Simulation stopped to error: {}'.format(error))
             self.stop()
-        self.queue.put(self.EndProcess)
+        finally:
+            self.queue.put(self.EndProcess)
 
     @log_with(qualname=True, ignore={'self'})
     def stop(self):
-- 
2.43.0


From 399ad14894245be3f2b8962499d0c36bb4cb05bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:56:15 +0000
Subject: [PATCH 07/67] fix: load_config rejects configurations of which some
 values are invalid

---
 crowddynamics/config.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crowddynamics/config.py b/crowddynamics/config.py
index 2cbdfe6..c9cea89 100644
--- a/crowddynamics/config.py
+++ b/crowddynamics/config.py
@@ -23,7 +23,7 @@ BODY_TYPES_CFG_SPEC = os.path.join(CONFIG_ROOT, 'body_types_spec.cfg')
 def load_config(infile, configspec=None):
     """Load configuration from INI file."""
     config = ConfigObj(infile=infile, configspec=configspec)
-    if configspec and not config.validate(Validator()):
+    if configspec and config.validate(Validator()) is not True:
         raise ValidationError
     return config
 
-- 
2.43.0


From 1a910ef6bdcb8dabf19665f3be1e5019a20cb468 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:56:15 +0000
Subject: [PATCH 08/67] fix: deprecated() works on Python 3 functions

---
 crowddynamics/exceptions.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/crowddynamics/exceptions.py b/crowddynamics/exceptions.py
index 3f25134..98f3f06 100644
--- a/crowddynamics/exceptions.py
+++ b/crowddynamics/exceptions.py
@@ -59,8 +59,8 @@ def deprecated(func):
         warnings.warn_explicit(
             "Call to deprecated function {}.".format(func.__name__),
             category=DeprecationWarning,
-            filename=func.func_code.co_filename,
-            lineno=func.func_code.co_firstlineno + 1
+            filename=func.__code__.co_filename,
+            lineno=func.__code__.co_firstlineno + 1
         )
         return func(*args, **kwargs)
     return new_func
-- 
2.43.0


From 0f2e8bdcc5fd813ff8dea9595d64ef47de887544 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:56:15 +0000
Subject: [PATCH 09/67] fix: import_simulation_callables accepts a path without
 a directory

---
 crowddynamics/config.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crowddynamics/config.py b/crowddynamics/config.py
index c9cea89..ba31e7e 100644
--- a/crowddynamics/config.py
+++ b/crowddynamics/config.py
@@ -41,7 +41,7 @@ def import_simulation_callables(confpath):
         (str, typing.Callable[[...], MultiAgentSimulation]):
     """
     logger = logging.getLogger(__name__)
-    base, _ = os.path.split(confpath)
+    base, _ = os.path.split(os.path.abspath(confpath))
     config = load_config(confpath, configspec=CROWDDYNAMICS_CFG_SPEC)
     conf = config.get('simulations', [])
 
-- 
2.43.0


From f9aac0722da7bd32e8893f05b9fd074e9f2e16b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:56:54 +0000
Subject: [PATCH 10/67] fix: import_simulation_callables yields in the caller's
 working directory

---
 crowddynamics/config.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/crowddynamics/config.py b/crowddynamics/config.py
index ba31e7e..b582b50 100644
--- a/crowddynamics/config.py
+++ b/crowddynamics/config.py
@@ -55,9 +55,11 @@ def import_simulation_callables(confpath):
                         module = importlib.util.module_from_spec(spec)
                         spec.loader.exec_module(module)
 
-                        try:
-                            yield funcname, getattr(module, funcname)
-                        except AttributeError as e:
-                            logger.warning(e)
+                    try:
+                        func = getattr(module, funcname)
+                    except AttributeError as e:
+                        logger.warning(e)
+                    else:
+                        yield funcname, func
                 except ImportError as e:
                     logger.warning(e)
-- 
2.43.0


From 19986ef68d5f4faa8c351b2dc816a827adeb6162 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:56:54 +0000
Subject: [PATCH 11/67] fix: trait_to_type returns str for Unicode traits

---
 crowddynamics/traits.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crowddynamics/traits.py b/crowddynamics/traits.py
index e7f84d0..c45f917 100644
--- a/crowddynamics/traits.py
+++ b/crowddynamics/traits.py
@@ -68,7 +68,7 @@ def trait_to_type(trait):
         elif isinstance(trait, Bool):
             return bool
         elif isinstance(trait, Unicode):
-            raise str
+            return str
         else:
             raise InvalidValue('Trait conversion is not supported for: '
                                '{}'.format(trait))
-- 
2.43.0


From e2b0b513be20dc999fc90d8fd05f61129e9088aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:03:39 +0000
Subject: [PATCH 12/67] fix: rotational moment of the second agent is taken
 from its own circle

---
 crowddynamics/core/distance.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crowddynamics/core/distance.py b/crowddynamics/core/distance.py
index 681e120..1b6c634 100644
--- a/crowddynamics/core/distance.py
+++ b/crowddynamics/core/distance.py
@@ -100,7 +100,7 @@ def distance_three_circles(x0, r0, x1, r1):
                 j_min = j
 
     r_moment0 = x0[i_min] + r0[i_min] * normal - x0[0]
-    r_moment1 = x0[j_min] - r1[j_min] * normal - x1[0]
+    r_moment1 = x1[j_min] - r1[j_min] * normal - x1[0]
 
     return h_min, normal, r_moment0, r_moment1
 
-- 
2.43.0


From 530f2ed1b90500c1f5fa31830f7becc09a3293a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:03:39 +0000
Subject: [PATCH 13/67] fix: shoulders of a three-circle agent follow its
 position and orientation

---
 crowddynamics/simulation/agents.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/crowddynamics/simulation/agents.py b/crowddynamics/simulation/agents.py
index 8ca55b7..364aeee 100644
--- a/crowddynamics/simulation/agents.py
+++ b/crowddynamics/simulation/agents.py
@@ -408,6 +408,11 @@ class ThreeCircle(AgentType, States, BodyType, TranslationalMotion,
         return self.position + self.r_ts * rotate270(
             unit_vector(self.orientation))
 
+    @observe('position', 'orientation', 'r_ts')
+    def _observe_shoulders(self, change):
+        self.position_ls = self._default_position_ls()
+        self.position_rs = self._default_position_rs()
+
     def overlapping(self, others):
         return overlapping_three_circles(
             others,
-- 
2.43.0


From 3f24adb2df410b6104c9f7658392685024038d71 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:03:39 +0000
Subject: [PATCH 14/67] fix: agents that did not fit leave no zero agents in
 the array

---
 crowddynamics/simulation/agents.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/crowddynamics/simulation/agents.py b/crowddynamics/simulation/agents.py
index 364aeee..57363d3 100644
--- a/crowddynamics/simulation/agents.py
+++ b/crowddynamics/simulation/agents.py
@@ -677,9 +677,8 @@ class Agents(AgentsBase):
             self.index += 1
             index += 1
 
-        # TODO: remove agents that didn't fit from self.array
-        if self.index + 1 < self.array.size:
-            pass
+        # Remove agents that didn't fit from self.array
+        self.array = self.array[:self.index]
 
         # Array should remain contiguous
         assert self.array.flags.c_contiguous
-- 
2.43.0


From f36abc29808928e7de1aea4bb27adb3d67fc91aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:03:39 +0000
Subject: [PATCH 15/67] fix: overlaps are found also when two agents reach over
 more than one cell

---
 crowddynamics/simulation/agents.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/crowddynamics/simulation/agents.py b/crowddynamics/simulation/agents.py
index 57363d3..b5bb8a5 100644
--- a/crowddynamics/simulation/agents.py
+++ b/crowddynamics/simulation/agents.py
@@ -634,6 +634,7 @@ class Agents(AgentsBase):
         self.array = np.zeros(0, dtype=self.agent_type.dtype())
         # Block list for speeding up overlapping checks
         self._neighbours = MutableBlockList(cell_size=self.cell_size)
+        self._radius_max = 0.0
 
     def add_non_overlapping_group(self, group, position_gen, obstacles=None):
         """Add group of agents
@@ -660,7 +661,11 @@ class Agents(AgentsBase):
                 else next(position_gen)
 
             # Overlapping check
-            neighbours = self._neighbours.nearest(new_agent.position, radius=1)
+            radius = max(new_agent.radius, new_agent.r_t,
+                         new_agent.r_ts + new_agent.r_s)
+            neighbours = self._neighbours.nearest(
+                new_agent.position,
+                radius=int(np.ceil((radius + self._radius_max) / self.cell_size)))
             if new_agent.overlapping(self.array[neighbours]):
                 # Agent is overlapping other agent.
                 overlaps += 1
@@ -674,6 +679,7 @@ class Agents(AgentsBase):
             # Agent can be successfully placed
             self.array[self.index] = np.array(new_agent)
             self._neighbours[new_agent.position] = self.index
+            self._radius_max = max(self._radius_max, radius)
             self.index += 1
             index += 1
 
-- 
2.43.0


From 68e79044546e498b65a049bc98ba902074a9d948 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:03:39 +0000
Subject: [PATCH 16/67] fix: size of an agent group follows from a collection
 of attributes

---
 crowddynamics/simulation/agents.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/crowddynamics/simulation/agents.py b/crowddynamics/simulation/agents.py
index b5bb8a5..ab835fd 100644
--- a/crowddynamics/simulation/agents.py
+++ b/crowddynamics/simulation/agents.py
@@ -596,6 +596,8 @@ class AgentGroup(HasTraits):
 
     @observe('size', 'agent_type', 'attributes')
     def _observe_members(self, change):
+        if isinstance(self.attributes, Collection):
+            self.size = len(self.attributes)
         if self.size > 0 and self.attributes is not None and self.agent_type is not None:
             if isinstance(self.attributes, Collection):
                 self.members = [self.agent_type(**a) for a in self.attributes]
-- 
2.43.0


From 8ec278d5234e66e776edf9a92b8d8fc53a2355ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:03:39 +0000
Subject: [PATCH 17/67] fix: members of an agent group are generated once from
 its attributes

---
 crowddynamics/simulation/agents.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/crowddynamics/simulation/agents.py b/crowddynamics/simulation/agents.py
index ab835fd..28f0ad7 100644
--- a/crowddynamics/simulation/agents.py
+++ b/crowddynamics/simulation/agents.py
@@ -593,11 +593,17 @@ class AgentGroup(HasTraits):
     members = List(
         Instance(AgentType),
         help='')
+    _members_from = (0, None, None)
 
     @observe('size', 'agent_type', 'attributes')
     def _observe_members(self, change):
         if isinstance(self.attributes, Collection):
             self.size = len(self.attributes)
+        members_from = (self.size, self.agent_type, self.attributes)
+        if all(a is b for a, b in zip(members_from, self._members_from)):
+            # Generator of attributes can be consumed only once
+            return
+        self._members_from = members_from
         if self.size > 0 and self.attributes is not None and self.agent_type is not None:
             if isinstance(self.attributes, Collection):
                 self.members = [self.agent_type(**a) for a in self.attributes]
-- 
2.43.0


From 448f8024ef39366e2264ad9d8e84ddff4f2af41f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:28:21 +0000
Subject: [PATCH 18/67] fix: euler_integrator rotates every array of
 three-circle agents

---
 crowddynamics/core/integrator.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crowddynamics/core/integrator.py b/crowddynamics/core/integrator.py
index efec3f1..bbf1664 100644
--- a/crowddynamics/core/integrator.py
+++ b/crowddynamics/core/integrator.py
@@ -155,7 +155,7 @@ def euler_integrator(agents, dt_min, dt_max):
     """
     dt = adaptive_timestep(agents, dt_min, dt_max)
     translational_euler(agents, dt)
-    if agents.dtype is agent_type_three_circle:
+    if is_model(agents, 'three_circle'):
         rotational_euler(agents, dt)
         shoulders(agents)
     return dt
-- 
2.43.0


From c55eec694da5c1132a99d6c76dcf2263ffc1df02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:35:38 +0000
Subject: [PATCH 19/67] fix: parts that move apart do not hide the first
 contact of three-circle agents

---
 crowddynamics/core/motion/power_law.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/crowddynamics/core/motion/power_law.py b/crowddynamics/core/motion/power_law.py
index a189068..59783e3 100644
--- a/crowddynamics/core/motion/power_law.py
+++ b/crowddynamics/core/motion/power_law.py
@@ -321,13 +321,13 @@ def force_social_three_circle(agent, i, j):
                 continue
 
             tau_new = (b - d) / a
-            if np.isnan(tau) or 0 < tau_new < tau:
+            if tau_new > 0 and (np.isnan(tau) or tau_new < tau):
                 contact_i, contact_j = part_i, part_j
                 tau = tau_new
                 b_min = b
                 d_min = d
 
-    if np.isnan(tau) or tau <= 0:
+    if np.isnan(tau):
         return force_i, force_j
 
     # Shoulder displacement vectors
-- 
2.43.0


From a786f86fbc2c26629bc0e27eef3bea8093e453b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:35:38 +0000
Subject: [PATCH 20/67] fix: social force of three-circle agents follows the
 gradient of the time-to-collision

---
 crowddynamics/core/motion/power_law.py | 11 +++++------
 1 file changed, 5 insertions(+), 6 deletions(-)

diff --git a/crowddynamics/core/motion/power_law.py b/crowddynamics/core/motion/power_law.py
index 59783e3..213c86b 100644
--- a/crowddynamics/core/motion/power_law.py
+++ b/crowddynamics/core/motion/power_law.py
@@ -146,7 +146,7 @@ def gradient_three_circle(x_rel, v_rel, r_off, a, b, d):
         numpy.ndarray:
 
     """
-    return (v_rel - (a * (x_rel + 2 * r_off) + b * v_rel) / d) / a
+    return (v_rel - (a * (x_rel + r_off) + b * v_rel) / d) / a
 
 
 @numba.jit(Tuple((f8, f8[:]))(f8[:], f8[:], f8),
@@ -334,20 +334,19 @@ def force_social_three_circle(agent, i, j):
     r_off_i = np.zeros(2)
     r_off_j = np.zeros(2)
 
-    # TODO: Fix signs
     if contact_i == 1:
         phi = agent[i]['orientation']
-        r_off_i += agent[i]['r_ts'] * np.array((np.sin(phi), -np.cos(phi)))
+        r_off_i -= agent[i]['r_ts'] * np.array((np.sin(phi), -np.cos(phi)))
     elif contact_i == 2:
         phi = agent[i]['orientation']
-        r_off_i -= agent[i]['r_ts'] * np.array((np.sin(phi), -np.cos(phi)))
+        r_off_i += agent[i]['r_ts'] * np.array((np.sin(phi), -np.cos(phi)))
 
     if contact_j == 1:
         phi = agent[j]['orientation']
-        r_off_j += agent[j]['r_ts'] * np.array((np.sin(phi), -np.cos(phi)))
+        r_off_j -= agent[j]['r_ts'] * np.array((np.sin(phi), -np.cos(phi)))
     elif contact_j == 2:
         phi = agent[j]['orientation']
-        r_off_j -= agent[j]['r_ts'] * np.array((np.sin(phi), -np.cos(phi)))
+        r_off_j += agent[j]['r_ts'] * np.array((np.sin(phi), -np.cos(phi)))
 
     x_rel = agent[i]['position'] - agent[j]['position']
     r_off = r_off_i - r_off_j
-- 
2.43.0


From 84b8bff20531d69e132416ac4f56f4af07e58a17 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:38:17 +0000
Subject: [PATCH 21/67] fix: line_intersect finds overlaps of parallel lines
 and points

---
 crowddynamics/core/geom2D.py | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/crowddynamics/core/geom2D.py b/crowddynamics/core/geom2D.py
index caf434a..d51b009 100644
--- a/crowddynamics/core/geom2D.py
+++ b/crowddynamics/core/geom2D.py
@@ -47,13 +47,20 @@ def line_intersect(x0, x1, y0, y1):
     Returns:
         bool:
     """
-    # FIXME: if u or v is zero vector
     u = x1 - x0
     v = y1 - y0
     b = y0 - x0
     d = u[0] * v[1] - u[1] * v[0]
     if d == 0:
-        return False
+        # Parallel lines (or points) intersect only if they are on the same
+        # line and overlap.
+        if b[0] * u[1] != b[1] * u[0] or b[0] * v[1] != b[1] * v[0]:
+            return False
+        for k in range(2):
+            if min(x0[k], x1[k]) > max(y0[k], y1[k]) or \
+                    min(y0[k], y1[k]) > max(x0[k], x1[k]):
+                return False
+        return True
     t0 = b[0] * v[1] - b[1] * v[0]
     t1 = b[0] * u[1] - b[1] * u[0]
     return 0 <= t0 / d <= 1 and 0 <= t1 / d <= 1
-- 
2.43.0


From eabc22fcaf19eda1136a26be7c14e6247d225ac6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:40:11 +0000
Subject: [PATCH 22/67] fix: agents heading exactly towards another count as
 heading towards it

---
 crowddynamics/core/steering/collective_motion.py | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/crowddynamics/core/steering/collective_motion.py b/crowddynamics/core/steering/collective_motion.py
index c8242c7..f6fcd6b 100644
--- a/crowddynamics/core/steering/collective_motion.py
+++ b/crowddynamics/core/steering/collective_motion.py
@@ -44,15 +44,14 @@ def herding_relationship(x1, x2, v1, v2, phi=np.pi / 2):
     c_i = dot(e_rel, normalize(v1))
     c_j = -dot(e_rel, normalize(v2))
 
-    # 1.0 = cos(0)
     cos_phi = np.cos(phi)
-    if cos_phi < c_i < 1.0:
-        if cos_phi < c_j < 1.0:
+    if cos_phi < c_i:
+        if cos_phi < c_j:
             return False, False
         else:
             return True, False
     else:
-        if cos_phi < c_j < 1.0:
+        if cos_phi < c_j:
             return False, True
         else:
             return True, True
-- 
2.43.0


From 26b6caf21c9b0e9cb1b017b78397f1793aaa96d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:40:11 +0000
Subject: [PATCH 23/67] fix: herding with no neighbours to follow

---
 crowddynamics/core/steering/collective_motion.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/crowddynamics/core/steering/collective_motion.py b/crowddynamics/core/steering/collective_motion.py
index f6fcd6b..a2d63ef 100644
--- a/crowddynamics/core/steering/collective_motion.py
+++ b/crowddynamics/core/steering/collective_motion.py
@@ -88,6 +88,9 @@ def find_nearest_neighbors(
         size, fill_value=sight, dtype=np.float64)
     '''Distance to furthest neighbor.'''
 
+    if size_nearest_other == 0:
+        return neighbors
+
     for i, j in iter_nearest_neighbors(
             cell_indices, neigh_cells, points_indices, cells_count,
             cells_offset):
-- 
2.43.0


From 0460807833ca72629e98606d930850278ddd9c3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:43:03 +0000
Subject: [PATCH 24/67] fix: obstacle_handling_continuous uses both components
 and skips outside positions

---
 crowddynamics/core/steering/obstacle_handling.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/crowddynamics/core/steering/obstacle_handling.py b/crowddynamics/core/steering/obstacle_handling.py
index 8d462ff..232d7d4 100644
--- a/crowddynamics/core/steering/obstacle_handling.py
+++ b/crowddynamics/core/steering/obstacle_handling.py
@@ -85,12 +85,13 @@ def obstacle_handling_continuous(dmap_obs, dir_map_obs, direction_target,
 
     for k in range(len(indices)):
         i, j = indices[k, 0], indices[k, 1]
-        u2, v2 = direction_target[k, 1], direction_target[k, 1]
-        x = -dmap_obs[i, j]
+        u2, v2 = direction_target[k, 0], direction_target[k, 1]
 
         if not (0 <= i < n and 0 <= j < m):
             continue
 
+        x = -dmap_obs[i, j]
+
         if 0 < x < radius:
             # Decreasing function
             p = strength ** (x / radius)
-- 
2.43.0


From 8f6336176746066cdf9019cde8620ced1d41bdb5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:43:03 +0000
Subject: [PATCH 25/67] fix: navigation works in fields without obstacles

---
 crowddynamics/core/steering/navigation.py    | 3 +++
 crowddynamics/core/steering/quickest_path.py | 4 ++++
 crowddynamics/simulation/field.py            | 3 +++
 3 files changed, 10 insertions(+)

diff --git a/crowddynamics/core/steering/navigation.py b/crowddynamics/core/steering/navigation.py
index 7d81d77..e1ff2b2 100644
--- a/crowddynamics/core/steering/navigation.py
+++ b/crowddynamics/core/steering/navigation.py
@@ -47,6 +47,9 @@ def static_potential(domain, targets, obstacles,
 
     dir_map_targets, dmap_targets = shortest_path(mgrid, domain, targets,
                                                   obstacles, radius)
+    if obstacles is None:
+        return mgrid, dmap_targets, dir_map_targets
+
     dir_map_obs, dmap_obs = direction_map_obstacles(mgrid, obstacles)
 
     # Combines two direction maps in a way that agents do not run into a wall
diff --git a/crowddynamics/core/steering/quickest_path.py b/crowddynamics/core/steering/quickest_path.py
index 2895773..5b67245 100644
--- a/crowddynamics/core/steering/quickest_path.py
+++ b/crowddynamics/core/steering/quickest_path.py
@@ -183,6 +183,10 @@ def fill_missing(mask, x, y, u, v):
 
 def shortest_path(mgrid, domain, targets, obstacles, buffer_radius):
     """Vector field guiding towards targets."""
+    if obstacles is None:
+        dmap_targets = distance_map(mgrid, targets, None)
+        return direction_map(dmap_targets), dmap_targets
+
     obstacles_buffered = obstacles.buffer(buffer_radius).intersection(domain)
 
     dmap_targets = distance_map(mgrid, targets, obstacles_buffered)
diff --git a/crowddynamics/simulation/field.py b/crowddynamics/simulation/field.py
index 3671ab1..35837c4 100644
--- a/crowddynamics/simulation/field.py
+++ b/crowddynamics/simulation/field.py
@@ -158,6 +158,9 @@ class Field(FieldBase):
             raise CrowdDynamicsException('No targets are set.')
 
         dir_map_targets, dmap_targets = self.shortest_path_target(step, index, radius)
+        if self.obstacles is None:
+            return self.meshgrid(step), dmap_targets, dir_map_targets
+
         dir_map_obs, dmap_obs = self.direction_map_obstacles(step)
         dir_map = obstacle_handling(dmap_obs, dir_map_obs, dir_map_targets,
                                     radius, strength)
-- 
2.43.0


From bc35cdfb36fda2f3cc7890ab392c089941be4117 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:54:49 +0000
Subject: [PATCH 26/67] fix: density_classical counts agents in integer cells
 and in the last ones

---
 crowddynamics/core/quantities.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/crowddynamics/core/quantities.py b/crowddynamics/core/quantities.py
index d86bfe9..99c5e0c 100644
--- a/crowddynamics/core/quantities.py
+++ b/crowddynamics/core/quantities.py
@@ -24,10 +24,10 @@ def density_classical(points, cell_size):
     density of fluids which have :math:`> 10^{18}` particles per
     :math:`\mathrm{mm}^3`.
     """
-    indices = np.floor(points / cell_size)
+    indices = np.floor(points / cell_size).astype(np.int64)
     x, y = indices[:, 0], indices[:, 1]
     x_min, y_min = x.min(), y.min()
-    shape = x.max() - x_min, y.max() - y_min
+    shape = x.max() - x_min + 1, y.max() - y_min + 1
     count = np.zeros(shape, dtype=np.int64)
     for i, j in zip(x, y):
         count[i - x_min, j - y_min] += 1
-- 
2.43.0


From bf5f70f6781fe37f4ab9ca73c76adaace9e4239a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:54:49 +0000
Subject: [PATCH 27/67] fix: density_voronoi_1 works for any location of the
 agents

---
 crowddynamics/core/quantities.py | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/crowddynamics/core/quantities.py b/crowddynamics/core/quantities.py
index 99c5e0c..458ec03 100644
--- a/crowddynamics/core/quantities.py
+++ b/crowddynamics/core/quantities.py
@@ -210,8 +210,9 @@ def density_voronoi_1(points, cell_size):
     new_regions, new_vertices = voronoi_finite_polygons_2d(vor)
 
     # Density matrix
-    (imin, imax), (jmin, jmax) = np.int64(bbox_points / cell_size)
-    density = np.zeros(shape=(imax - imin + 1, jmax - imin + 1))
+    (imin, imax), (jmin, jmax) = np.int64(
+        np.floor(bbox_points / cell_size))
+    density = np.zeros(shape=(imax - imin + 1, jmax - jmin + 1))
 
     # Loop over Voronoi regions
     for region in new_regions:
@@ -220,9 +221,10 @@ def density_voronoi_1(points, cell_size):
         minx, miny, maxx, maxy = voronoi_cell.bounds
 
         # Loop over the cells contained by the bounding box of the Voronoi cell
-        # FIXME: index out of bounds
-        for i in range(int(minx / cell_size), int(maxx / cell_size) + 1):
-            for j in range(int(miny / cell_size), int(maxy / cell_size) + 1):
+        for i in range(max(int(np.floor(minx / cell_size)), imin),
+                       min(int(np.floor(maxx / cell_size)), imax) + 1):
+            for j in range(max(int(np.floor(miny / cell_size)), jmin),
+                           min(int(np.floor(maxy / cell_size)), jmax) + 1):
                 cell = rectangle(i * cell_size, (i + 1) * cell_size,
                                  j * cell_size, (j + 1) * cell_size)
                 intersection = voronoi_cell & cell
-- 
2.43.0


From d66bd53d0120bac140789a622c30f6e7877d3cb0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:54:50 +0000
Subject: [PATCH 28/67] fix: density_voronoi_2 sums the areas of the agents
 inside the cell

---
 crowddynamics/core/quantities.py | 16 +++++++---------
 1 file changed, 7 insertions(+), 9 deletions(-)

diff --git a/crowddynamics/core/quantities.py b/crowddynamics/core/quantities.py
index 458ec03..3586b38 100644
--- a/crowddynamics/core/quantities.py
+++ b/crowddynamics/core/quantities.py
@@ -1,6 +1,6 @@
 import numba
 import numpy as np
-from numba import f8, i8
+from numba import f8
 from scipy.spatial import Voronoi
 from shapely.geometry.polygon import Polygon
 
@@ -265,25 +265,23 @@ def density_voronoi_2(points, cell_size):
     # Compute areas for all of the Voronoi regions
     area = np.array([polygon_area(new_vertices[i]) for i in new_regions])
 
-    return _core_2(points, cell_size, area, vor.point_region)
+    return _core_2(points, cell_size, area)
 
 
-@numba.jit([f8[:, :](f8[:, :], f8, f8[:], i8[:])],
+@numba.jit([f8[:, :](f8[:, :], f8, f8[:])],
            nopython=True, nogil=True, cache=True)
-def _core_2(points, cell_size, area, point_region):
+def _core_2(points, cell_size, area):
     """Numerical implementation
 
     Args:
         points:
         cell_size:
-        area:
-        point_region:
+        area: Area of the Voronoi cell of each point
 
     Returns:
 
     """
-    # FIXME
-    indices = (points / cell_size).astype(np.int64)
+    indices = np.floor(points / cell_size).astype(np.int64)
     x, y = indices[:, 0], indices[:, 1]
     x_min, y_min = x.min(), y.min()
     shape = x.max() - x_min + 1, y.max() - y_min + 1
@@ -293,7 +291,7 @@ def _core_2(points, cell_size, area, point_region):
     for k, (i, j) in enumerate(zip(x, y)):
         index = i - x_min, j - y_min
         density[index] += 1
-        area_sum[index] += area[point_region[k]]
+        area_sum[index] += area[k]
 
     n, m = density.shape
     for i in range(n):
-- 
2.43.0


From f0f48eef03d0755e54051ef012dc2c684a1d9397 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:55:06 +0000
Subject: [PATCH 29/67] fix: unbounded Voronoi cells extend over all of the
 points

---
 crowddynamics/core/quantities.py | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/crowddynamics/core/quantities.py b/crowddynamics/core/quantities.py
index 3586b38..f6e2059 100644
--- a/crowddynamics/core/quantities.py
+++ b/crowddynamics/core/quantities.py
@@ -92,7 +92,9 @@ def voronoi_finite_polygons_2d(vor, radius=None):
 
     center = vor.points.mean(axis=0)
     if radius is None:
-        radius = vor.points.ptp().max() * 2
+        # Finite vertices can be further away than the points
+        radius = vor.points.ptp(axis=0).max() * 4 + \
+                 np.linalg.norm(vor.vertices - center, axis=1).max() * 2
 
     # Construct a map containing all ridges for a given point
     all_ridges = {}
@@ -112,6 +114,7 @@ def voronoi_finite_polygons_2d(vor, radius=None):
         # reconstruct a non-finite region
         ridges = all_ridges[p1]
         new_region = [v for v in vertices if v >= 0]
+        outward = np.zeros(2)
 
         for p2, v1, v2 in ridges:
             if v2 < 0:
@@ -129,10 +132,16 @@ def voronoi_finite_polygons_2d(vor, radius=None):
             midpoint = vor.points[[p1, p2]].mean(axis=0)
             direction = np.sign(np.dot(midpoint - center, n)) * n
             far_point = vor.vertices[v2] + direction * radius
+            outward += direction
 
             new_region.append(len(new_vertices))
             new_vertices.append(far_point.tolist())
 
+        # Line between the two far points could cut through the points
+        outward /= np.linalg.norm(outward)
+        new_region.append(len(new_vertices))
+        new_vertices.append((vor.points[p1] + outward * radius).tolist())
+
         # sort region counterclockwise
         vs = np.asarray([new_vertices[v] for v in new_region])
         c = vs.mean(axis=0)
-- 
2.43.0


From d485b4804ef9d6916b906ab94a101098329442fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:56:23 +0000
Subject: [PATCH 30/67] fix: TargetReached names its counters and tests the
 positions of agents

---
 crowddynamics/simulation/logic.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/crowddynamics/simulation/logic.py b/crowddynamics/simulation/logic.py
index f6dba2b..4075be4 100644
--- a/crowddynamics/simulation/logic.py
+++ b/crowddynamics/simulation/logic.py
@@ -374,7 +374,7 @@ class TargetReached(LogicNode):
         # We can only measure polygon targets atm
         for i, target in enumerate(self.simulation.field.targets):
             if isinstance(target, Polygon):
-                name = self.prefix.format(i)
+                name = self.prefix.format(index=i)
                 self.names.append(name)
                 self.paths.append(Path(np.asarray(target.exterior)))
                 self.reached_by.append(np.zeros(size, dtype=np.bool_))
@@ -383,5 +383,6 @@ class TargetReached(LogicNode):
     def update(self):
         # TODO: update target reached
         for name, path, reached_by in zip(self.names, self.paths, self.reached_by):
-            reached_by |= path.contains_points(self.simulation.agents.array)
+            reached_by |= path.contains_points(
+                self.simulation.agents.array['position'])
             self.simulation.data[name] = np.sum(reached_by)
-- 
2.43.0


From 3af3c321080ae6c983be7f038d7b9fdb35add9d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:56:23 +0000
Subject: [PATCH 31/67] fix: agents that return to the domain do not count as
 inactive

---
 crowddynamics/simulation/logic.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/crowddynamics/simulation/logic.py b/crowddynamics/simulation/logic.py
index 4075be4..8917160 100644
--- a/crowddynamics/simulation/logic.py
+++ b/crowddynamics/simulation/logic.py
@@ -351,10 +351,9 @@ class InsideDomain(LogicNode):
     def update(self):
         agents = self.simulation.agents.array
         new_state = self.domain_path.contains_points(agents['position'])
-        change = agents['active'] ^ new_state
         agents['active'] = new_state
 
-        self.simulation.data['inactive'] += np.sum(change)
+        self.simulation.data['inactive'] = np.sum(~new_state)
 
 
 class TargetReached(LogicNode):
-- 
2.43.0


From e24c52206e0b06b2a13c16a763b7a9dff7e5b22a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:56:23 +0000
Subject: [PATCH 32/67] fix: segments of a linestring are sampled by their
 length

---
 crowddynamics/core/sampling.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/crowddynamics/core/sampling.py b/crowddynamics/core/sampling.py
index 83a47a9..f6b6390 100644
--- a/crowddynamics/core/sampling.py
+++ b/crowddynamics/core/sampling.py
@@ -11,9 +11,11 @@ from crowddynamics.core.geom2D import polygon_area
 def linestring_length_cumsum(vertices):
     n = len(vertices) - 1
     cumsum = np.zeros(n)
+    total = 0.0
     for i in range(n):
         diff = vertices[i] - vertices[i + 1]
-        cumsum[i] = np.hypot(diff[0], diff[1])
+        total += np.hypot(diff[0], diff[1])
+        cumsum[i] = total
     return cumsum
 
 
-- 
2.43.0


From 5c8c981cf5c53bccf4df235afb0ad6e3cdc3dfea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:56:23 +0000
Subject: [PATCH 33/67] fix: maps of a field follow changes of its geometry

---
 crowddynamics/simulation/field.py | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/crowddynamics/simulation/field.py b/crowddynamics/simulation/field.py
index 35837c4..c812378 100644
--- a/crowddynamics/simulation/field.py
+++ b/crowddynamics/simulation/field.py
@@ -3,7 +3,7 @@ from functools import lru_cache
 import numpy as np
 from shapely.geometry import Polygon
 from shapely.geometry.base import BaseGeometry
-from traitlets import Instance, List, validate
+from traitlets import Instance, List, observe, validate
 
 from crowddynamics.core.geometry import union
 from crowddynamics.core.sampling import polygon_sample
@@ -84,7 +84,6 @@ class Field(FieldBase):
         Instance(BaseGeometry),
         help='List of spawns')
 
-    # TODO: invalidate caches if field changes?
     # TODO: implement direction and distance map as lazy properties
 
     @validate('domain')
@@ -105,6 +104,14 @@ class Field(FieldBase):
             raise ValidationError('{} should not empty'.format(value))
         return value
 
+    @observe('domain', 'obstacles', 'targets', 'spawns')
+    def _clear_caches(self, change):
+        """Maps computed from previous geometry are not valid anymore."""
+        for method in (Field.meshgrid, Field.shortest_path_target,
+                       Field.direction_map_obstacles,
+                       Field.navigation_to_target):
+            method.cache_clear()
+
     def convex_hull(self):
         """Convex hull of union of all objects in the field."""
         field = BaseGeometry()
-- 
2.43.0


From 546fed0c9fe8984127fbb1aa76e28d652f791c93 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:56:23 +0000
Subject: [PATCH 34/67] fix: poisson_timings leaves the array of players as it
 was

---
 crowddynamics/core/rand.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crowddynamics/core/rand.py b/crowddynamics/core/rand.py
index fe83f20..d8884f8 100644
--- a/crowddynamics/core/rand.py
+++ b/crowddynamics/core/rand.py
@@ -115,7 +115,7 @@ def poisson_timings(players, interval, dt):
     # Compute update times for all agents.
     times = []
     indices = []
-    # TODO: check shuffle doesn't cause any side effects
+    players = players.copy()
     np.random.shuffle(players)
     for i in players:
         for t in poisson_clock(interval, dt):
-- 
2.43.0


From f5fc4febaee2e38671cb88970281bb5377a1f6d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:59:22 +0000
Subject: [PATCH 35/67] fix: import simulations from the given directory

---
 crowddynamics/cli.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/crowddynamics/cli.py b/crowddynamics/cli.py
index ecc7745..6b69728 100644
--- a/crowddynamics/cli.py
+++ b/crowddynamics/cli.py
@@ -27,7 +27,8 @@ def import_simulations(dir_path='.'):
     for path in os.listdir(dir_path):
         base, ext = os.path.splitext(path)
         if ext == '.py':
-            d.update(import_subclasses(path, MultiAgentSimulation))
+            d.update(import_subclasses(os.path.join(dir_path, path),
+                                       MultiAgentSimulation))
     return d
 
 
-- 
2.43.0


From 35abf8d66796cd86b3ab7c7810184ecd6cdf2a46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:59:22 +0000
Subject: [PATCH 36/67] fix: simulation commands run their own simulation with
 the given options

---
 crowddynamics/cli.py | 20 +++++++++++++++++++-
 1 file changed, 19 insertions(+), 1 deletion(-)

diff --git a/crowddynamics/cli.py b/crowddynamics/cli.py
index 6b69728..61b9230 100644
--- a/crowddynamics/cli.py
+++ b/crowddynamics/cli.py
@@ -5,6 +5,7 @@ from collections import OrderedDict
 from pprint import pformat
 
 import click
+from traitlets import Enum
 
 from crowddynamics import __version__
 from crowddynamics.logging import setup_logging, LOGLEVELS
@@ -71,6 +72,23 @@ def run(context, loglevel, num):
     context.obj = dict(num=num)
 
 
+def command_callback(simulation_cls):
+    """Callback which runs a simulation set up from the values of options."""
+    traits = dict(class_own_traits(simulation_cls))
+
+    def to_value(name, value):
+        # Options of enums are chosen by the string representation
+        if isinstance(traits[name], Enum):
+            return next(v for v in traits[name].values if str(v) == value)
+        return value
+
+    def callback(**options):
+        simulation_cls(**{name: to_value(name, value)
+                          for name, value in options.items()}).run()
+
+    return callback
+
+
 def simulation_commands():
     """Make commands simulations imported from python files in current working 
     directory."""
@@ -78,7 +96,7 @@ def simulation_commands():
     for simulation_name, simulation_cls in simulations.items():
         # New command
         command = click.Command(
-            simulation_name, callback=lambda: simulation_cls().run())
+            simulation_name, callback=command_callback(simulation_cls))
 
         # Add the command into run group
         run.add_command(command)
-- 
2.43.0


From 86cd36ea40450a6e36258c7627422ae740c65e4d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:59:22 +0000
Subject: [PATCH 37/67] fix: run as many simulations as --num says

---
 crowddynamics/cli.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/crowddynamics/cli.py b/crowddynamics/cli.py
index 61b9230..4d56506 100644
--- a/crowddynamics/cli.py
+++ b/crowddynamics/cli.py
@@ -83,8 +83,9 @@ def command_callback(simulation_cls):
         return value
 
     def callback(**options):
-        simulation_cls(**{name: to_value(name, value)
-                          for name, value in options.items()}).run()
+        for _ in range(click.get_current_context().obj['num']):
+            simulation_cls(**{name: to_value(name, value)
+                              for name, value in options.items()}).run()
 
     return callback
 
-- 
2.43.0


From 362d2b2a2637b59c65a8c4f727b05d2f3ea086c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:59:22 +0000
Subject: [PATCH 38/67] fix: choices of log levels are strings

---
 crowddynamics/cli.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/crowddynamics/cli.py b/crowddynamics/cli.py
index 4d56506..f8088f0 100644
--- a/crowddynamics/cli.py
+++ b/crowddynamics/cli.py
@@ -60,8 +60,8 @@ def concat_npy(directory, basename):
 
 
 @main.group(chain=True)
-@click.option('--loglevel', type=click.Choice(LOGLEVELS),
-              default=logging.INFO,
+@click.option('--loglevel', type=click.Choice(list(map(str, LOGLEVELS))),
+              default=str(logging.INFO),
               help='Choices for setting logging level.')
 @click.option('--num', type=int, default=1,
               help='Number of simulations to run.')
-- 
2.43.0


From eec82032d62f226d78f1f14bfb8e190d2edae304 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:00:06 +0000
Subject: [PATCH 39/67] fix: geometries of many parts as arrays

---
 crowddynamics/core/geometry.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/crowddynamics/core/geometry.py b/crowddynamics/core/geometry.py
index b254067..d63b97d 100644
--- a/crowddynamics/core/geometry.py
+++ b/crowddynamics/core/geometry.py
@@ -42,7 +42,8 @@ def _geom_to_array(geom: BaseGeometry):
         yield np.array([(np.nan, GeomTypes.POLYGON_SHELL)])
         yield np.asarray(geom.exterior)
     elif isinstance(geom, BaseMultipartGeometry):
-        return chain.from_iterable(map(geom_to_array, geom))
+        for part in geom:
+            yield from _geom_to_array(part)
     else:
         raise TypeError
 
-- 
2.43.0


From 24445c7aba8d37c071951d296179fe5fb8ee11de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:00:06 +0000
Subject: [PATCH 40/67] fix: line segments of the holes of polygons

---
 crowddynamics/core/geometry.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/crowddynamics/core/geometry.py b/crowddynamics/core/geometry.py
index d63b97d..21955d5 100644
--- a/crowddynamics/core/geometry.py
+++ b/crowddynamics/core/geometry.py
@@ -90,7 +90,8 @@ def geom_to_linesegment(geom: BaseGeometry):
     elif isinstance(geom, LineString):
         return zip(geom.coords[:-1], geom.coords[1:])
     elif isinstance(geom, Polygon):
-        return zip(geom.exterior.coords[:-1], geom.exterior.coords[1:])
+        return chain.from_iterable(map(geom_to_linesegment,
+                                       (geom.exterior, *geom.interiors)))
     elif isinstance(geom, BaseMultipartGeometry):
         return chain.from_iterable(map(geom_to_linesegment, geom))
     else:
-- 
2.43.0


From 88d024e14f929a719def2733ee112269f745beed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:00:06 +0000
Subject: [PATCH 41/67] fix: holes do not erase what lies inside of them

---
 crowddynamics/core/geometry.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/crowddynamics/core/geometry.py b/crowddynamics/core/geometry.py
index 21955d5..943b5ee 100644
--- a/crowddynamics/core/geometry.py
+++ b/crowddynamics/core/geometry.py
@@ -117,14 +117,16 @@ def draw_geom(geom: BaseGeometry,
             x, y = skimage.draw.line(r0, c0, r1, c1)
             grid[y, x] = value
     elif isinstance(geom, Polygon):
+        inside = np.full(grid.shape, False, dtype=np.bool_)
         i = indicer(geom.exterior)
         x, y = skimage.draw.polygon(i[:, 0], i[:, 1])
-        grid[y, x] = value
+        inside[y, x] = True
         x, y = skimage.draw.polygon_perimeter(i[:, 0], i[:, 1])
-        grid[y, x] = value
+        inside[y, x] = True
         for j in map(indicer, geom.interiors):
             x, y = skimage.draw.polygon(j[:, 0], j[:, 1])
-            grid[y, x] = 0
+            inside[y, x] = False
+        grid[inside] = value
     elif isinstance(geom, BaseMultipartGeometry):
         for geo in geom:
             draw_geom(geo, grid, indicer, value)
-- 
2.43.0


From 841346da6c7c66acdce87f1149da5bbef2d8b35e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:00:06 +0000
Subject: [PATCH 42/67] fix: spawn samples stay inside the spawn and off the
 obstacles

---
 crowddynamics/simulation/field.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/crowddynamics/simulation/field.py b/crowddynamics/simulation/field.py
index c812378..926a586 100644
--- a/crowddynamics/simulation/field.py
+++ b/crowddynamics/simulation/field.py
@@ -1,7 +1,7 @@
 from functools import lru_cache
 
 import numpy as np
-from shapely.geometry import Polygon
+from shapely.geometry import Point, Polygon
 from shapely.geometry.base import BaseGeometry
 from traitlets import Instance, List, observe, validate
 
@@ -128,7 +128,9 @@ class Field(FieldBase):
         """Generates positions for agents"""
         geom = spawn - obstacles.buffer(radius) if obstacles else spawn
         vertices = np.asarray(geom.convex_hull.exterior)
-        return polygon_sample(vertices)
+        # Convex hull may cover obstacles and the outside of the spawn
+        return (point for point in polygon_sample(vertices)
+                if geom.intersects(Point(point)))
 
     def sample_spawn(self, spawn_index: int, radius: float = 0.3):
         """Generator for sampling points inside spawn without overlapping with
-- 
2.43.0


From 745e9dfaba735f65bbc15c778c3072313cd1d748 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:00:06 +0000
Subject: [PATCH 43/67] fix: options keep the names of traits

---
 crowddynamics/traits.py | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/crowddynamics/traits.py b/crowddynamics/traits.py
index c45f917..5ee3829 100644
--- a/crowddynamics/traits.py
+++ b/crowddynamics/traits.py
@@ -119,32 +119,32 @@ def trait_to_dtype(name, trait):
 def trait_to_option(name, trait):
     if is_trait(trait):
         if isinstance(trait, Int):
-            return click.Option(param_decls=('--' + name,),
+            return click.Option(param_decls=(name, '--' + name),
                                 default=trait.default_value,
                                 type=click.IntRange(trait.min, trait.max))
         elif isinstance(trait, Float):
-            return click.Option(param_decls=('--' + name,),
+            return click.Option(param_decls=(name, '--' + name),
                                 default=trait.default_value,
                                 type=float)
         elif isinstance(trait, Complex):
-            return click.Option(param_decls=('--' + name,),
+            return click.Option(param_decls=(name, '--' + name),
                                 default=trait.default_value,
                                 type=complex)
         elif isinstance(trait, Bool):
-            return click.Option(param_decls=('--' + name,),
+            return click.Option(param_decls=(name, '--' + name),
                                 default=trait.default_value,
                                 is_flag=True)
         elif isinstance(trait, Unicode):
-            return click.Option(param_decls=('--' + name,),
+            return click.Option(param_decls=(name, '--' + name),
                                 default=trait.default_value,
                                 type=str)
         elif isinstance(trait, Enum):
             # FIXME: trait.values should be strings
-            return click.Option(param_decls=('--' + name,),
+            return click.Option(param_decls=(name, '--' + name),
                                 default=str(trait.default_value),
                                 type=click.Choice(list(map(str, trait.values))))
         elif isinstance(trait, Tuple):
-            return click.Option(param_decls=('--' + name,),
+            return click.Option(param_decls=(name, '--' + name),
                                 default=trait.default_value,
                                 type=tuple(
                                     trait_to_type(t) for t in trait._traits))
-- 
2.43.0


From 96b0bde7363a59a82021fb1e1d0a6937d15d0a05 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:12:33 +0000
Subject: [PATCH 44/67] fix: refused change of body type leaves the agent as it
 was

---
 crowddynamics/simulation/agents.py | 17 ++++++++++-------
 1 file changed, 10 insertions(+), 7 deletions(-)

diff --git a/crowddynamics/simulation/agents.py b/crowddynamics/simulation/agents.py
index 28f0ad7..3e3f85a 100644
--- a/crowddynamics/simulation/agents.py
+++ b/crowddynamics/simulation/agents.py
@@ -6,7 +6,7 @@ from configobj import ConfigObj
 from numba import typeof, void, boolean, float64
 from numba.types import UniTuple
 from traitlets.traitlets import HasTraits, Float, default, Unicode, \
-    observe, Bool, Int, Type, Instance, TraitError, Union, List
+    observe, validate, Bool, Int, Type, Instance, TraitError, Union, List
 from traittypes import Array
 
 from crowddynamics.config import load_config, BODY_TYPES_CFG, \
@@ -137,14 +137,17 @@ class BodyType(Body):
     def _default_body_types(self):
         return load_config(BODY_TYPES_CFG, BODY_TYPES_CFG_SPEC)
 
+    @validate('body_type')
+    def _valid_body_type(self, proposal):
+        if self.body_type not in ('', proposal['value']):
+            raise TraitError('Body type can only be set once.')
+        return proposal['value']
+
     @observe('body_type')
     def _observe_body_type(self, change):
-        if change['old'] == '':
-            new = change['new']
-            for k, v in self.body_types[new].items():
-                setattr(self, k, v)
-        else:
-            raise TraitError('Body type can only be set once.')
+        new = change['new']
+        for k, v in self.body_types[new].items():
+            setattr(self, k, v)
 
     @observe('radius_mean', 'radius_scale')
     def _observe_radius_truncnorm(self, change):
-- 
2.43.0


From db009ed0a3fc50049e560ea0081b4b79f813f30b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:17:24 +0000
Subject: [PATCH 45/67] fix: default values of options of tuples

---
 crowddynamics/traits.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crowddynamics/traits.py b/crowddynamics/traits.py
index 5ee3829..8f796c4 100644
--- a/crowddynamics/traits.py
+++ b/crowddynamics/traits.py
@@ -145,7 +145,7 @@ def trait_to_option(name, trait):
                                 type=click.Choice(list(map(str, trait.values))))
         elif isinstance(trait, Tuple):
             return click.Option(param_decls=(name, '--' + name),
-                                default=trait.default_value,
+                                default=trait.make_dynamic_default(),
                                 type=tuple(
                                     trait_to_type(t) for t in trait._traits))
         else:
-- 
2.43.0


From a3b2d9d8e1e0f3b53054640f0f1f04adde474f8b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:29:21 +0000
Subject: [PATCH 46/67] fix: parts of geometries outside of the grid do not
 wrap around

---
 crowddynamics/core/geometry.py | 21 ++++++++++++---------
 1 file changed, 12 insertions(+), 9 deletions(-)

diff --git a/crowddynamics/core/geometry.py b/crowddynamics/core/geometry.py
index 943b5ee..4eb98a2 100644
--- a/crowddynamics/core/geometry.py
+++ b/crowddynamics/core/geometry.py
@@ -108,24 +108,27 @@ def draw_geom(geom: BaseGeometry,
               grid,
               indicer: Callable,
               value):
-    """Draw geom to grid"""
+    """Draw geom to grid. Parts of the geom outside of the grid are not
+    drawn."""
+    def fill(array, indices, fill_value):
+        x, y = indices
+        on_grid = (x >= 0) & (x < grid.shape[1]) & \
+                  (y >= 0) & (y < grid.shape[0])
+        array[y[on_grid], x[on_grid]] = fill_value
+
     if isinstance(geom, Point):
         pass
     elif isinstance(geom, LineString):
         for line in geom_to_linesegment(geom):
             r0, c0, r1, c1 = indicer(line).flatten()
-            x, y = skimage.draw.line(r0, c0, r1, c1)
-            grid[y, x] = value
+            fill(grid, skimage.draw.line(r0, c0, r1, c1), value)
     elif isinstance(geom, Polygon):
         inside = np.full(grid.shape, False, dtype=np.bool_)
         i = indicer(geom.exterior)
-        x, y = skimage.draw.polygon(i[:, 0], i[:, 1])
-        inside[y, x] = True
-        x, y = skimage.draw.polygon_perimeter(i[:, 0], i[:, 1])
-        inside[y, x] = True
+        fill(inside, skimage.draw.polygon(i[:, 0], i[:, 1]), True)
+        fill(inside, skimage.draw.polygon_perimeter(i[:, 0], i[:, 1]), True)
         for j in map(indicer, geom.interiors):
-            x, y = skimage.draw.polygon(j[:, 0], j[:, 1])
-            inside[y, x] = False
+            fill(inside, skimage.draw.polygon(j[:, 0], j[:, 1]), False)
         grid[inside] = value
     elif isinstance(geom, BaseMultipartGeometry):
         for geo in geom:
-- 
2.43.0


From 2b4451831574a34fd76ae157cb09b3d9925916e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:02:43 +0000
Subject: [PATCH 47/67] fix: distance maps are drawn with the width and height
 of the domain

---
 crowddynamics/visualizations.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crowddynamics/visualizations.py b/crowddynamics/visualizations.py
index 1dcbc94..59d6ef4 100644
--- a/crowddynamics/visualizations.py
+++ b/crowddynamics/visualizations.py
@@ -139,7 +139,7 @@ def add_distance_map(fig, mgrid, distance_map, **kwargs):
     """
     kwargs.setdefault('palette', 'Greys256')
     minx, miny, maxx, maxy = mgrid.bounds
-    fig.image([distance_map], minx, miny, maxx, maxy, **kwargs)
+    fig.image([distance_map], minx, miny, maxx - minx, maxy - miny, **kwargs)
 
 
 def add_direction_map(fig: Figure, mgrid, direction_map, freq=2, **kwargs):
-- 
2.43.0


From 60c6a54cb42b5c40bff0e885407c1d291eff3e39 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:02:43 +0000
Subject: [PATCH 48/67] fix: fields without obstacles or domain can be drawn

---
 crowddynamics/visualizations.py | 15 +++++++++------
 1 file changed, 9 insertions(+), 6 deletions(-)

diff --git a/crowddynamics/visualizations.py b/crowddynamics/visualizations.py
index 59d6ef4..a86b7b2 100644
--- a/crowddynamics/visualizations.py
+++ b/crowddynamics/visualizations.py
@@ -115,7 +115,8 @@ def add_field(fig, field):
     """
 
     # Plot spawn and target indices
-    add_geom(fig, field.domain, alpha=0.05)
+    if field.domain is not None:
+        add_geom(fig, field.domain, alpha=0.05)
 
     for spawn in field.spawns:
         add_geom(fig, spawn, alpha=0.5, line_width=0, color='green')
@@ -123,7 +124,8 @@ def add_field(fig, field):
     for target in field.targets:
         add_geom(fig, target, alpha=0.5, line_dash='dashed', color='olive')
 
-    add_geom(fig, field.obstacles, alpha=0.8)
+    if field.obstacles is not None:
+        add_geom(fig, field.obstacles, alpha=0.8)
 
 
 def add_distance_map(fig, mgrid, distance_map, **kwargs):
@@ -214,10 +216,11 @@ def plot_field(field, step=0.02, radius=0.3, strength=0.3, **kwargs):
                  line_dash='dashed',
                  color='olive',)
 
-    add_geom(p, field.obstacles,
-             legend='obstacles',
-             line_width=3.0,
-             alpha=0.8, )
+    if field.obstacles is not None:
+        add_geom(p, field.obstacles,
+                 legend='obstacles',
+                 line_width=3.0,
+                 alpha=0.8, )
 
     p.legend.location = "top_left"
     p.legend.click_policy = "hide"
-- 
2.43.0


From 1d49f2e0a76333deb9f615d010ae6e55d9f2d1dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:15:38 +0000
Subject: [PATCH 49/67] fix: the installed command knows the simulations of the
 directory

The console script calls main() without making commands of simulations first.
---
 crowddynamics/cli.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/crowddynamics/cli.py b/crowddynamics/cli.py
index f8088f0..58c8dd6 100644
--- a/crowddynamics/cli.py
+++ b/crowddynamics/cli.py
@@ -36,8 +36,10 @@ def import_simulations(dir_path='.'):
 @click.group(help="CrowdDynamics {version}. A tool for building and running "
                   "crowd simulations.".format(version=__version__))
 @click.version_option(__version__)
-def main():
-    pass
+@click.pass_context
+def main(context):
+    if context.invoked_subcommand == 'run':
+        simulation_commands()
 
 
 @main.command('list')
@@ -108,5 +110,4 @@ def simulation_commands():
 
 
 if __name__ == "__main__":
-    simulation_commands()
     main()
-- 
2.43.0


From 02145e868a42077523fb624aa7eee9fdc6ad2c5e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:28:09 +0000
Subject: [PATCH 50/67] fix: refuse options which their trait would not accept
 before anything runs

---
 crowddynamics/traits.py | 21 +++++++++++++++++++--
 1 file changed, 19 insertions(+), 2 deletions(-)

diff --git a/crowddynamics/traits.py b/crowddynamics/traits.py
index 8f796c4..be2f01d 100644
--- a/crowddynamics/traits.py
+++ b/crowddynamics/traits.py
@@ -116,6 +116,21 @@ def trait_to_dtype(name, trait):
         raise InvalidType('Trait should be instance of {}'.format(TraitType))
 
 
+def validate_option(trait):
+    """Callback for refusing values of an option that the trait does not
+    accept, for example values which are not between ``min`` and ``max``."""
+
+    def callback(context, parameter, value):
+        if value is None:
+            return value
+        try:
+            return trait.validate(HasTraits(), value)
+        except TraitError as error:
+            raise click.BadParameter(str(error))
+
+    return callback
+
+
 def trait_to_option(name, trait):
     if is_trait(trait):
         if isinstance(trait, Int):
@@ -125,7 +140,8 @@ def trait_to_option(name, trait):
         elif isinstance(trait, Float):
             return click.Option(param_decls=(name, '--' + name),
                                 default=trait.default_value,
-                                type=float)
+                                type=float,
+                                callback=validate_option(trait))
         elif isinstance(trait, Complex):
             return click.Option(param_decls=(name, '--' + name),
                                 default=trait.default_value,
@@ -147,7 +163,8 @@ def trait_to_option(name, trait):
             return click.Option(param_decls=(name, '--' + name),
                                 default=trait.make_dynamic_default(),
                                 type=tuple(
-                                    trait_to_type(t) for t in trait._traits))
+                                    trait_to_type(t) for t in trait._traits),
+                                callback=validate_option(trait))
         else:
             raise InvalidValue('Trait conversion is not supported for: '
                                '{}'.format(trait))
-- 
2.43.0


From eb1d6507cb41f1bdb086743f1eaf5aeb4b78d38c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:04:14 +0000
Subject: [PATCH 51/67] fix: no exits are detected when there are none

---
 crowddynamics/simulation/logic.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/crowddynamics/simulation/logic.py b/crowddynamics/simulation/logic.py
index 8917160..488d09f 100644
--- a/crowddynamics/simulation/logic.py
+++ b/crowddynamics/simulation/logic.py
@@ -244,6 +244,9 @@ class ExitDetection(LogicNode):
         agents = self.simulation.agents.array
         field = self.simulation.field
 
+        if not field.targets:
+            return
+
         center_door = np.stack([
             np.mean(np.asarray(target), axis=0) for target in field.targets])
         obstacles = geom_to_linear_obstacles(field.obstacles)
-- 
2.43.0


From 88dd2ad24f61142f375614afc77713765ee96368 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:04:14 +0000
Subject: [PATCH 52/67] fix: agents in the holes of a domain or target are not
 inside of it

---
 crowddynamics/simulation/logic.py | 20 +++++++++++++++++---
 1 file changed, 17 insertions(+), 3 deletions(-)

diff --git a/crowddynamics/simulation/logic.py b/crowddynamics/simulation/logic.py
index 488d09f..691e8c2 100644
--- a/crowddynamics/simulation/logic.py
+++ b/crowddynamics/simulation/logic.py
@@ -343,6 +343,11 @@ class SaveSimulationData(LogicNode):
 # States
 
 
+def hole_paths(polygon):
+    """Paths around the holes of the polygon"""
+    return [Path(np.asarray(hole)) for hole in polygon.interiors]
+
+
 class InsideDomain(LogicNode):
     """Sets agents not inside the domain inactive."""
     def __init__(self, simulation):
@@ -350,10 +355,13 @@ class InsideDomain(LogicNode):
         self.simulation.data['inactive'] = 0
         field = self.simulation.field
         self.domain_path = Path(np.asarray(field.domain.exterior))
+        self.domain_holes = hole_paths(field.domain)
 
     def update(self):
         agents = self.simulation.agents.array
         new_state = self.domain_path.contains_points(agents['position'])
+        for hole in self.domain_holes:
+            new_state &= ~hole.contains_points(agents['position'])
         agents['active'] = new_state
 
         self.simulation.data['inactive'] = np.sum(~new_state)
@@ -371,6 +379,7 @@ class TargetReached(LogicNode):
 
         self.names = []
         self.paths = []
+        self.holes = []
         self.reached_by = []
 
         # We can only measure polygon targets atm
@@ -379,12 +388,17 @@ class TargetReached(LogicNode):
                 name = self.prefix.format(index=i)
                 self.names.append(name)
                 self.paths.append(Path(np.asarray(target.exterior)))
+                self.holes.append(hole_paths(target))
                 self.reached_by.append(np.zeros(size, dtype=np.bool_))
                 self.simulation.data[name] = 0
 
     def update(self):
         # TODO: update target reached
-        for name, path, reached_by in zip(self.names, self.paths, self.reached_by):
-            reached_by |= path.contains_points(
-                self.simulation.agents.array['position'])
+        position = self.simulation.agents.array['position']
+        for name, path, holes, reached_by in zip(
+                self.names, self.paths, self.holes, self.reached_by):
+            inside = path.contains_points(position)
+            for hole in holes:
+                inside &= ~hole.contains_points(position)
+            reached_by |= inside
             self.simulation.data[name] = np.sum(reached_by)
-- 
2.43.0


From 2d858d5fd947a1ebb8d0b3e5a11402019dcbd385 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:04:14 +0000
Subject: [PATCH 53/67] fix: targets reached are counted also for agents added
 later

---
 crowddynamics/simulation/logic.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/crowddynamics/simulation/logic.py b/crowddynamics/simulation/logic.py
index 691e8c2..0631a48 100644
--- a/crowddynamics/simulation/logic.py
+++ b/crowddynamics/simulation/logic.py
@@ -395,6 +395,11 @@ class TargetReached(LogicNode):
     def update(self):
         # TODO: update target reached
         position = self.simulation.agents.array['position']
+        # Agents may have been added since the previous update
+        self.reached_by = [
+            np.append(reached_by, np.zeros(len(position) - len(reached_by),
+                                           dtype=np.bool_))
+            for reached_by in self.reached_by]
         for name, path, holes, reached_by in zip(
                 self.names, self.paths, self.holes, self.reached_by):
             inside = path.contains_points(position)
-- 
2.43.0


From 9b70bf64edf6b541ed5d1914fedbdd822ab3ac3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:04:14 +0000
Subject: [PATCH 54/67] fix: groups do not overlap agents that have moved since
 they were placed

---
 crowddynamics/simulation/agents.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/crowddynamics/simulation/agents.py b/crowddynamics/simulation/agents.py
index 3e3f85a..fd6d18b 100644
--- a/crowddynamics/simulation/agents.py
+++ b/crowddynamics/simulation/agents.py
@@ -658,6 +658,11 @@ class Agents(AgentsBase):
         if self.agent_type is not group.agent_type:
             raise CrowdDynamicsException
 
+        # Agents may have moved since they were placed
+        self._neighbours = MutableBlockList(cell_size=self.cell_size)
+        for i, position in enumerate(self.array['position']):
+            self._neighbours[position] = i
+
         # resize self.array to fit new agents
         array = np.zeros(group.size, dtype=group.agent_type.dtype())
         self.array = np.concatenate((self.array, array))
-- 
2.43.0


From 42b5f572cc75c361bd707e45f1331c3e3d4c736a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:04:14 +0000
Subject: [PATCH 55/67] fix: geometries which cannot be saved leave the
 previous file as it was

---
 crowddynamics/io.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/crowddynamics/io.py b/crowddynamics/io.py
index a30001d..40492c1 100644
--- a/crowddynamics/io.py
+++ b/crowddynamics/io.py
@@ -181,10 +181,11 @@ def save_geometry_json(filename, geometries):
         geometries (dict):
 
     """
+    obj = {name: geometry_mapping(geom) for name, geom in geometries.items()}
+    # Previous file is replaced only by a complete document
+    text = json.dumps(obj, indent=2, separators=(', ', ': '))
     with open(filename, 'w') as fp:
-        obj = {name: geometry_mapping(geom) for name, geom in
-               geometries.items()}
-        json.dump(obj, fp, indent=2, separators=(', ', ': '))
+        fp.write(text)
 
 
 def load_geometry_json(filename):
-- 
2.43.0


From f94746330a22e50b72517bf1a40d926315dd7439 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:04:14 +0000
Subject: [PATCH 56/67] fix: an index which is no integer is refused whatever
 was asked before

---
 crowddynamics/simulation/field.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/crowddynamics/simulation/field.py b/crowddynamics/simulation/field.py
index 926a586..674c34d 100644
--- a/crowddynamics/simulation/field.py
+++ b/crowddynamics/simulation/field.py
@@ -144,7 +144,7 @@ class Field(FieldBase):
                 'Domain cannot be dicretized if it is None.')
         return meshgrid(step, *self.domain.bounds)
 
-    @lru_cache()
+    @lru_cache(typed=True)
     def shortest_path_target(self, step, index, radius):
         if isinstance(index, (int, np.int64)):
             targets = self.targets[index]
@@ -161,7 +161,7 @@ class Field(FieldBase):
     def direction_map_obstacles(self, step):
         return direction_map_obstacles(self.meshgrid(step), self.obstacles)
 
-    @lru_cache()
+    @lru_cache(typed=True)
     def navigation_to_target(self, index, step, radius, strength):
         if not self.targets:
             raise CrowdDynamicsException('No targets are set.')
-- 
2.43.0


From 66db3cddf5bb5d81ddd2747cbb63877be146a1d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:04:14 +0000
Subject: [PATCH 57/67] fix: choices without default need not be given as
 options

---
 crowddynamics/cli.py    | 3 ++-
 crowddynamics/traits.py | 4 +++-
 2 files changed, 5 insertions(+), 2 deletions(-)

diff --git a/crowddynamics/cli.py b/crowddynamics/cli.py
index 58c8dd6..7a2807c 100644
--- a/crowddynamics/cli.py
+++ b/crowddynamics/cli.py
@@ -87,7 +87,8 @@ def command_callback(simulation_cls):
     def callback(**options):
         for _ in range(click.get_current_context().obj['num']):
             simulation_cls(**{name: to_value(name, value)
-                              for name, value in options.items()}).run()
+                              for name, value in options.items()
+                              if value is not None}).run()
 
     return callback
 
diff --git a/crowddynamics/traits.py b/crowddynamics/traits.py
index be2f01d..9d8b74f 100644
--- a/crowddynamics/traits.py
+++ b/crowddynamics/traits.py
@@ -156,8 +156,10 @@ def trait_to_option(name, trait):
                                 type=str)
         elif isinstance(trait, Enum):
             # FIXME: trait.values should be strings
+            has_default = trait.default_value in trait.values
             return click.Option(param_decls=(name, '--' + name),
-                                default=str(trait.default_value),
+                                default=str(trait.default_value)
+                                if has_default else None,
                                 type=click.Choice(list(map(str, trait.values))))
         elif isinstance(trait, Tuple):
             return click.Option(param_decls=(name, '--' + name),
-- 
2.43.0


From d76f7d158c400dbd4d80ed43541fe53d77272d4e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:52:01 +0000
Subject: [PATCH 58/67] fix: fields without domain or targets are drawn

---
 crowddynamics/visualizations.py | 21 ++++++++++++---------
 1 file changed, 12 insertions(+), 9 deletions(-)

diff --git a/crowddynamics/visualizations.py b/crowddynamics/visualizations.py
index a86b7b2..d61fcd6 100644
--- a/crowddynamics/visualizations.py
+++ b/crowddynamics/visualizations.py
@@ -189,17 +189,20 @@ def plot_field(field, step=0.02, radius=0.3, strength=0.3, **kwargs):
     #     mgrid, distance_map, direction_map = \
     #         self.navigation_to_target(index, step, radius, strength)
 
-    mgrid, distance_map, direction_map = field.navigation_to_target(
-        'closest', step, radius, strength)
+    # There are maps only of the way to targets inside of a domain
+    if field.domain and field.targets:
+        mgrid, distance_map, direction_map = field.navigation_to_target(
+            'closest', step, radius, strength)
 
-    # TODO: masked values on distance map
-    add_distance_map(p, mgrid, distance_map.filled(1.0),
-                     legend='distance_map')
-    add_direction_map(p, mgrid, direction_map, legend='direction_map')
+        # TODO: masked values on distance map
+        add_distance_map(p, mgrid, distance_map.filled(1.0),
+                         legend='distance_map')
+        add_direction_map(p, mgrid, direction_map, legend='direction_map')
 
-    add_geom(p, field.domain,
-             legend='domain',
-             alpha=0.05)
+    if field.domain:
+        add_geom(p, field.domain,
+                 legend='domain',
+                 alpha=0.05)
 
     for i, spawn in enumerate(field.spawns):
         add_geom(p, spawn,
-- 
2.43.0


From 1495d4888c840cc6da58c97e20bfab56f7bee123 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:52:01 +0000
Subject: [PATCH 59/67] fix: agents that were not placed are removed also when
 the positions end

---
 crowddynamics/simulation/agents.py | 18 ++++++++++++------
 1 file changed, 12 insertions(+), 6 deletions(-)

diff --git a/crowddynamics/simulation/agents.py b/crowddynamics/simulation/agents.py
index fd6d18b..7f0a8e5 100644
--- a/crowddynamics/simulation/agents.py
+++ b/crowddynamics/simulation/agents.py
@@ -667,6 +667,18 @@ class Agents(AgentsBase):
         array = np.zeros(group.size, dtype=group.agent_type.dtype())
         self.array = np.concatenate((self.array, array))
 
+        try:
+            self._place_members(group, position_gen, obstacles)
+        finally:
+            # Remove agents that were not placed from self.array
+            self.array = self.array[:self.index]
+
+        # Array should remain contiguous
+        assert self.array.flags.c_contiguous
+
+    def _place_members(self, group, position_gen, obstacles):
+        """Place members of the group until all of them are placed or too many
+        of the positions overlap."""
         index = 0
         overlaps = 0
         overlaps_max = 10 * group.size
@@ -698,9 +710,3 @@ class Agents(AgentsBase):
             self._radius_max = max(self._radius_max, radius)
             self.index += 1
             index += 1
-
-        # Remove agents that didn't fit from self.array
-        self.array = self.array[:self.index]
-
-        # Array should remain contiguous
-        assert self.array.flags.c_contiguous
-- 
2.43.0


From 541be3f1e924e467a5793c48c1774cc33b4ed1c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:52:01 +0000
Subject: [PATCH 60/67] fix: trait declared again in a derived class replaces
 the inherited one

---
 crowddynamics/traits.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/crowddynamics/traits.py b/crowddynamics/traits.py
index 9d8b74f..f84d07a 100644
--- a/crowddynamics/traits.py
+++ b/crowddynamics/traits.py
@@ -210,10 +210,15 @@ def class_traits(cls, exclude_attrs=None, exclude_cls=None):
         >>> # excludes private attributes
         >>> class_traits(cls, exclude_attrs=lambda name: name.startswith('_'))
     """
+    names = set()
     for c in inspect.getmro(cls):
         if callable(exclude_cls) and exclude_cls(c):
             continue
-        yield from class_own_traits(c, exclude_attrs)
+        for name, trait in class_own_traits(c, exclude_attrs):
+            # Trait declared again in a derived class replaces the inherited
+            if name not in names:
+                names.add(name)
+                yield name, trait
 
 
 def class_to_struct_dtype(cls, exclude_attrs, exclude_cls):
-- 
2.43.0


From 5ba9bb6415fdd814bffe4567fa9f703e1ba900ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:32:50 +0000
Subject: [PATCH 61/67] fix: configuration files that do not exist are refused

---
 crowddynamics/config.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crowddynamics/config.py b/crowddynamics/config.py
index b582b50..097fec1 100644
--- a/crowddynamics/config.py
+++ b/crowddynamics/config.py
@@ -22,7 +22,7 @@ BODY_TYPES_CFG_SPEC = os.path.join(CONFIG_ROOT, 'body_types_spec.cfg')
 
 def load_config(infile, configspec=None):
     """Load configuration from INI file."""
-    config = ConfigObj(infile=infile, configspec=configspec)
+    config = ConfigObj(infile=infile, configspec=configspec, file_error=True)
     if configspec and config.validate(Validator()) is not True:
         raise ValidationError
     return config
-- 
2.43.0


From d0ea7fd9f84284610938e3b02d875775873d1b09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:32:50 +0000
Subject: [PATCH 62/67] fix: simulations are imported from a configuration
 given as Path

---
 crowddynamics/config.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crowddynamics/config.py b/crowddynamics/config.py
index 097fec1..26c2ff3 100644
--- a/crowddynamics/config.py
+++ b/crowddynamics/config.py
@@ -42,7 +42,7 @@ def import_simulation_callables(confpath):
     """
     logger = logging.getLogger(__name__)
     base, _ = os.path.split(os.path.abspath(confpath))
-    config = load_config(confpath, configspec=CROWDDYNAMICS_CFG_SPEC)
+    config = load_config(str(confpath), configspec=CROWDDYNAMICS_CFG_SPEC)
     conf = config.get('simulations', [])
 
     if conf:
-- 
2.43.0


From 63357528d17c1e2fbe7bd62f041a6c3b2a933755 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:32:50 +0000
Subject: [PATCH 63/67] fix: exit detection with polygon targets

---
 crowddynamics/simulation/logic.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/crowddynamics/simulation/logic.py b/crowddynamics/simulation/logic.py
index 0631a48..c6a60df 100644
--- a/crowddynamics/simulation/logic.py
+++ b/crowddynamics/simulation/logic.py
@@ -248,6 +248,7 @@ class ExitDetection(LogicNode):
             return
 
         center_door = np.stack([
+            np.asarray(target.centroid) if isinstance(target, Polygon) else
             np.mean(np.asarray(target), axis=0) for target in field.targets])
         obstacles = geom_to_linear_obstacles(field.obstacles)
 
-- 
2.43.0


From 54fd156dd1dc8d7d9e2c57034e6b94f4776a428f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:32:50 +0000
Subject: [PATCH 64/67] fix: agents keep their body type when an unknown one is
 refused

---
 crowddynamics/simulation/agents.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/crowddynamics/simulation/agents.py b/crowddynamics/simulation/agents.py
index 7f0a8e5..7aa04ea 100644
--- a/crowddynamics/simulation/agents.py
+++ b/crowddynamics/simulation/agents.py
@@ -141,6 +141,8 @@ class BodyType(Body):
     def _valid_body_type(self, proposal):
         if self.body_type not in ('', proposal['value']):
             raise TraitError('Body type can only be set once.')
+        if proposal['value'] and proposal['value'] not in self.body_types:
+            raise TraitError('Unknown body type {}.'.format(proposal['value']))
         return proposal['value']
 
     @observe('body_type')
-- 
2.43.0


From f8c667f92b54a615b70c83cb952562c4b81c2cbe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:59:37 +0000
Subject: [PATCH 65/67] fix: attributes of an agent group are not used up
 before its type is set

---
 crowddynamics/simulation/agents.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/crowddynamics/simulation/agents.py b/crowddynamics/simulation/agents.py
index 7aa04ea..8fb00c1 100644
--- a/crowddynamics/simulation/agents.py
+++ b/crowddynamics/simulation/agents.py
@@ -584,7 +584,8 @@ class AgentGroup(HasTraits):
 
     """
     agent_type = Type(
-        AgentType,
+        default_value=None,
+        klass=AgentType,
         allow_none=True,
         help='AgentType for generating agent from attributes.')
     size = Int(
-- 
2.43.0


From ddc547207e339c6c4f43a6ee84cb03c2435564cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:59:37 +0000
Subject: [PATCH 66/67] fix: agent groups do not keep members of previous
 settings

---
 crowddynamics/simulation/agents.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/crowddynamics/simulation/agents.py b/crowddynamics/simulation/agents.py
index 8fb00c1..df64791 100644
--- a/crowddynamics/simulation/agents.py
+++ b/crowddynamics/simulation/agents.py
@@ -610,6 +610,8 @@ class AgentGroup(HasTraits):
             # Generator of attributes can be consumed only once
             return
         self._members_from = members_from
+        # Members of the previous settings
+        self.members = []
         if self.size > 0 and self.attributes is not None and self.agent_type is not None:
             if isinstance(self.attributes, Collection):
                 self.members = [self.agent_type(**a) for a in self.attributes]
-- 
2.43.0


From 322a9af7771a1eead8c18df1fb62f9dc23b75454 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:59:37 +0000
Subject: [PATCH 67/67] fix: agents in sight act on each other also after the
 sight or radius was changed

---
 crowddynamics/simulation/logic.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/crowddynamics/simulation/logic.py b/crowddynamics/simulation/logic.py
index c6a60df..051e5f3 100644
--- a/crowddynamics/simulation/logic.py
+++ b/crowddynamics/simulation/logic.py
@@ -116,7 +116,9 @@ class AgentAgentInteractions(LogicNode):
         return self.sight_soc + 2 * self.max_agent_radius
 
     def update(self):
-        agent_agent_block_list(self.simulation.agents.array, self.cell_size)
+        # Settings of the sight can change after the default was read
+        cell_size = max(self.cell_size, self._default_cell_size())
+        agent_agent_block_list(self.simulation.agents.array, cell_size)
 
 
 class AgentObstacleInteractions(LogicNode):
-- 
2.43.0

