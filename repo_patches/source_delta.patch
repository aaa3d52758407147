From 4f0ec24e520e969975a3cd1d7c8eff9d9a2caf21 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:35:40 +0000
Subject: [PATCH 01/60] fix: match link closures by location name value, not
 object identity

---
 flee/flee.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/flee/flee.py b/flee/flee.py
index c78e94c..5aa6151 100644
--- a/flee/flee.py
+++ b/flee/flee.py
@@ -985,7 +985,7 @@ class Ecosystem:
         removed = False
 
         for i in range(0, len(self.locations[x].links)):
-            if self.locations[x].links[i].endpoint.name is not endpoint:
+            if self.locations[x].links[i].endpoint.name != endpoint:
                 new_links += [self.locations[x].links[i]]
                 continue
 
@@ -1039,7 +1039,7 @@ class Ecosystem:
         #       )
 
         for i in range(0, len(self.locations[x].closed_links)):
-            if self.locations[x].closed_links[i].endpoint.name is not endpoint:
+            if self.locations[x].closed_links[i].endpoint.name != endpoint:
                 # print("[{}] to [{}] ({})".format(
                 #     startpoint,
                 #     self.locations[x].closed_links[i].endpoint.name,
-- 
2.43.0


From 8b1360c633bb99a57e51cdf32508883467452f11 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:36:37 +0000
Subject: [PATCH 02/60] fix: two-way link removal and reopening act on both
 directions

---
 flee/flee.py | 18 +++++++++++-------
 1 file changed, 11 insertions(+), 7 deletions(-)

diff --git a/flee/flee.py b/flee/flee.py
index 5aa6151..688fd40 100644
--- a/flee/flee.py
+++ b/flee/flee.py
@@ -1086,14 +1086,15 @@ class Ecosystem:
         Returns:
             bool: Description
         """
+        removed = self._remove_link_1way(
+            startpoint=startpoint, endpoint=endpoint, close_only=close_only
+        )
         if twoway:
-            return self._remove_link_1way(
+            removed = self._remove_link_1way(
                 startpoint=endpoint, endpoint=startpoint, close_only=close_only
-            )
+            ) or removed
 
-        return self._remove_link_1way(
-            startpoint=startpoint, endpoint=endpoint, close_only=close_only
-        )
+        return removed
 
 
     @check_args_type
@@ -1111,10 +1112,13 @@ class Ecosystem:
         Returns:
             bool: Description
         """
+        reopened = self._reopen_link_1way(startpoint=startpoint, endpoint=endpoint)
         if twoway:
-            return self._reopen_link_1way(startpoint=endpoint, endpoint=startpoint)
+            reopened = self._reopen_link_1way(
+                startpoint=endpoint, endpoint=startpoint
+            ) or reopened
 
-        return self._reopen_link_1way(startpoint=startpoint, endpoint=endpoint)
+        return reopened
 
 
     @check_args_type
-- 
2.43.0


From 2b97902ad9e11f01ea9b197de06c0b70f01dbfad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:36:37 +0000
Subject: [PATCH 03/60] fix: location closures change every incoming and
 outgoing link and terminate

---
 flee/flee.py | 78 ++++++++++++++--------------------------------------
 1 file changed, 21 insertions(+), 57 deletions(-)

diff --git a/flee/flee.py b/flee/flee.py
index 688fd40..34351a2 100644
--- a/flee/flee.py
+++ b/flee/flee.py
@@ -1179,63 +1179,27 @@ class Ecosystem:
             if self.locationNames[i] == location_name:
                 changed_anything = True
 
-                link_set = self.locations[i].links
-                if mode == "reopen":
-                    link_set = self.locations[i].closed_links
-
-                j = 0
-                while j < len(link_set):
-                    if Debug:
-                        print(
-                            "starting to {} link "
-                            "[{}] [{}] in direction {}".format(
-                                mode, location_name, link_set[j].endpoint.name, direction
-                            ),
-                            file=sys.stderr,
-                        )
-                    if mode == "close":
-
-                        if dir_mode % 2 == 0:
-                            self.close_link(
-                                startpoint=link_set[j].endpoint.name,
-                                endpoint=self.locationNames[i],
-                                twoway=False,
-                            )
-
-                        if dir_mode > 0:
-                            if self.close_link(
-                                startpoint=self.locationNames[i],
-                                endpoint=link_set[j].endpoint.name,
-                                twoway=False,
-                            ):
-                                # shrink the link list. # This operation
-                                # affects the overall loop, so no major
-                                # operations should take place after this.
-                                link_set = self.locations[i].links
-                        else:
-                            j += 1
-
-                    elif mode == "reopen":
-
-                        if dir_mode % 2 == 0:
-                            self.reopen_link(
-                                startpoint=link_set[j].endpoint.name,
-                                endpoint=self.locationNames[i],
-                                twoway=False,
-                            )
-
-                        if dir_mode > 0:
-                            if self.reopen_link(
-                                startpoint=self.locationNames[i],
-                                endpoint=link_set[j].endpoint.name,
-                                twoway=False,
-                            ):
-                                # shrink the closed link list. # This operation
-                                # affects the overall loop, so no major
-                                # operations should take place after this.
-                                link_set = self.locations[i].closed_links
-                            else:
-                                j += 1
+                change_link = self.reopen_link if mode == "reopen" else self.close_link
+
+                # Changing a link alters the link lists, so the names of the
+                # affected neighbours are collected beforehand.
+                sources = []
+                dests = []
+                for loc in self.locations:
+                    link_set = loc.closed_links if mode == "reopen" else loc.links
+                    for link in link_set:
+                        if link.endpoint.name == location_name and loc.name not in sources:
+                            sources.append(loc.name)
+                        if loc.name == location_name and link.endpoint.name not in dests:
+                            dests.append(link.endpoint.name)
+
+                if dir_mode % 2 == 0:
+                    for source in sources:
+                        change_link(startpoint=source, endpoint=location_name, twoway=False)
+
+                if dir_mode > 0:
+                    for dest in dests:
+                        change_link(startpoint=location_name, endpoint=dest, twoway=False)
 
         return changed_anything
 
-- 
2.43.0


From b8da98dd51d3af1aeecc5c0ed6ef9e79f3e55059 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:36:37 +0000
Subject: [PATCH 04/60] fix: operations on unknown location names no longer
 change the first location

---
 flee/flee.py | 24 +++++++++++++++++++-----
 1 file changed, 19 insertions(+), 5 deletions(-)

diff --git a/flee/flee.py b/flee/flee.py
index 34351a2..90241e2 100644
--- a/flee/flee.py
+++ b/flee/flee.py
@@ -958,8 +958,7 @@ class Ecosystem:
         #         x = i
 
         if x < 0:
-            print("#Warning: location not found in remove_link", file=sys.stderr)
-            return False
+            print("#Warning: location {} not found.".format(name), file=sys.stderr)
 
         return x
 
@@ -982,6 +981,8 @@ class Ecosystem:
         """
         new_links = []
         x = self._convert_location_name_to_index(name=startpoint)
+        if x < 0:
+            return False
         removed = False
 
         for i in range(0, len(self.locations[x].links)):
@@ -1030,6 +1031,8 @@ class Ecosystem:
         """
         new_closed_links = []
         x = self._convert_location_name_to_index(name=startpoint)
+        if x < 0:
+            return False
         reopened = False
         # print("Reopening link from {} to {}, "
         #       "closed link list length = {}.".format(
@@ -1339,7 +1342,10 @@ class Ecosystem:
         Returns:
             None.
         """     
-        self.locations[self._convert_location_name_to_index(location_name)].close_camp(IDP)
+        x = self._convert_location_name_to_index(location_name)
+        if x < 0:
+            return
+        self.locations[x].close_camp(IDP)
         print("Time = {}. Close camp {}, IDP: {}.".format(self.time, location_name, IDP), file=sys.stderr)
 
 
@@ -1357,7 +1363,10 @@ class Ecosystem:
             None.
         """
 
-        l = self.locations[self._convert_location_name_to_index(location_name)]
+        x = self._convert_location_name_to_index(location_name)
+        if x < 0:
+            return
+        l = self.locations[x]
 
         l.town = False
         l.camp = False
@@ -1413,7 +1422,10 @@ class Ecosystem:
         Returns:
             None.
         """
-        self.locations[self._convert_location_name_to_index(location_name)].open_camp(IDP)
+        x = self._convert_location_name_to_index(location_name)
+        if x < 0:
+            return
+        self.locations[x].open_camp(IDP)
         print("Time = {}. Open camp {}, IDP: {}.".format(self.time, location_name, IDP), file=sys.stderr)
 
 
@@ -1432,6 +1444,8 @@ class Ecosystem:
             None.
         """
         id1 = self._convert_location_name_to_index(loc1_name)
+        if id1 < 0:
+            return
         for i in range(0, len(self.locations[id1].links)):
             if self.locations[id1].links[i].endpoint.name == loc2_name:
                 old_val = self.locations[id1].links[i].forced_redirection
-- 
2.43.0


From 27db1f46fd67003f7e52f542dda0b645ccfff75f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:36:37 +0000
Subject: [PATCH 05/60] fix: changing a location into a conflict zone no longer
 raises an error

---
 flee/flee.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/flee/flee.py b/flee/flee.py
index 90241e2..afbcf3c 100644
--- a/flee/flee.py
+++ b/flee/flee.py
@@ -1384,7 +1384,7 @@ class Ecosystem:
                     l.movechance = SimulationSettings.move_rules["IDPCampMoveChance"]
         elif "conflict" in location_type.lower():
             l.movechance = SimulationSettings.move_rules["ConflictMoveChance"]
-            l.conflict = float(self.attributes.get("conflict_intensity",1.0))
+            l.conflict = float(l.attributes.get("conflict_intensity",1.0))
         elif "forward" in location_type.lower():
             l.movechance = 1.0
             l.forward = True
@@ -1402,7 +1402,7 @@ class Ecosystem:
         else:
             print(
                 "Error in creating Location() object: cannot parse location_type value of"
-                " {} for location object with name {}".format(location_type, name),
+                " {} for location object with name {}".format(location_type, location_name),
                 file=sys.stderr
             )
 
-- 
2.43.0


From e9a5ea75114c3749e41732397a751481eadbe11b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:37:14 +0000
Subject: [PATCH 06/60] fix: clearing locations preserves the agents that are
 elsewhere

---
 flee/flee.py  | 4 ++--
 flee/pflee.py | 2 +-
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/flee/flee.py b/flee/flee.py
index afbcf3c..2d75cfe 100644
--- a/flee/flee.py
+++ b/flee/flee.py
@@ -1807,8 +1807,8 @@ class Ecosystem:
         """
         new_agents = []
         for i in range(0, len(self.agents)):
-            if self.agents[i].location.name not in location_names:
-                new_agents += self.agents[i]  # agent is preserved in ecosystem
+            if self.agents[i].location is None or self.agents[i].location.name not in location_names:
+                new_agents += [self.agents[i]]  # agent is preserved in ecosystem
             else:
                 # agent is removed from the ecosystem and number of agents
                 # drops by one.
diff --git a/flee/pflee.py b/flee/pflee.py
index 23c1b19..4597db5 100644
--- a/flee/pflee.py
+++ b/flee/pflee.py
@@ -687,7 +687,7 @@ class Ecosystem(flee.Ecosystem):
 
         new_agents = []
         for agent in self.agents:
-            if agent.location.name not in location_names:
+            if agent.location is None or agent.location.name not in location_names:
                 new_agents += [agent]
             else:
                 # print("Agent removed: ", agent.location.name)
-- 
2.43.0


From 34dbad7ae4656cf501fef1145b77afdb029effae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:37:14 +0000
Subject: [PATCH 07/60] fix: attributes set on one location or link no longer
 leak into others

---
 flee/flee.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/flee/flee.py b/flee/flee.py
index 2d75cfe..bf88376 100644
--- a/flee/flee.py
+++ b/flee/flee.py
@@ -352,7 +352,7 @@ class Location:
         self.time_of_conflict = -1 # Time that a major conflict event last took place.
         self.numAgentsSpawned = 0
 
-        self.attributes = attributes # This will store a range of attributes that are read from file.
+        self.attributes = dict(attributes) # This will store a range of attributes that are read from file.
 
         if location_type is not None:
             if "camp" in location_type.lower():
@@ -679,7 +679,7 @@ class Link:
         # if True, then all Persons will go down this link.
         self.forced_redirection = forced_redirection
 
-        self.attributes = attributes
+        self.attributes = dict(attributes)
 
 
     @check_args_type
-- 
2.43.0


From f4dc62865952bb7397b8c0f41e4addc24ff1a53c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:37:14 +0000
Subject: [PATCH 08/60] fix: camps can be configured as sinks, with
 probabilities read from file

---
 flee/SimulationSettings.py | 2 +-
 flee/flee.py               | 2 +-
 flee/pflee.py              | 3 ++-
 3 files changed, 4 insertions(+), 3 deletions(-)

diff --git a/flee/SimulationSettings.py b/flee/SimulationSettings.py
index ba12563..2720e4e 100644
--- a/flee/SimulationSettings.py
+++ b/flee/SimulationSettings.py
@@ -143,7 +143,7 @@ class SimulationSettings:
             print("NOTE: conflict_zone_spawning_only is enabled by default, and needs to be disabled when you define flood_zone_spawning_only to be true.", file=sys.stderr)
             sys.exit()
 
-        SimulationSettings.spawn_rules["camps_are_sinks"] = bool(fetchss(dps, "camps_are_sicks", False)) # Camps can deactivate agents.
+        SimulationSettings.spawn_rules["camps_are_sinks"] = bool(fetchss(dps, "camps_are_sinks", False)) # Camps can deactivate agents.
         SimulationSettings.spawn_rules["read_from_agents_csv_file"] = bool(fetchss(dps, "read_from_agents_csv_file", False)) # Load agents from agents.csv file.
 
         SimulationSettings.spawn_rules["sum_from_camps"] = bool(fetchss(dps, "sum_from_camps", True)) #Sum total migrant numbers from camp data numbers, instead of from refugees.csv.
diff --git a/flee/flee.py b/flee/flee.py
index bf88376..e4bffe8 100644
--- a/flee/flee.py
+++ b/flee/flee.py
@@ -1665,7 +1665,7 @@ class Ecosystem:
                     if a.location is not None:
                         if a.location.camp == True:
                             outcome = random.random()
-                            if outcome < a.location.attributes.get("deactivation_probability", 0.0):
+                            if outcome < float(a.location.attributes.get("deactivation_probability", 0.0)):
                                 a.location = None
 
         self.time += 1
diff --git a/flee/pflee.py b/flee/pflee.py
index 4597db5..302e8de 100644
--- a/flee/pflee.py
+++ b/flee/pflee.py
@@ -1,6 +1,7 @@
 from __future__ import annotations
 
 import os
+import random
 import sys
 from functools import wraps
 from typing import List, Optional
@@ -887,7 +888,7 @@ class Ecosystem(flee.Ecosystem):
                 if a.travelling == False:
                     if a.location.camp == True:
                         outcome = random.random()
-                        if outcome < a.location.attributes.get("deactivation_probability", 0.0):
+                        if outcome < float(a.location.attributes.get("deactivation_probability", 0.0)):
                             a.location = None
 
         self.time += 1
-- 
2.43.0


From f5779364aa476779ce1ccae66ab55eed3308bb30 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:37:26 +0000
Subject: [PATCH 09/60] fix: deactivated agents no longer crash parallel
 simulations

---
 flee/pflee.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/flee/pflee.py b/flee/pflee.py
index 302e8de..a6e5e61 100644
--- a/flee/pflee.py
+++ b/flee/pflee.py
@@ -853,14 +853,16 @@ class Ecosystem(flee.Ecosystem):
 
         # update agent locations
         for a in self.agents:
-            a.evolve(self, time=self.time)
+            if a.location is not None:
+                a.evolve(self, time=self.time)
 
         # print("NumAgents after evolve:", file=sys.stderr)
         self.updateNumAgents(CountClosed=True, log=False)
 
         for a in self.agents:
-            a.finish_travel(self, time=self.time)
-            a.timesteps_since_departure += 1
+            if a.location is not None:
+                a.finish_travel(self, time=self.time)
+                a.timesteps_since_departure += 1
 
         if SimulationSettings.log_levels["agent"] > 0:
             write_agents_par(rank=self.mpi.rank, agents=self.agents, time=self.time)
@@ -886,7 +888,7 @@ class Ecosystem(flee.Ecosystem):
         if SimulationSettings.spawn_rules["camps_are_sinks"] == True:
             for a in self.agents:
                 if a.travelling == False:
-                    if a.location.camp == True:
+                    if a.location is not None and a.location.camp == True:
                         outcome = random.random()
                         if outcome < float(a.location.attributes.get("deactivation_probability", 0.0)):
                             a.location = None
-- 
2.43.0


From ae95a185b4c67d35c29c0544990808e7fbd0a01d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:37:26 +0000
Subject: [PATCH 10/60] fix: pruning keeps weights and routes paired when
 values repeat

---
 flee/moving.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/flee/moving.py b/flee/moving.py
index 41fbd30..6ed44ca 100644
--- a/flee/moving.py
+++ b/flee/moving.py
@@ -457,8 +457,8 @@ def pruneRoutes(weights, routes):
     i = 0
     while i < len(weights):
         if weights[i] < min_weight_threshold:
-            weights.remove(weights[i])
-            routes.remove(routes[i])
+            del weights[i]
+            del routes[i]
             i -= 1
         i += 1
 
-- 
2.43.0


From e9fdc6689b69ca122b6fd633a5dcbf9e3a6c1791 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:37:26 +0000
Subject: [PATCH 11/60] fix: ethnicity matching rules no longer raise a
 NameError

---
 flee/moving.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/flee/moving.py b/flee/moving.py
index 6ed44ca..67ba7da 100644
--- a/flee/moving.py
+++ b/flee/moving.py
@@ -2,6 +2,8 @@ import os
 import sys
 import numpy as np
 import random
+
+import flee.spawning as spawning
 from beartype.typing import List, Optional, Tuple
 from flee.SimulationSettings import SimulationSettings
 
-- 
2.43.0


From d5902d66f17cfb7c41ac6884bc5b735f02262f2a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:37:26 +0000
Subject: [PATCH 12/60] fix: population weighting of locations follows
 population^power

---
 flee/moving.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/flee/moving.py b/flee/moving.py
index 67ba7da..53ab312 100644
--- a/flee/moving.py
+++ b/flee/moving.py
@@ -143,12 +143,12 @@ def getEndPointScore(agent, endpoint, time) -> float:
         if SimulationSettings.move_rules["MatchConflictEthnicity"]:
             base *= (spawning.getAttributeRatio(endpoint, agent.attributes["ethnicity"]) * 10.0)
         if SimulationSettings.move_rules["UsePopForLocWeight"]:
-            base *= min(1.0,endpoint.pop)**float(SimulationSettings.move_rules["PopPowerForLocWeight"])
+            base *= float(endpoint.pop)**float(SimulationSettings.move_rules["PopPowerForLocWeight"])
     else:
         if SimulationSettings.move_rules["MatchTownEthnicity"]:
             base *= (spawning.getAttributeRatio(endpoint, agent.attributes["ethnicity"]) * 10.0)
         if SimulationSettings.move_rules["UsePopForLocWeight"]:
-            base *= min(1.0,endpoint.pop)**float(SimulationSettings.move_rules["PopPowerForLocWeight"])
+            base *= float(endpoint.pop)**float(SimulationSettings.move_rules["PopPowerForLocWeight"])
 
     return base
 
-- 
2.43.0


From c2cd6709bccdba4ad365113e597429e0bfe7436a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:37:41 +0000
Subject: [PATCH 13/60] fix: stay_close_to_home measures the distance to the
 agent's home

---
 flee/moving.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/flee/moving.py b/flee/moving.py
index 53ab312..0c600a7 100644
--- a/flee/moving.py
+++ b/flee/moving.py
@@ -50,7 +50,7 @@ def getEndPointScore(agent, endpoint, time) -> float:
 
     if SimulationSettings.move_rules["StayCloseToHome"]:
         power_factor = SimulationSettings.move_rules["HomeDistancePower"]
-        base *= 1.0/(max(1.0,endpoint.calculateDistance(agent.location))**power_factor)
+        base *= 1.0/(max(1.0,endpoint.calculateDistance(agent.home_location))**power_factor)
 
     # DFlee Flood Location Weight implementation
     if SimulationSettings.move_rules["FloodRulesEnabled"] is True:
-- 
2.43.0


From 5fa78bdb0d7e18e82bfd87d05a203633c82877bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:37:41 +0000
Subject: [PATCH 14/60] fix: awareness level 0 selects a neighbouring location
 instead of an index

---
 flee/moving.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/flee/moving.py b/flee/moving.py
index 0c600a7..2f1b044 100644
--- a/flee/moving.py
+++ b/flee/moving.py
@@ -487,7 +487,9 @@ def selectRoute(a, time: int, debug: bool = False, return_all_routes: bool = Fal
 
   if SimulationSettings.move_rules["AwarenessLevel"] == 0:
       linklen = len(a.location.links)
-      return [np.random.randint(0, linklen)]
+      if linklen == 0:
+          return []
+      return [a.location.links[np.random.randint(0, linklen)].endpoint.name]
 
   if SimulationSettings.move_rules["FixedRoutes"] is True:
       for l in a.location.routes.keys():
-- 
2.43.0


From 44bd8ffe4d3b19c635e378f9b59eaa77a21eaa70 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:38:12 +0000
Subject: [PATCH 15/60] fix: agents without any available route stay in place
 instead of crashing

---
 flee/flee.py   | 4 ++++
 flee/moving.py | 5 +++--
 2 files changed, 7 insertions(+), 2 deletions(-)

diff --git a/flee/flee.py b/flee/flee.py
index e4bffe8..3cc9aba 100644
--- a/flee/flee.py
+++ b/flee/flee.py
@@ -140,6 +140,10 @@ class Person:
             or `None` if the agent's route is empty 
             or the next link is invalid.
         """
+        if len(self.route) == 0:
+            # No route could be planned from here.
+            return None
+
         for l in self.location.links:
             # If the name of the destination on the current link is same as the agents current waypoint on the route:
             if l.endpoint.name == self.route[0]:
diff --git a/flee/moving.py b/flee/moving.py
index 2f1b044..2e43a32 100644
--- a/flee/moving.py
+++ b/flee/moving.py
@@ -520,14 +520,15 @@ def selectRoute(a, time: int, debug: bool = False, return_all_routes: bool = Fal
       for i in range(0, len(routes)):
           routes[i] = routes[i][1:]
 
-      weights, routes = pruneRoutes(weights, routes)
+      if len(weights) > 0:
+          weights, routes = pruneRoutes(weights, routes)
 
   route = chooseFromWeights(weights=weights, routes=routes)
 
   if route == None:
       print("WARNING: Empty route (None type) generated in selectRoute.", file=sys.stderr)
       print(f"Location: {a.location.name}, {weights}, {routes}", file=sys.stderr)
-      #sys.exit()
+      return []
   elif len(route) == 0:
       print(f"ERROR: Empty route {route} generated in selectRoute.", file=sys.stderr)
       sys.exit()
-- 
2.43.0


From 367a9ed857fc9c35678128bc5b59b2d4cea2740a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:38:38 +0000
Subject: [PATCH 16/60] fix: agent logs with region granularity report regions
 instead of failing

---
 flee/Diagnostics.py | 10 ++++++----
 flee/flee.py        |  1 +
 2 files changed, 7 insertions(+), 4 deletions(-)

diff --git a/flee/Diagnostics.py b/flee/Diagnostics.py
index 8cef636..55210a7 100644
--- a/flee/Diagnostics.py
+++ b/flee/Diagnostics.py
@@ -88,11 +88,13 @@ def write_agents_par(
                 continue
 
             loc_name = a.location.name
+            home_name = a.home_location.name
             x = a.location.x
             y = a.location.y
 
             if SimulationSettings.log_levels["granularity"] == "region":
-                loc_name = location.region
+                loc_name = a.location.region
+                home_name = a.home_location.region
                 x = 0.0
                 y = 0.0
 
@@ -101,7 +103,7 @@ def write_agents_par(
                     time,
                     rank,
                     k,
-                    a.home_location.name,
+                    home_name,
                     loc_name,
                     x,
                     y,
@@ -132,7 +134,7 @@ def write_agents_par(
                                 hop_number,
                                 rank,
                                 k,
-                                a.home_location.name,
+                                home_name,
                                 loc_name,
                                 x,
                                 y,
@@ -160,7 +162,7 @@ def write_agents_par(
                                 time,
                                 rank,
                                 k,
-                                a.home_location.name,
+                                home_name,
                                 loc_name,
                                 x,
                                 y,
diff --git a/flee/flee.py b/flee/flee.py
index 3cc9aba..ecd2701 100644
--- a/flee/flee.py
+++ b/flee/flee.py
@@ -661,6 +661,7 @@ class Link:
             None.
         """
         self.name = "L:{}:{}".format(startpoint.name, endpoint.name)
+        self.region = "L:{}:{}".format(startpoint.region, endpoint.region)
         self.closed = False
 
         # distance in km.
-- 
2.43.0


From 60b933c7816380dde617f90884ee1dcef7cfd54d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:38:38 +0000
Subject: [PATCH 17/60] fix: agent logging no longer fails when there are no
 agents on day 0

---
 flee/Diagnostics.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/flee/Diagnostics.py b/flee/Diagnostics.py
index 55210a7..434815a 100644
--- a/flee/Diagnostics.py
+++ b/flee/Diagnostics.py
@@ -71,7 +71,7 @@ def write_agents_par(
         my_file = open("agents.out.%s" % rank, "w", encoding="utf-8")
         print(
             "#time,rank-agentid,original_location,current_location,gps_x,gps_y,is_travelling,distance_travelled,"
-            "places_travelled,distance_moved_this_timestep,{}".format(print_attribute_keys(agents[0])),
+            "places_travelled,distance_moved_this_timestep,{}".format(print_attribute_keys(agents[0]) if len(agents) > 0 else ""),
             file=my_file,
         )
     else:
-- 
2.43.0


From 706e363130ac9a7f898fa8f21be54aebae1b81d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:38:38 +0000
Subject: [PATCH 18/60] fix: conflict dates in locations.csv are read from the
 right columns

---
 flee/InputGeography.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/flee/InputGeography.py b/flee/InputGeography.py
index bfdbe6e..a68becc 100644
--- a/flee/InputGeography.py
+++ b/flee/InputGeography.py
@@ -124,7 +124,7 @@ class InputGeography:
         if len(SimulationSettings.ConflictInputFile) == 0:
             conflict_names = []
             for loc in self.locations:
-                if "conflict" in loc[4].lower():
+                if "conflict" in loc[5].lower():
                     conflict_names += [loc[0]]
             print(conflict_names, file=sys.stderr)
             return conflict_names
@@ -658,12 +658,12 @@ class InputGeography:
 
         elif len(SimulationSettings.ConflictInputFile) == 0:
             for loc in self.locations:
-                if "conflict" in loc[4].lower() and int(loc[5]) == time:
+                if "conflict" in loc[5].lower() and int(loc[6]) == time:
                     conflict_intensity = 1.0
                     if e.print_location_output:
                         print(
                             "Time = {}. Adding a new conflict zone [{}] with pop. {} and intensity {}".format(
-                                time, loc[0], int(loc[1]), conflict_intensity
+                                time, loc[0], loc[7], conflict_intensity
                             ),
                             file=sys.stderr,
                         )
-- 
2.43.0


From 23580b59a1ad2289af914c6dd6064b84a6038601 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:38:38 +0000
Subject: [PATCH 19/60] fix: forced redirection of type 1 no longer creates a
 duplicate link

---
 flee/InputGeography.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/flee/InputGeography.py b/flee/InputGeography.py
index a68becc..525f1e5 100644
--- a/flee/InputGeography.py
+++ b/flee/InputGeography.py
@@ -534,7 +534,7 @@ class InputGeography:
                         forced_redirection=True,
                         attributes=attributes,
                     )
-                if int(l3) == 2:
+                elif int(l3) == 2:
                     e.linkUp(
                         endpoint1=link[1],
                         endpoint2=link[0],
-- 
2.43.0


From 54034993d03319087f04e89822dd4707f838ae94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:38:38 +0000
Subject: [PATCH 20/60] fix: missing conflict data is reported instead of
 raising a NameError

---
 flee/InputGeography.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/flee/InputGeography.py b/flee/InputGeography.py
index 525f1e5..0ddc24d 100644
--- a/flee/InputGeography.py
+++ b/flee/InputGeography.py
@@ -675,7 +675,7 @@ class InputGeography:
 
             for conflict_name in conflict_names:
                 if len(self.conflicts[conflict_name]) < (time - 1):
-                    print(f"Error: conflict value at time {time} requested, but the conflicts table for {conflict_name} only has values up to t = {len(conflicts[conflict_name])}.", file=sys.stderr)
+                    print(f"Error: conflict value at time {time} requested, but the conflicts table for {conflict_name} only has values up to t = {len(self.conflicts[conflict_name])}.", file=sys.stderr)
 
                 if Debug and e.getRankN(e.time) is True:
                     print("L:", conflict_name, self.conflicts[conflict_name], time, file=sys.stderr)
-- 
2.43.0


From 4b817ff40b61c891eb39d1c0194121e1c19ea11a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:38:38 +0000
Subject: [PATCH 21/60] fix: comments and empty lines in major routes files are
 skipped

---
 flee/InputGeography.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/flee/InputGeography.py b/flee/InputGeography.py
index 0ddc24d..9065673 100644
--- a/flee/InputGeography.py
+++ b/flee/InputGeography.py
@@ -270,7 +270,8 @@ class InputGeography:
             for row in values:
                 if len(row) == 0 or row[0][0] == "#":
                     pass
-                self.major_routes.append(row)
+                else:
+                    self.major_routes.append(row)
 
 
     @check_args_type
-- 
2.43.0


From 3204216cb7c139fbdefad3bcfcdb4f4ea1456738 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:38:38 +0000
Subject: [PATCH 22/60] fix: spawn_agents picks its locations with the existing
 sampling function

---
 flee/spawning.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/flee/spawning.py b/flee/spawning.py
index 512f11a..4763056 100644
--- a/flee/spawning.py
+++ b/flee/spawning.py
@@ -339,7 +339,7 @@ def spawn_agents(e, number):
     """
     #Insert refugee agents
     for i in range(0, number):
-        loc = e.pick_spawn_location()
+        loc = e.pick_spawn_locations(1)[0]
         attributes = draw_samples(e, loc)
         e.addAgent(location=loc, attributes=attributes) # Parallelization is incorporated *inside* the addAgent function.
 
-- 
2.43.0


From 7a74e313258726f807df643923a52c495b58f6f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:38:38 +0000
Subject: [PATCH 23/60] fix: days without new displacement need no active
 conflict zone

---
 flee/spawning.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/flee/spawning.py b/flee/spawning.py
index 4763056..6ed4288 100644
--- a/flee/spawning.py
+++ b/flee/spawning.py
@@ -317,7 +317,7 @@ def spawn_daily_displaced(e, t, d):
         __refugee_debt = 0
 
       #Insert refugee agents
-      locs = e.pick_spawn_locations(new_refs)
+      locs = e.pick_spawn_locations(new_refs) if new_refs > 0 else []
       for i in range(0, new_refs):
         attributes = draw_samples(e, locs[i])
         e.addAgent(location=locs[i], attributes=attributes) # Parallelization is incorporated *inside* the addAgent function.
-- 
2.43.0


From 478be7bcbf06c8b5dc0dd14641a3a80aa127550b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:39:01 +0000
Subject: [PATCH 24/60] fix: dated conflict zones keep the conflict intensity
 given in locations.csv

---
 flee/InputGeography.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/flee/InputGeography.py b/flee/InputGeography.py
index 9065673..92700ab 100644
--- a/flee/InputGeography.py
+++ b/flee/InputGeography.py
@@ -661,6 +661,9 @@ class InputGeography:
             for loc in self.locations:
                 if "conflict" in loc[5].lower() and int(loc[6]) == time:
                     conflict_intensity = 1.0
+                    for l in e.locations:
+                        if l.name == loc[0]:
+                            conflict_intensity = float(l.attributes.get("conflict_intensity", 1.0))
                     if e.print_location_output:
                         print(
                             "Time = {}. Adding a new conflict zone [{}] with pop. {} and intensity {}".format(
-- 
2.43.0


From 2ae4fb1298c896c35fba06b73eb987fca3f9727f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:03:33 +0000
Subject: [PATCH 25/60] fix: an internal camp that is opened as a camp no
 longer stays an internal camp

---
 flee/flee.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/flee/flee.py b/flee/flee.py
index ecd2701..e83ea2f 100644
--- a/flee/flee.py
+++ b/flee/flee.py
@@ -457,6 +457,7 @@ class Location:
         """
         self.movechance = SimulationSettings.move_rules["CampMoveChance"]
         self.camp = True
+        self.idpcamp = False
         self.conflict = -1.0
         self.town = False
         self.forward = False
-- 
2.43.0


From e4479b0d94347eefa35b0e0e525696d0b070d630 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:03:33 +0000
Subject: [PATCH 26/60] fix: add_conflict_zone starts the conflict also when
 the move chance is to stay as it is

---
 flee/flee.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/flee/flee.py b/flee/flee.py
index e83ea2f..92eedbc 100644
--- a/flee/flee.py
+++ b/flee/flee.py
@@ -1524,9 +1524,9 @@ class Ecosystem:
             if self.locationNames[i] == name:
                 if change_movechance:
                     self.locations[i].movechance = SimulationSettings.move_rules["ConflictMoveChance"]
-                    self.locations[i].conflict = conflict_intensity
-                    self.locations[i].town = False
 
+                self.locations[i].conflict = conflict_intensity
+                self.locations[i].town = False
                 self.locations[i].time_of_conflict = self.time                  
                 spawning.refresh_spawn_weights(self)
 
-- 
2.43.0


From e0dfa9ebc3a964b5a599eb7504d31d3b2d5a61e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:00:54 +0000
Subject: [PATCH 27/60] fix: spawn locations are drawn with the weights of the
 current state, not those of the last step

---
 flee/flee.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/flee/flee.py b/flee/flee.py
index 92eedbc..6c7d01e 100644
--- a/flee/flee.py
+++ b/flee/flee.py
@@ -1604,6 +1604,8 @@ class Ecosystem:
         Returns:
             list[Location]: A list of unique locations.
         """
+        spawning.refresh_spawn_weights(self) # the state may have changed since the last time step.
+
         spawn_weight_total = sum(self.spawn_weights)
 
         assert spawn_weight_total > 0
-- 
2.43.0


From e0a819ef22f4ab9db9ee4292e981ac6ba297093d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:00:54 +0000
Subject: [PATCH 28/60] fix: an empty start subtracts the day-zero value of the
 total, not a sum over all columns

---
 flee/datamanager/DataTable.py | 3 ---
 1 file changed, 3 deletions(-)

diff --git a/flee/datamanager/DataTable.py b/flee/datamanager/DataTable.py
index c365430..97e3d87 100644
--- a/flee/datamanager/DataTable.py
+++ b/flee/datamanager/DataTable.py
@@ -346,7 +346,6 @@ class DataTable:
             # ref_table = self.data_table[0]
 
             new_refugees = 0
-            self.day0pops["total"] = 0
 
             for i in self.header:
                 camp_pop = self.get_field(
@@ -360,13 +359,11 @@ class DataTable:
 
                 if SumFromCamps is True:
                     new_refugees += camp_pop
-                    self.day0pops["total"] += camp_pop
 
             if SumFromCamps is False:
                 new_refugees = self.get_field(
                     name="total", day=0, FullInterpolation=FullInterpolation
                 )
-                self.day0pops["total"] = new_refugees
 
             # Don't have new refugees on Day 0 if we start empty
             new_refugees *= (1 - self.start_empty)
-- 
2.43.0


From f668d89234c00ea3c7c395a5b7bde5c7222a67b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:00:54 +0000
Subject: [PATCH 29/60] fix: adding up several data files keeps every date of
 all of them

---
 flee/datamanager/DataTable.py | 22 ++++++++++++++--------
 1 file changed, 14 insertions(+), 8 deletions(-)

diff --git a/flee/datamanager/DataTable.py b/flee/datamanager/DataTable.py
index 97e3d87..35488b3 100644
--- a/flee/datamanager/DataTable.py
+++ b/flee/datamanager/DataTable.py
@@ -130,23 +130,25 @@ def AddCSVTables(table1: np.ndarray, table2: np.ndarray) -> np.ndarray:
     table = np.zeros([0, 2])
 
     offset = 0
-    last_c2 = np.zeros(([1, 2]))
+    last_c2 = np.zeros(2)
     for c2 in table2:
 
         # If table 2 date value is higher, then keep adding entries from table
         # 1
-        while c2[0] > table1[offset][0]:
+        while offset < len(table1) and c2[0] > table1[offset][0]:
             table = np.vstack([table, [table1[offset][0], last_c2[1] + table1[offset][1]]])
-            if offset < len(table1) - 1:
-                offset += 1
-            else:
-                break
+            offset += 1
+
+        # Beyond the end of table 1, its last value still counts.
+        if offset == len(table1):
+            table = np.vstack([table, [c2[0], c2[1] + table1[-1][1]]])
+            last_c2 = c2
+            continue
 
         # If the two match, add a total.
         if c2[0] == table1[offset][0]:
             table = np.vstack([table, [c2[0], c2[1] + table1[offset][1]]])
-            if offset < len(table1) - 1:
-                offset += 1
+            offset += 1
             last_c2 = c2
             continue
 
@@ -157,6 +159,10 @@ def AddCSVTables(table1: np.ndarray, table2: np.ndarray) -> np.ndarray:
             last_c2 = c2
             continue
 
+    # Add the entries of table 1 that follow the last one of table 2.
+    for c1 in table1[offset:]:
+        table = np.vstack([table, [c1[0], last_c2[1] + c1[1]]])
+
     return table
 
 
-- 
2.43.0


From 31ed4b64bff06df6479d561d785a153f61aec221 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:00:54 +0000
Subject: [PATCH 30/60] fix: level 1 corrections on a date without earlier
 registrations change nothing instead of failing

---
 flee/datamanager/handle_refugee_data.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/flee/datamanager/handle_refugee_data.py b/flee/datamanager/handle_refugee_data.py
index bda8141..b51f160 100644
--- a/flee/datamanager/handle_refugee_data.py
+++ b/flee/datamanager/handle_refugee_data.py
@@ -71,6 +71,8 @@ class RefugeeTable(DataTable.DataTable):
             #If the wrong data is before the simulation period, then ignore the correction altogether.
             return 1.0
 
+        scaling_factor = 1.0
+
         for i in range(0, len(ref_table)):
             if int(ref_table[i][0]) == int(days):
                 # then scale all previous entries by ref_table[i][1]/ref_table[i-1][1]
@@ -84,10 +86,11 @@ class RefugeeTable(DataTable.DataTable):
                         print(f"Last level 1 value: {last_level_1_value} Last data value: {ref_table[i - 1, 1]} Day0Pop: {self.day0pops.get(name, 0)}", file=sys.stderr)
                         sys.exit()
                     # print(days, i, ref_table[0:i,1])
-                    ref_table[0:i, 1] *= first_level_2_value / last_level_1_value
+                    scaling_factor = float(first_level_2_value / last_level_1_value)
+                    ref_table[0:i, 1] *= scaling_factor
                     # print(first_level_2_value, last_level_1_value, ref_table[0:i,1])
 
-        return float(first_level_2_value / last_level_1_value)
+        return scaling_factor
 
     @check_args_type
     def getMaxFromData(self, name: str, days: int) -> int:
-- 
2.43.0


From c44fd1463eb1080aef3921c10f1220497b30bba0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:01:47 +0000
Subject: [PATCH 31/60] fix: demographic attributes may have underscores in
 their names

---
 flee/spawning.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/flee/spawning.py b/flee/spawning.py
index 6ed4288..76445c0 100644
--- a/flee/spawning.py
+++ b/flee/spawning.py
@@ -98,7 +98,7 @@ def read_demographic_csv(e, csvname):
   Returns:
         None.
   """
-  attribute = (csvname.split(os.sep)[1].split('.')[0]).split('_')[1]
+  attribute = os.path.splitext(os.path.basename(csvname))[0].split('_', 1)[1]
 
   if not os.path.exists(csvname):
       return
-- 
2.43.0


From 4fbd3a2c913a57dec56a2576004086ddfe316c1b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:01:47 +0000
Subject: [PATCH 32/60] fix: agents.csv may start with comments or empty lines

---
 flee/InputGeography.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/flee/InputGeography.py b/flee/InputGeography.py
index 92700ab..2cd7591 100644
--- a/flee/InputGeography.py
+++ b/flee/InputGeography.py
@@ -382,11 +382,11 @@ class InputGeography:
         with open(csv_name, newline="", encoding="utf-8") as csvfile:
             values = csv.reader(csvfile)
 
-            i = 0
+            headers = None
             for row in values:
                 if len(row) == 0 or row[0][0] == "#":
                     pass
-                elif i == 0:
+                elif headers is None:
                     headers = row[1:]
                     print(headers)
                 else:
@@ -403,7 +403,6 @@ class InputGeography:
 
                     if not loc_found:
                         print("could not map location to CSV-loaded agent on line. (not count commented lines or empty lines)", sys.stderr)
-                i += 1
 
 
     def StoreInputGeographyInEcosystem(self, e):
-- 
2.43.0


From 24045fd244e315f7b9f8b558f7914adceea379f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:01:47 +0000
Subject: [PATCH 33/60] fix: numeric attributes in agents.csv can be used by
 the age-based move rules

---
 flee/InputGeography.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/flee/InputGeography.py b/flee/InputGeography.py
index 2cd7591..87d3e1a 100644
--- a/flee/InputGeography.py
+++ b/flee/InputGeography.py
@@ -393,7 +393,11 @@ class InputGeography:
                     print(row)
                     attr = {}
                     for i in range (1, len(row)):
-                        attr[headers[i-1]] = row[i]
+                        try:
+                            # Numeric attributes (e.g. age) are compared as numbers by the move rules.
+                            attr[headers[i-1]] = float(row[i]) if "." in row[i] else int(row[i])
+                        except ValueError:
+                            attr[headers[i-1]] = row[i]
 
                     loc_found = False
                     for i in range(0, len(e.locationNames)):
-- 
2.43.0


From 56178d5c389542484338393666985691d31accf8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:01:47 +0000
Subject: [PATCH 34/60] fix: flood zones that are not flooded keep their
 regular attractiveness

---
 flee/scoring.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/flee/scoring.py b/flee/scoring.py
index 9d745f7..35b9ecd 100644
--- a/flee/scoring.py
+++ b/flee/scoring.py
@@ -50,7 +50,8 @@ def updateLocationScore(time: int, loc) -> None:
         flood_level = loc.attributes.get("flood_level")
         
         if flood_level is not None:
-            score *= float(SimulationSettings.move_rules["FloodLocWeights"][flood_level])
+            if flood_level > 0: # locations that are not flooded keep their regular score.
+                score *= float(SimulationSettings.move_rules["FloodLocWeights"][flood_level])
         
             #Flooding Forecaster Location Score Implementation:
             if SimulationSettings.move_rules["FloodForecaster"] is True:
-- 
2.43.0


From be9b77c22a90795a9f8b6abb35554605d34f5f1a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:01:47 +0000
Subject: [PATCH 35/60] fix: template run scripts call the existing spawn
 weight update

---
 flee/config_template/run.py     | 2 +-
 flee/config_template/run_par.py | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/flee/config_template/run.py b/flee/config_template/run.py
index cdac975..fd05277 100644
--- a/flee/config_template/run.py
+++ b/flee/config_template/run.py
@@ -66,7 +66,7 @@ if __name__ == "__main__":
 
     new_refs,refugees_raw,refugee_debt = spawning.spawn_daily_displaced(e,t,d)
 
-    spawning.refresh_conflict_spawn_weights(e)
+    spawning.refresh_spawn_weights(e)
     t_data = t
 
     e.enact_border_closures(t)
diff --git a/flee/config_template/run_par.py b/flee/config_template/run_par.py
index 277907a..19679ed 100644
--- a/flee/config_template/run_par.py
+++ b/flee/config_template/run_par.py
@@ -71,7 +71,7 @@ if __name__ == "__main__":
 
     new_refs,refugees_raw,refugee_debt = spawning.spawn_daily_displaced(e,t,d)
 
-    spawning.refresh_conflict_spawn_weights(e)
+    spawning.refresh_spawn_weights(e)
     t_data = t
 
     e.enact_border_closures(t)
-- 
2.43.0


From f5f20cb2a124ddc45db0996023ffd4a47e2e9007 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:01:47 +0000
Subject: [PATCH 36/60] fix: flood levels are read whenever flood rules are
 enabled

---
 flee/InputGeography.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/flee/InputGeography.py b/flee/InputGeography.py
index 87d3e1a..5a3b886 100644
--- a/flee/InputGeography.py
+++ b/flee/InputGeography.py
@@ -147,7 +147,9 @@ class InputGeography:
 
         if "flood_driven_spawning" in SimulationSettings.spawn_rules.keys():
             # Read flood location attributes.
-            if SimulationSettings.spawn_rules["flood_driven_spawning"] is True:
+            if SimulationSettings.spawn_rules["flood_driven_spawning"] is True or (
+                SimulationSettings.move_rules["FloodRulesEnabled"] is True and len(SimulationSettings.FloodLevelInputFile) > 0
+            ):
                 self.ReadAttributeInputCSV("flood_level","int",SimulationSettings.FloodLevelInputFile)
                 self.ReadAttributeInputCSV("forecast_flood_levels","int",SimulationSettings.FloodLevelInputFile)
 
-- 
2.43.0


From d834667781436440e95e7f4392c0adef3044e22a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:02:06 +0000
Subject: [PATCH 37/60] fix: flood move rules do not leak from earlier settings
 files and are optional in flood-driven runs

---
 flee/SimulationSettings.py | 4 ++++
 flee/moving.py             | 4 ++--
 flee/scoring.py            | 2 +-
 3 files changed, 7 insertions(+), 3 deletions(-)

diff --git a/flee/SimulationSettings.py b/flee/SimulationSettings.py
index 2720e4e..78de88f 100644
--- a/flee/SimulationSettings.py
+++ b/flee/SimulationSettings.py
@@ -178,6 +178,10 @@ class SimulationSettings:
         SimulationSettings.move_rules["FloodForecaster"] = False 
         SimulationSettings.move_rules["flood_forecaster_timescale"] = 0 #defaults to zero days of forecasting abiltiy.
 
+        # Flood move rules are optional, and should not linger from settings files read earlier.
+        for a in ["FloodMovechances", "FloodLocWeights", "FloodLinkWeights", "FloodForecasterWeights", "FloodAwarenessWeights"]:
+            SimulationSettings.move_rules[a] = None
+
         if spawn_type == "flood":
           dpsc = fetchss(dps,"flood_driven_spawning",None)
           if dpsc is not None:
diff --git a/flee/moving.py b/flee/moving.py
index 2e43a32..9670fe7 100644
--- a/flee/moving.py
+++ b/flee/moving.py
@@ -57,7 +57,7 @@ def getEndPointScore(agent, endpoint, time) -> float:
         #Get the current flood level of the endpoint, if flood level not set in flood_level.csv then default to zero
         flood_level = endpoint.attributes.get("flood_level",0)
         #print("Link:", endpoint.name, endpoint.attributes, file=sys.stderr)
-        if flood_level > 0:
+        if flood_level > 0 and SimulationSettings.move_rules["FloodLocWeights"] is not None:
             #set the base equal to the flood location weight
             base *= float(SimulationSettings.move_rules["FloodLocWeights"][flood_level])
             #otherwise base score is unaffected by flooding
@@ -352,7 +352,7 @@ def calculateMoveChance(a, ForceTownMove: bool, time) -> float:
         #Get the current flood level of the agents location, if flood level not set in flood_level.csv then default to zero
         flood_level = a.location.attributes.get("flood_level",0)
         
-        if flood_level > 0.0:
+        if flood_level > 0.0 and SimulationSettings.move_rules["FloodMovechances"] is not None:
             #set the base equal to the flood location weight
             movechance = float(SimulationSettings.move_rules["FloodMovechances"][flood_level])
             #otherwise base movechance is unaffected by flooding
diff --git a/flee/scoring.py b/flee/scoring.py
index 35b9ecd..050af20 100644
--- a/flee/scoring.py
+++ b/flee/scoring.py
@@ -50,7 +50,7 @@ def updateLocationScore(time: int, loc) -> None:
         flood_level = loc.attributes.get("flood_level")
         
         if flood_level is not None:
-            if flood_level > 0: # locations that are not flooded keep their regular score.
+            if flood_level > 0 and SimulationSettings.move_rules["FloodLocWeights"] is not None: # locations that are not flooded keep their regular score.
                 score *= float(SimulationSettings.move_rules["FloodLocWeights"][flood_level])
         
             #Flooding Forecaster Location Score Implementation:
-- 
2.43.0


From b7beedf2dce905833196f18d9ccf8091fdbacf37 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:02:06 +0000
Subject: [PATCH 38/60] fix: flood forecasts weigh locations by the average
 forecast, not by its square

---
 flee/moving.py  | 2 +-
 flee/scoring.py | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/flee/moving.py b/flee/moving.py
index 9670fe7..d640a31 100644
--- a/flee/moving.py
+++ b/flee/moving.py
@@ -120,7 +120,7 @@ def getEndPointScore(agent, endpoint, time) -> float:
                     
                   #the flood_forecast_base now represents the total weight of the flooding during the forecast for the endpoint location,
                   # this needed to be divided by the total number of days in the forecast to get the average weight based on the severity and relative imporatance of the forecasted days
-                  flood_forecast_base *= float(flood_forecast_base/forecast_timescale)
+                  flood_forecast_base = float(flood_forecast_base/forecast_timescale)
 
                   #down weight the overall importance of the flood forecast on the base depending on the agents awareness weighting
                   #currently using a simple down weighting, but may want lower awareness agents to only respond to high flood levels 
diff --git a/flee/scoring.py b/flee/scoring.py
index 050af20..9ee9fa2 100644
--- a/flee/scoring.py
+++ b/flee/scoring.py
@@ -110,7 +110,7 @@ def updateLocationScore(time: int, loc) -> None:
 
                             #the flood_forecast_base now represents the total weight of the flooding during the forecast for the endpoint location,
                             # this needed to be divided by the total number of days in the forecast to get the average weight based on the severity and relative imporatance of the forecasted days
-                            flood_forecast_score *= float(flood_forecast_score/forecast_timescale)
+                            flood_forecast_score = float(flood_forecast_score/forecast_timescale)
 
                             # Make the flood_forecast_base effect the actual base score
                             score *= flood_forecast_score
-- 
2.43.0


From a3d0a135bc00289c97c6385c1be62b7664198cfb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:02:33 +0000
Subject: [PATCH 39/60] fix: scores of flood zones use the flood forecast of
 the location

---
 flee/scoring.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/flee/scoring.py b/flee/scoring.py
index 9ee9fa2..b764b69 100644
--- a/flee/scoring.py
+++ b/flee/scoring.py
@@ -85,7 +85,8 @@ def updateLocationScore(time: int, loc) -> None:
                                     forecast_day = forecast_end_time  # same as time + x
 
                                 #Get the forecast flood level for the location on the day we're considering in the for loop
-                                forecast_flood_level = loc.attributes.get("forecast_flood_level",0)
+                                forecast_flood_levels = loc.attributes.get("forecast_flood_levels")
+                                forecast_flood_level = int(forecast_flood_levels[forecast_day]) if forecast_flood_levels is not None else 0
                         
                                 # print("forecast_flood_level",forecast_flood_level, file=sys.stderr)
                                 # print("forecast_day",forecast_day, file=sys.stderr)
-- 
2.43.0


From 3be97a674c2fd2d4cedec50427e98aa76eb9ee5a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:12:49 +0000
Subject: [PATCH 40/60] fix: agent and link logs respect the requested maximum
 and interval

---
 flee/Diagnostics.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/flee/Diagnostics.py b/flee/Diagnostics.py
index 434815a..b1776e5 100644
--- a/flee/Diagnostics.py
+++ b/flee/Diagnostics.py
@@ -77,7 +77,7 @@ def write_agents_par(
     else:
         my_file = open("agents.out.%s" % rank, "a", encoding="utf-8")
 
-    if max_written < 0:
+    if max_written < 0 or max_written > len(agents):
         max_written = len(agents)
 
     if time % timestep_interval == 0:
@@ -193,7 +193,7 @@ def write_agents(agents, time: int, max_written: int = -1, timestep_interval: in
     Returns:
         None.
     """
-    write_agents_par(rank=0, agents=agents, time=time, max_written=-1, timestep_interval=1)
+    write_agents_par(rank=0, agents=agents, time=time, max_written=max_written, timestep_interval=timestep_interval)
 
 
 @check_args_type
@@ -302,5 +302,5 @@ def write_links(locations, time: int, timestep_interval: int = 1) -> None:
     Returns:
         None.
     """
-    write_links_par(rank=0, locations=locations, time=time, timestep_interval=1)
+    write_links_par(rank=0, locations=locations, time=time, timestep_interval=timestep_interval)
 
-- 
2.43.0


From 9abb59ffc90d4dea4db6b6311e532ea8fd103f1f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:56:07 +0000
Subject: [PATCH 41/60] fix: fixed routes use the location scores of the same
 day

---
 flee/flee.py    |  7 +++++++
 flee/pflee.py   | 13 ++++++-------
 flee/scoring.py |  5 -----
 3 files changed, 13 insertions(+), 12 deletions(-)

diff --git a/flee/flee.py b/flee/flee.py
index 6c7d01e..8c24c8d 100644
--- a/flee/flee.py
+++ b/flee/flee.py
@@ -11,6 +11,7 @@ import numpy as np
 from flee.Diagnostics import write_agents, write_links
 from flee.SimulationSettings import SimulationSettings
 import flee.moving as moving
+import flee.crawling as crawling
 import flee.spawning as spawning
 import flee.scoring as scoring
 
@@ -1636,6 +1637,12 @@ class Ecosystem:
             loc.routes = {}
             scoring.updateLocationScore(self.time, loc)
 
+        # routes depend on the scores of other locations, so generate these
+        # only once all scores are up to date.
+        if SimulationSettings.move_rules["FixedRoutes"] is True:
+            for loc in self.locations:
+                crawling.generateLocationRoutes(loc, self.time)
+
         # update agent locations
         for a in self.agents:
             if SimulationSettings.log_levels["agent"] > 1:
diff --git a/flee/pflee.py b/flee/pflee.py
index a6e5e61..af74097 100644
--- a/flee/pflee.py
+++ b/flee/pflee.py
@@ -829,13 +829,12 @@ class Ecosystem(flee.Ecosystem):
                 start_loc_local=offset, end_loc_local=offset + num_locs_on_this_rank
             )
 
-            # Ensure Location Routes are updated on all cores for now.
-            if SimulationSettings.move_rules["FixedRoutes"] is True:
-                for i in range(len(self.locations)):
-                    loc = self.locations[i]
-                    if len(loc.routes) == 0:
-                        #print("INFO: Generating location routes.", file=sys.stderr)
-                        crawling.generateLocationRoutes(loc, self.time)
+        # Routes depend on the scores of other locations, so these are generated
+        # (on all cores for now) once all scores are up to date.
+        if SimulationSettings.move_rules["FixedRoutes"] is True:
+            for loc in self.locations:
+                loc.routes = {}
+                crawling.generateLocationRoutes(loc, self.time)
 
 
         # SYNCHRONIZE SPAWN COUNTS IN LOCATIONS (needed for all versions).
diff --git a/flee/scoring.py b/flee/scoring.py
index b764b69..237e468 100644
--- a/flee/scoring.py
+++ b/flee/scoring.py
@@ -1,5 +1,4 @@
 from flee.SimulationSettings import SimulationSettings
-from flee import crawling
 import numpy as np
 import os
 
@@ -126,7 +125,3 @@ def updateLocationScore(time: int, loc) -> None:
     loc.setScore(1, score)
     # print(time, loc.name,loc.camp,loc.foreign,loc.scores)
 
-    if SimulationSettings.move_rules["FixedRoutes"] is True:
-        #print("INFO: Generating location routes.", file=sys.stderr)
-        crawling.generateLocationRoutes(loc, time)
-
-- 
2.43.0


From 603d9d02bcd6b1219b6c36de86202a7a1efeba9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:56:07 +0000
Subject: [PATCH 42/60] fix: fixed routes pass through markers without using up
 awareness, as other routes do

---
 flee/crawling.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/flee/crawling.py b/flee/crawling.py
index c1f2d30..690cfb6 100644
--- a/flee/crawling.py
+++ b/flee/crawling.py
@@ -144,6 +144,9 @@ def calculateLocCrawlLinkWeight(
 
       _addLocationRoute(source_loc, loc, link, prior_distance, origin_names, time, major=False)
 
+  else:
+      step -= 1
+
   if SimulationSettings.move_rules["AwarenessLevel"] > step:
       # Traverse the tree one step further.
       for lel in link.endpoint.links:
-- 
2.43.0


From 9d74cc9ef83be5b9806ef0d2fc67934e87f3617b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:56:07 +0000
Subject: [PATCH 43/60] fix: major routes are compared with the other routes of
 the same location

---
 flee/crawling.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/flee/crawling.py b/flee/crawling.py
index 690cfb6..3b64e2d 100644
--- a/flee/crawling.py
+++ b/flee/crawling.py
@@ -72,7 +72,7 @@ def _addLocationRoute(
     weight = weight**SimulationSettings.move_rules["WeightPower"]
 
     #print("Adding loc route:", origin_names[1:], link.endpoint.name, file=sys.stderr)
-    if weight > loc.routes.get(link.endpoint.name, [0,None])[0]:
+    if weight > source_loc.routes.get(link.endpoint.name, [0,None])[0]:
         source_loc.routes[link.endpoint.name] = [weight, origin_names[1:] + [link.endpoint.name], link.endpoint]
 
 
-- 
2.43.0


From 3d7e6673281224521c0277fbfc26c684975615b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:56:07 +0000
Subject: [PATCH 44/60] fix: locations can be created with fixed routes and
 awareness level 0

---
 flee/crawling.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/flee/crawling.py b/flee/crawling.py
index 3b64e2d..63f7ecc 100644
--- a/flee/crawling.py
+++ b/flee/crawling.py
@@ -265,8 +265,8 @@ def generateLocationRoutes(l, time: int, debug: bool = False):
   l.routes = {}
 
   if SimulationSettings.move_rules["AwarenessLevel"] == 0:
-    linklen = len(l.links)
-    return [np.random.randint(0, linklen)]
+    # Agents pick a random link in this case, see moving.selectRoute.
+    return l.routes
 
   for k, e in enumerate(l.links):
     calculateLocCrawlLinkWeight(
-- 
2.43.0


From d3323f4b3c17d612b55e6b74543b1bc291ae9e5b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:56:07 +0000
Subject: [PATCH 45/60] fix: major routes with a closed link are not offered
 instead of ending the simulation

---
 flee/crawling.py | 10 +++-------
 1 file changed, 3 insertions(+), 7 deletions(-)

diff --git a/flee/crawling.py b/flee/crawling.py
index 63f7ecc..ef5a46e 100644
--- a/flee/crawling.py
+++ b/flee/crawling.py
@@ -98,18 +98,14 @@ def _addMajorRouteToLocation(
                 selected_endpoint = link.endpoint
                 break
         if selected_endpoint is None:
-            print(f"ERROR: major route {route} cannot be resolved at step {routing_step}. No connection between {current_loc.name} and {route[routing_step]}.", file=sys.stderr)
-            for link in current_loc.links:
-                print(f"Current location {current_loc.name} has a link to {link.endpoint.name}.", file=sys.stderr)
-            sys.exit()
+            # E.g. because one of the links is currently closed.
+            print(f"WARNING: major route {route} cannot be resolved at step {routing_step}. No connection between {current_loc.name} and {route[routing_step]}.", file=sys.stderr)
+            return
         else:
             routing_step += 1
             current_loc = selected_endpoint
             selected_endpoint = None
 
-    print(f"ERROR: major route {route} cannot be resolved at step {routing_step}. No connection between {current_loc.name} and {link.endpoint.name}.", file=sys.stderr)
-    sys.exit()
-
 
 
 @check_args_type
-- 
2.43.0


From 52b52753851e31ec1111b6ad90130155d13d6ab0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:56:07 +0000
Subject: [PATCH 46/60] fix: fixed routes work with flood levels when no flood
 weights are set

---
 flee/crawling.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/flee/crawling.py b/flee/crawling.py
index ef5a46e..9250e3a 100644
--- a/flee/crawling.py
+++ b/flee/crawling.py
@@ -41,7 +41,7 @@ def getLocationCrawlEndPointScore(link, time) -> float:
         #Get the current flood level of the endpoint, if flood level not set in flood_level.csv then default to zero
         flood_level = link.endpoint.attributes.get("flood_level",0)
         #print("Link:", link.endpoint.name, link.endpoint.attributes, file=sys.stderr)
-        if flood_level > 0:
+        if flood_level > 0 and SimulationSettings.move_rules["FloodLocWeights"] is not None:
             #set the base equal to the flood location weight
             base *= float(SimulationSettings.move_rules["FloodLocWeights"][flood_level])
             #otherwise base score is unaffected by flooding
-- 
2.43.0


From 73acd76f17acb6a2ef4532d0d88e7784ddced891 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:08:03 +0000
Subject: [PATCH 47/60] fix: parallel runs keep spawn weights up to date like
 serial runs

---
 flee/pflee.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/flee/pflee.py b/flee/pflee.py
index af74097..8b21e3c 100644
--- a/flee/pflee.py
+++ b/flee/pflee.py
@@ -791,6 +791,8 @@ class Ecosystem(flee.Ecosystem):
             None.
 
         """
+        spawning.refresh_spawn_weights(self) # Required to correctly incorporate TakeFromPopulation and ConflictSpawnDecay.
+
         if self.time == 0:
             # print("rank, num_agents:", self.mpi.rank, len(self.agents))
 
-- 
2.43.0


From 968173edcc6fb8ac6e4c1bbe80fdc9dcdb62ae80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:08:03 +0000
Subject: [PATCH 48/60] fix: parallel agent logs list the locations visited on
 the day itself

---
 flee/pflee.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/flee/pflee.py b/flee/pflee.py
index 8b21e3c..486d41f 100644
--- a/flee/pflee.py
+++ b/flee/pflee.py
@@ -854,6 +854,8 @@ class Ecosystem(flee.Ecosystem):
 
         # update agent locations
         for a in self.agents:
+            if SimulationSettings.log_levels["agent"] > 1:
+                a.locations_visited = []
             if a.location is not None:
                 a.evolve(self, time=self.time)
 
-- 
2.43.0


From 9f910be2314078a0f11b260578d6c989114e4004 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:08:03 +0000
Subject: [PATCH 49/60] fix: parallel runs count agents on closed or removed
 links in the total

---
 flee/pflee.py | 15 +++++++--------
 1 file changed, 7 insertions(+), 8 deletions(-)

diff --git a/flee/pflee.py b/flee/pflee.py
index 486d41f..4f9da59 100644
--- a/flee/pflee.py
+++ b/flee/pflee.py
@@ -535,26 +535,22 @@ class Ecosystem(flee.Ecosystem):
         """
         mode = self.latency_mode
 
-        total = 0
-
         if mode == "low_latency":
             for loc in self.locations:
                 loc.numAgents = self.mpi.CalcCommWorldTotalSingle(loc.numAgentsOnRank)
-                total += loc.numAgents
                 # print("location:", self.time, loc.name, loc.numAgents, file=sys.stderr)
                 for link in loc.links:
                     link.numAgents = self.mpi.CalcCommWorldTotalSingle(link.numAgentsOnRank)
                     # print(self.time, "link:", loc.name, link.numAgents, file=sys.stderr)
-                    total += link.numAgents
                 if CountClosed:
                     for link in loc.closed_links:
                         link.numAgents = self.mpi.CalcCommWorldTotalSingle(link.numAgentsOnRank)
                         # print(self.time, "link [closed]:", loc.name, link.numAgents,
                         #       file=sys.stderr)
-                        total += link.numAgents
-            self.total_agents = total
+            # agents on closed or removed links count too.
+            self.total_agents = int(self.mpi.CalcCommWorldTotalSingle(len(self.agents)))
         elif mode == "high_latency":
-            buf_len = 0
+            buf_len = 1 # the last element is the number of agents on this rank.
 
             buf_len += len(self.locations)
             for loc in self.locations:
@@ -576,6 +572,8 @@ class Ecosystem(flee.Ecosystem):
                         numAgent_buffer[index] = link.numAgentsOnRank
                         index += 1
 
+            numAgent_buffer[index] = len(self.agents)
+
             new_buffer = self.mpi.CalcCommWorldTotal(numAgent_buffer)
 
             index = 0
@@ -590,7 +588,8 @@ class Ecosystem(flee.Ecosystem):
                         link.numAgents = new_buffer[index]
                         index += 1
 
-            self.total_agents = np.sum(new_buffer)
+            # agents on closed or removed links count too.
+            self.total_agents = int(new_buffer[-1])
 
         if self.mpi.rank == 0 and log is True:
             print(
-- 
2.43.0


From 0ebe59d71dca7800ab4fd0a3aa825026ee2b32d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:08:03 +0000
Subject: [PATCH 50/60] fix: parallel runs count every spawned agent once

---
 flee/pflee.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/flee/pflee.py b/flee/pflee.py
index 4f9da59..a736869 100644
--- a/flee/pflee.py
+++ b/flee/pflee.py
@@ -618,7 +618,6 @@ class Ecosystem(flee.Ecosystem):
         if SimulationSettings.spawn_rules["TakeFromPopulation"]:
             if location.pop > 1: 
                 location.pop -= 1
-                location.numAgentsSpawnedOnRank += 1
                 location.numAgentsSpawned += 1
             else:
                 print(
@@ -629,6 +628,8 @@ class Ecosystem(flee.Ecosystem):
                 assert location.pop > 1
         self.total_agents += 1
         if self.total_agents % self.mpi.size == self.mpi.rank:
+            if SimulationSettings.spawn_rules["TakeFromPopulation"]:
+                location.numAgentsSpawnedOnRank += 1
             self.agents.append(Person(self, location=location, attributes=attributes))
 
 
-- 
2.43.0


From d188cd5397a120a4c2975b8b5bc96cbdc282afab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:08:03 +0000
Subject: [PATCH 51/60] fix: parallel runs count internally displaced people
 once

---
 flee/pflee.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/flee/pflee.py b/flee/pflee.py
index a736869..ab54439 100644
--- a/flee/pflee.py
+++ b/flee/pflee.py
@@ -468,8 +468,8 @@ class Ecosystem(flee.Ecosystem):
             if loc.idpcamp:
                 num_idps += loc.numAgents
 
-        num_idps_all = self.mpi.CalcCommWorldTotalSingle(num_idps)
-        return num_idps_all
+        # numAgents already contains the total across all ranks.
+        return int(num_idps)
 
 
     @check_args_type
-- 
2.43.0


From 82ba76186b1fa44a6c8b9f4b535f9f8ad1ded659 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:08:03 +0000
Subject: [PATCH 52/60] fix: random spawning and arrival statistics are the
 same on all ranks of a parallel run

---
 flee/flee.py     | 15 ++++++++++++++
 flee/pflee.py    | 53 ++++++++++++++++++++++++++++++++++++++++++++++++
 flee/spawning.py |  4 ++--
 3 files changed, 70 insertions(+), 2 deletions(-)

diff --git a/flee/flee.py b/flee/flee.py
index 8c24c8d..c661548 100644
--- a/flee/flee.py
+++ b/flee/flee.py
@@ -1618,6 +1618,21 @@ class Ecosystem:
         ).tolist()
 
 
+    @check_args_type
+    def draw_poisson(self, rate: float) -> int:
+        """
+        Summary:
+            Draws a random number of agents from a Poisson distribution.
+
+        Args:
+            rate (float): Expected number of agents.
+
+        Returns:
+            int: The number of agents.
+        """
+        return int(np.random.poisson(rate))
+
+
     @check_args_type
     def evolve(self) -> None:
         """
diff --git a/flee/pflee.py b/flee/pflee.py
index ab54439..6e41b3a 100644
--- a/flee/pflee.py
+++ b/flee/pflee.py
@@ -733,6 +733,59 @@ class Ecosystem(flee.Ecosystem):
         return len(self.agents)
 
 
+    @check_args_type
+    def pick_spawn_locations(self, number: int = 1) -> list:
+        """
+        Summary:
+            Returns weighted random locations, see flee.Ecosystem. The locations
+            are drawn on rank 0, so that all ranks spawn at the same locations.
+
+        Args:
+            number (int, optional): The number of locations to sample. Defaults to 1.
+
+        Returns:
+            list[Location]: A list of locations.
+        """
+        ids = [loc.id for loc in super().pick_spawn_locations(number)]
+        ids = self.mpi.comm.bcast(ids, root=0)
+        return [self.locations[i] for i in ids]
+
+
+    @check_args_type
+    def draw_poisson(self, rate: float) -> int:
+        """
+        Summary:
+            Draws a random number of agents on rank 0, for use on all ranks.
+
+        Args:
+            rate (float): Expected number of agents.
+
+        Returns:
+            int: The number of agents.
+        """
+        return int(self.mpi.comm.bcast(super().draw_poisson(rate), root=0))
+
+
+    @check_args_type
+    def _aggregate_arrivals(self) -> None:
+        """
+        Summary:
+            Adds up arrival statistics across all ranks.
+
+        Args:
+            None.
+
+        Returns:
+            None.
+        """
+        for loc in self.locations:
+            if loc.camp is True:
+                journeys = self.mpi.comm.allgather(loc.incoming_journey_lengths)
+                loc.incoming_journey_lengths = [x for lengths in journeys for x in lengths]
+
+        super()._aggregate_arrivals()
+
+
     @check_args_type
     def synchronize_locations(self, start_loc_local: int, end_loc_local: int, Debug: bool = False) -> None:
         """
diff --git a/flee/spawning.py b/flee/spawning.py
index 76445c0..968894c 100644
--- a/flee/spawning.py
+++ b/flee/spawning.py
@@ -254,7 +254,7 @@ def spawn_daily_displaced(e, t, d):
                 num_spawned = int(SimulationSettings.spawn_rules["displaced_per_conflict_day"] * e.locations[i].pop * e.locations[i].conflict)
 
             elif SimulationSettings.spawn_rules["conflict_spawn_mode"].lower() == "poisson":
-                num_spawned = np.random.poisson(SimulationSettings.spawn_rules["displaced_per_conflict_day"] * e.locations[i].conflict)
+                num_spawned = e.draw_poisson(SimulationSettings.spawn_rules["displaced_per_conflict_day"] * e.locations[i].conflict)
 
         ## Doing the actual spawning here.
         for j in range(0, num_spawned):
@@ -281,7 +281,7 @@ def spawn_daily_displaced(e, t, d):
                 num_spawned = int(SimulationSettings.spawn_rules["displaced_per_flood_day"][flood_level] * e.locations[i].pop)
     
             elif SimulationSettings.spawn_rules["flood_spawn_mode"].lower() == "poisson":
-                num_spawned = np.random.poisson(int(SimulationSettings.spawn_rules["displaced_per_flood_day"][flood_level]))
+                num_spawned = e.draw_poisson(int(SimulationSettings.spawn_rules["displaced_per_flood_day"][flood_level]))
 
         ## Doing the actual spawning here.
         for j in range(0, num_spawned):
-- 
2.43.0


From 174e96a8e6f4b6455e876859388d5667acb375a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:08:03 +0000
Subject: [PATCH 53/60] fix: run_par.py starts when IDP totals are logged

---
 runscripts/run_par.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/runscripts/run_par.py b/runscripts/run_par.py
index 751844c..72b9337 100644
--- a/runscripts/run_par.py
+++ b/runscripts/run_par.py
@@ -62,7 +62,7 @@ if __name__ == "__main__":
   output_header_string += "Total error,refugees in camps (UNHCR),total refugees (simulation),raw UNHCR refugee count,refugees in camps (simulation),refugee_debt"
 
   if SimulationSettings.log_levels["idp_totals"] > 0:
-      output += ",total IDPs".format(e.numIDPs())
+      output_header_string += ",total IDPs"
 
   if e.getRankN(0):
       print(output_header_string)
-- 
2.43.0


From 863e17ec7fb1195f96294fed67b8cadabce77771 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:12:55 +0000
Subject: [PATCH 54/60] fix: head counts of parallel runs include new agents
 and closed links every day

---
 flee/pflee.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/flee/pflee.py b/flee/pflee.py
index 6e41b3a..ead2475 100644
--- a/flee/pflee.py
+++ b/flee/pflee.py
@@ -700,7 +700,7 @@ class Ecosystem(flee.Ecosystem):
         print("clearLocationsFromAgents()", file=sys.stderr)
         # when numAgentsOnRank has changed, we need to updateNumAgents (1x
         # MPI_Allreduce)
-        self.updateNumAgents(log=False)
+        self.updateNumAgents(CountClosed=True, log=False)
 
 
     @check_args_type
@@ -905,6 +905,9 @@ class Ecosystem(flee.Ecosystem):
         for i, le in enumerate(self.locations):
             le.numAgentsSpawned = spawn_totals[i]
 
+        # count the agents that have been added since the last time step.
+        self.updateNumAgents(CountClosed=True, log=False)
+
         # update agent locations
         for a in self.agents:
             if SimulationSettings.log_levels["agent"] > 1:
@@ -934,7 +937,7 @@ class Ecosystem(flee.Ecosystem):
             a.distance_moved_this_timestep = 0
 
         # print("NumAgents after finish_travel:", file=sys.stderr)
-        self.updateNumAgents(log=False)
+        self.updateNumAgents(CountClosed=True, log=False)
 
         # update link properties
         if SimulationSettings.log_levels["camp"] > 0:
-- 
2.43.0


From 60d6cc12b4c829210f98fb13a6e63128d7611d9e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:03:00 +0000
Subject: [PATCH 55/60] fix: coupled locations without incoming agents in the
 exchange stay empty

---
 flee/coupling.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/flee/coupling.py b/flee/coupling.py
index 84a9f8a..73723cd 100644
--- a/flee/coupling.py
+++ b/flee/coupling.py
@@ -351,12 +351,12 @@ class CouplingInterface:
                     # print(self.names, i, newAgents)
                     if "in" in self.directions[i]:
 
-                        print(
-                            "Couple IN: {} {}".format(self.names[i], newAgents[self.names[i]]),
-                            file=sys.stderr,
-                        )
-
                         if self.names[i] in newAgents:
+                            print(
+                                "Couple IN: {} {}".format(self.names[i], newAgents[self.names[i]]),
+                                file=sys.stderr,
+                            )
+
                             self.e.insertAgents(
                                 location=self.e.locations[self.location_ids[i]],
                                 number=newAgents[self.names[i]],
-- 
2.43.0


From 85e2ad95d48d9180fe7fe518d73637ffe69d4d05 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:03:00 +0000
Subject: [PATCH 56/60] fix: coupled instances may report different locations

---
 flee/coupling.py | 27 ++++++---------------------
 1 file changed, 6 insertions(+), 21 deletions(-)

diff --git a/flee/coupling.py b/flee/coupling.py
index 73723cd..5392f92 100644
--- a/flee/coupling.py
+++ b/flee/coupling.py
@@ -259,13 +259,8 @@ class CouplingInterface:
                                 csv_string=msg.data["newAgents"].split("\n")
                             )
 
-                            if len(newAgents) == 0:
-                                newAgents = curr_newAgent
-                            else:
-                                for name, newAgents_num in curr_newAgent.items():
-                                    if not isinstance(newAgents[name], list):
-                                        newAgents[name] = [newAgents[name]]
-                                    newAgents[name].append(newAgents_num)
+                            for name, newAgents_num in curr_newAgent.items():
+                                newAgents.setdefault(name, []).append(newAgents_num)
 
                         # combined founded newAgents per location by each
                         # instance into one
@@ -291,13 +286,8 @@ class CouplingInterface:
                                 csv_string=msg.data["newAgents"].split("\n")
                             )
 
-                            if len(newAgents) == 0:
-                                newAgents = curr_newAgent
-                            else:
-                                for name, newAgents_num in curr_newAgent.items():
-                                    if not isinstance(newAgents[name], list):
-                                        newAgents[name] = [newAgents[name]]
-                                    newAgents[name].append(newAgents_num)
+                            for name, newAgents_num in curr_newAgent.items():
+                                newAgents.setdefault(name, []).append(newAgents_num)
 
                         # combined founded newAgents per location by
                         # each instance into one
@@ -523,13 +513,8 @@ class CouplingInterface:
                 csv_string = csvfile.read().split("\n")
 
             curr_newAgent = self.extractNewAgentsFromCSVString(csv_string=csv_string)
-            if len(aggNewAgents) == 0:
-                aggNewAgents = curr_newAgent
-            else:
-                for name, newAgents_num in curr_newAgent.items():
-                    if not isinstance(aggNewAgents[name], list):
-                        aggNewAgents[name] = [aggNewAgents[name]]
-                    aggNewAgents[name].append(newAgents_num)
+            for name, newAgents_num in curr_newAgent.items():
+                aggNewAgents.setdefault(name, []).append(newAgents_num)
 
         # combined founded newAgents per location by each instance into one
         # for now, we use arithmetic mean,
-- 
2.43.0


From d9c959784a14ad22888fe72c22c518d7f28cdc6c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:03:00 +0000
Subject: [PATCH 57/60] fix: exchange logs work with serial Flee

---
 flee/coupling.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/flee/coupling.py b/flee/coupling.py
index 5392f92..93a60e0 100644
--- a/flee/coupling.py
+++ b/flee/coupling.py
@@ -621,7 +621,7 @@ class CouplingInterface:
             self.logTotalAgents = []
             # logTotalAgents.append([day,total_agents])
 
-        self.logTotalAgents.append([t, self.e.total_agents])
+        self.logTotalAgents.append([t, self.e.numAgents()])
 
         # save log of numAgents in locations
         if not hasattr(self, "logLocationsNumAgents"):
-- 
2.43.0


From 20b9c35582a96548de327b33fb2ed7799c8ef176 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:03:00 +0000
Subject: [PATCH 58/60] fix: coupling files are complete once they appear

---
 flee/coupling.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/flee/coupling.py b/flee/coupling.py
index 93a60e0..d5d9e96 100644
--- a/flee/coupling.py
+++ b/flee/coupling.py
@@ -2,6 +2,7 @@ from __future__ import annotations, print_function
 
 import csv
 import logging
+import os
 import os.path
 import sys
 import time
@@ -448,8 +449,10 @@ class CouplingInterface:
         csv_outputfile_name = "{}[{}].{}.csv".format(self.outputfilename, self.instance_index, day)
         csv_outputfile_path = os.path.join(self.outputdir, "file", "coupled", csv_outputfile_name)
 
-        with open(csv_outputfile_path, "a", encoding="utf-8") as file:
+        # other codes wait for this file, so it appears in one go once it is complete.
+        with open(csv_outputfile_path + ".tmp", "w", encoding="utf-8") as file:
             file.write(out_csv_string)
+        os.replace(csv_outputfile_path + ".tmp", csv_outputfile_path)
 
         print(
             "{}[{}] t={} Couple: output written to {}".format(
-- 
2.43.0


From 7445044e814bbc75d81100b7f2b92a064ca1cad0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:03:00 +0000
Subject: [PATCH 59/60] fix: the combined output of coupled instances contains
 the mean of all instances

---
 flee/coupling.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/flee/coupling.py b/flee/coupling.py
index d5d9e96..62ec1c2 100644
--- a/flee/coupling.py
+++ b/flee/coupling.py
@@ -669,9 +669,11 @@ class CouplingInterface:
 
         for column_name in list(frame):
             if "error" not in column_name.lower():
-                frame[column_name].round(0).astype(int)
+                frame[column_name] = frame[column_name].round(0).astype(int)
 
-        df.to_csv(os.path.join(dirInputFiles, "out.csv"), encoding="utf-8", index=False)
+        frame.reset_index().to_csv(
+            os.path.join(dirInputFiles, "out.csv"), encoding="utf-8", index=False
+        )
 
     # ------------------------------------------------------------------------
     #                           Plotting functions
-- 
2.43.0


From 69684b6bdbd5079ce41985d6b3c7c232392524c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:30:41 +0000
Subject: [PATCH 60/60] fix: messages of a run do not end up in its output
 table

---
 flee/InputGeography.py | 4 +---
 flee/flee.py           | 3 ++-
 flee/pflee.py          | 5 +++--
 3 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/flee/InputGeography.py b/flee/InputGeography.py
index 5a3b886..bfa469c 100644
--- a/flee/InputGeography.py
+++ b/flee/InputGeography.py
@@ -390,9 +390,7 @@ class InputGeography:
                     pass
                 elif headers is None:
                     headers = row[1:]
-                    print(headers)
                 else:
-                    print(row)
                     attr = {}
                     for i in range (1, len(row)):
                         try:
@@ -408,7 +406,7 @@ class InputGeography:
                             loc_found= True
 
                     if not loc_found:
-                        print("could not map location to CSV-loaded agent on line. (not count commented lines or empty lines)", sys.stderr)
+                        print("could not map location to CSV-loaded agent on line. (not count commented lines or empty lines)", file=sys.stderr)
 
 
     def StoreInputGeographyInEcosystem(self, e):
diff --git a/flee/flee.py b/flee/flee.py
index c661548..de039f6 100644
--- a/flee/flee.py
+++ b/flee/flee.py
@@ -1780,7 +1780,8 @@ class Ecosystem:
             else:
                 print(
                     "WARNING: Number of agents in the simulation is larger than the"
-                    "population of the conflict zone."
+                    "population of the conflict zone.",
+                    file=sys.stderr,
                 )
                 location.print()
             location.numAgentsSpawned += 1
diff --git a/flee/pflee.py b/flee/pflee.py
index ead2475..68cbd9e 100644
--- a/flee/pflee.py
+++ b/flee/pflee.py
@@ -31,7 +31,7 @@ class MPIManager:
 
     def __init__(self):
         if not MPI.Is_initialized():
-            print("Manual MPI_Init performed.")
+            print("Manual MPI_Init performed.", file=sys.stderr)
             MPI.Init()
         self.comm = MPI.COMM_WORLD
         self.rank = self.comm.Get_rank()
@@ -622,7 +622,8 @@ class Ecosystem(flee.Ecosystem):
             else:
                 print(
                     "ERROR: Number of agents in the simulation is larger than the combined "
-                    "population of the conflict zones. Please amend locations.csv." 
+                    "population of the conflict zones. Please amend locations.csv.",
+                    file=sys.stderr,
                 )
                 location.print()
                 assert location.pop > 1
-- 
2.43.0

