import sys; sys.path.insert(0, "/verif/tools")
from plant import plant
PRE = '''import random, sys, json
import numpy as np
def settings(**mv):
    from flee.SimulationSettings import SimulationSettings as SS
    import yaml
    sp = mv.pop("spawn", {}); lg = mv.pop("log", {})
    yaml.safe_dump({"log_levels": lg, "spawn_rules": sp, "move_rules": mv}, open("s.yml", "w"))
    SS.ReadFromYML("s.yml")
'''
import os
only = sys.argv[1:]
def P(id, *a, **k):
    if not only or id in only:
        plant(id, *a, **k)

P("K04a", "K04", {"flee/flee.py": [('''                if e.locations[i].camp and moving.getCapMultiplier(e.locations[i],1) < 0.5:''',
 '''                if e.locations[i].camp and moving.getCapMultiplier(e.locations[i],len(self.route)) < 0.5 and len(self.route) == 1:''')]},
 PRE + '''
settings(awareness_level=2, conflict_movechance=1.0, max_move_speed=100.0)
from flee import flee
e = flee.Ecosystem()
a = e.addLocation(name="A", location_type="conflict_zone", pop=100)
b = e.addLocation(name="B", location_type="marker")
c = e.addLocation(name="C", location_type="camp", capacity=2)
e.linkUp("A", "B", 100.0); e.linkUp("B", "C", 100.0)
for _ in range(5): e.addAgent(location=c, attributes={})
e.addAgent(location=a, attributes={})
e.evolve()
assert e.agents[-1].location is a and e.agents[-1].route == []
''', "a full camp reached through another place", "people set out towards full camps that are more than one stop away")

P("N01a", "N01", {"flee/flee.py": [('''            if self.locations[x].closed_links[i].endpoint.name != endpoint:
''', '''            if self.locations[x].closed_links[i].endpoint.name != endpoint or reopened:
''')]},
 PRE + '''
settings()
from flee import flee
e = flee.Ecosystem()
for n in "AB": e.addLocation(name=n, location_type="town", pop=100)
e.linkUp("A", "B", 100.0); e.linkUp("A", "B", 50.0)
e.close_link("A", "B"); e.reopen_link("A", "B")
assert sorted(k.get_distance() for k in e.locations[0].links) == [50.0, 100.0]
''', "two parallel roads between the same places that were closed", "only one of two parallel roads is reopened")

P("N03a", "N03", {"flee/flee.py": [('''                self.locations[x].links += [self.locations[x].closed_links[i]]
                self.locations[x].links[-1].closed = False
''', '''                self.locations[x].links += [self.locations[x].closed_links[i]]
                self.locations[x].links[-1].closed = False
                for a in self.agents:
                    if a.travelling and a.location.startpoint is self.locations[x] and a.location.endpoint.name == endpoint:
                        a.location.closed = False
''')]},
 PRE + '''
settings(conflict_movechance=1.0, max_move_speed=100.0)
from flee import flee
e = flee.Ecosystem()
a = e.addLocation(name="A", location_type="conflict_zone", pop=100)
b = e.addLocation(name="B", location_type="camp")
e.linkUp("A", "B", 250.0)
e.addAgent(location=a, attributes={})
e.evolve(); e.close_link("A", "B"); e.evolve(); e.reopen_link("A", "B"); e.evolve()
assert e.agents[0].location is a, e.agents[0].location
''', "a road that closes and reopens while somebody is on it", "travellers turned back by a closure go on to the far end after a reopening")

P("K06a", "K06", {"flee/flee.py": [('''            for loc in self.locations:
                if loc.camp is True:
                    arrival_total += np.sum(loc.incoming_journey_lengths)''', '''            for loc in self.locations:
                if loc.camp is True and len(loc.incoming_journey_lengths) <= loc.numAgents:
                    arrival_total += np.sum(loc.incoming_journey_lengths)''')]},
 PRE + '''
settings(conflict_movechance=1.0, camp_movechance=1.0, default_movechance=0.0, max_move_speed=100.0, log={"camp": 1})
from flee import flee
e = flee.Ecosystem()
a = e.addLocation(name="A", location_type="conflict_zone", pop=100)
b = e.addLocation(name="B", location_type="camp")
c = e.addLocation(name="C", location_type="town")
e.linkUp("A", "B", 40.0)
e.addAgent(location=a, attributes={})
random.seed(1)
for _ in range(6):
    e.evolve()
assert e.num_arrivals == [2, 1, 2, 1, 2, 1], e.num_arrivals
''', "people who arrive at a camp and leave it again on the same day", "their arrivals are counted a day late")

P("R02a", "R02", {"flee/moving.py": [('''    weight = 1.0 - (residual / (cap * (1.0 - nearly_full_occ)))
''', '''    weight = 1.0 - (residual / (location.capacity * (1.0 - nearly_full_occ)))
    weight = min(1.0, max(0.0, weight))
''')]},
 PRE + '''
settings(capacity_scaling=2.0, capacity_buffer=0.5)
from flee import flee, moving
e = flee.Ecosystem()
c = e.addLocation(name="C", location_type="camp", capacity=10)
c.numAgents = 15
assert abs(moving.getCapMultiplier(c, 1) - 0.5) < 1e-9
''', "capacity scaling other than one and occupancy in the near-capacity range", "the crowding factor falls too fast")

P("R05a", "R05", {"flee/scoring.py": [('''score *= SimulationSettings.move_rules["ConflictWeight"]**(SimulationSettings.get_location_conflict_decay(time, loc) * loc.conflict)''',
 '''score *= SimulationSettings.move_rules["ConflictWeight"]**(SimulationSettings.get_location_conflict_decay(time, loc) * min(loc.conflict, 1.0))''')]},
 PRE + '''
settings(conflict_weight=0.25)
from flee import flee
e = flee.Ecosystem()
c = e.addLocation(name="C", location_type="town", pop=10)
e.add_conflict_zone("C", 2.0)
e.evolve()
assert abs(c.getScore(1) - 0.0625) < 1e-9, c.getScore(1)
''', "a conflict intensity above one", "attractiveness ignores intensities above one")

P("R01a", "R01", {"flee/moving.py": [('''  else:
    step -= 1

''', '''  elif len(origin_names) == 1:
    step -= 1

''')]},
 PRE + '''
settings(awareness_level=2, conflict_movechance=1.0)
from flee import flee, moving
e = flee.Ecosystem()
for n, k in (("A", "conflict_zone"), ("B", "town"), ("M", "marker"), ("C", "camp")): e.addLocation(name=n, location_type=k, pop=10)
e.linkUp("A", "B", 10.0); e.linkUp("B", "M", 10.0); e.linkUp("M", "C", 10.0)
e.addAgent(location=e.locations[0], attributes={})
w, r = moving.selectRoute(e.agents[0], time=0, return_all_routes=True)
assert sorted(r) == [["A", "B"], ["A", "B", "M", "C"]], r
''', "a marker that is not next to the origin", "markers further along a route count as stops")

P("L01a", "L01", {"flee/flee.py": [('''        self.movechance = SimulationSettings.move_rules["DefaultMoveChance"]
        self.camp = False
        self.idpcamp = False
        self.conflict = -1.0
        self.town = True
''', '''        self.movechance = SimulationSettings.move_rules["DefaultMoveChance"]
        self.camp = False
        self.idpcamp = self.idpcamp and not IDP
        self.conflict = -1.0
        self.town = True
''')]},
 PRE + '''
settings()
from flee import flee
e = flee.Ecosystem()
c = e.addLocation(name="C", location_type="idpcamp")
e.close_camp("C", IDP=False)
assert not c.idpcamp and e.numIDPs() == 0
''', "an internal camp closed as an ordinary camp", "the closed camp keeps counting as an internal camp")
