import sys; sys.path.insert(0, __file__.rsplit("/", 1)[0])
from plant import plant
PRE = '''import random, sys, json, os
import numpy as np
def settings(**mv):
    from flee.SimulationSettings import SimulationSettings as SS
    import yaml
    sp = mv.pop("spawn", {}); lg = mv.pop("log", {}); opt = mv.pop("opt", {})
    yaml.safe_dump({"log_levels": lg, "spawn_rules": sp, "move_rules": mv, "optimisations": opt}, open("s.yml", "w"))
    SS.ReadFromYML("s.yml")
def world(*names, **mv):
    settings(**mv)
    from flee import flee
    e = flee.Ecosystem()
    for n in names:
        k = {"A": "conflict_zone", "C": "camp", "M": "marker"}.get(n[0], "town")
        e.addLocation(name=n, location_type=k, pop=1000, capacity=-1)
    e.L = {n: l for n, l in zip(names, e.locations)}
    return e
'''
only = sys.argv[1:]
def P(id, *a, **k):
    if not only or id in only:
        plant(id, *a, **k)
FL, MV, SP, DT, DG, SC = "flee/flee.py", "flee/moving.py", "flee/spawning.py", "flee/datamanager/DataTable.py", "flee/Diagnostics.py", "flee/scoring.py"

# --- spawning
P("S01a", "S01", {SP: [('''          __refugee_debt = -new_refs
''', '''          __refugee_debt = max(__refugee_debt, -new_refs)
''')]}, PRE + '''
settings(spawn={"sum_from_camps": True})
from flee import flee, spawning
from flee.datamanager import handle_refugee_data as H
e = flee.Ecosystem()
e.addLocation(name="A", location_type="conflict_zone", pop=100000)
e.addLocation(name="C", location_type="camp", capacity=-1)
os.mkdir("d")
open("d/l.csv", "w").write("total,t.csv\\nC,c.csv\\n")
rows = ["2012-01-01,100", "2012-01-02,90", "2012-01-03,95", "2012-01-04,110"]
for f in "tc": open("d/%s.csv" % f, "w").write("\\n".join(rows) + "\\n")
d = H.RefugeeTable(csvformat="generic", data_directory="d", start_date="2012-01-01", data_layout="l.csv")
got = []
for t in range(4):
    n, raw, debt = spawning.spawn_daily_displaced(e, t, d); got.append((n, debt)); e.evolve()
assert got[1:] == [(0, 10), (0, 5), (10, 0)], got
''', "registrations that fall and recover only partly before the debt is repaid", "a debt that is partly repaid stays at its peak, so later arrivals are too few")

P("S03a", "S03", {SP: [('''                num_spawned = int(SimulationSettings.spawn_rules["displaced_per_flood_day"][flood_level] * e.locations[i].pop)
''', '''                num_spawned = int(SimulationSettings.spawn_rules["displaced_per_flood_day"][flood_level] * (e.locations[i].pop + e.locations[i].numAgentsSpawned))
''')]}, PRE + '''
settings(flood_rules={"max_flood_level": 2, "flood_movechances": [0.0, 0.5, 0.9], "flood_loc_weights": [1.0, 0.5, 0.2]},
  spawn={"take_from_population": True, "flood_driven_spawning": {"spawn_mode": "pop_ratio", "displaced_per_flood_day": [0.0, 0.5, 0.9]}})
from flee import flee, spawning
from flee.SimulationSettings import SimulationSettings as SS
assert SS.spawn_rules["flood_spawn_mode"] == "pop_ratio"
e = flee.Ecosystem()
e.addLocation(name="A", location_type="flood_zone", pop=100, attributes={"flood_level": 1})
got = [spawning.spawn_daily_displaced(e, t, None)[0] for t in range(3)]
assert got == [50, 25, 12], got
''', "flood-driven spawning as a share of a population that is used up", "the share is taken from the original population, not from the remaining one")

P("S04a", "S04", {SP: [('''  num_refugees += int(loc.attributes.get("initial_idps",0))
''', '''  num_refugees = max(num_refugees, int(loc.attributes.get("initial_idps",0)))
''')]}, PRE + '''
settings(spawn={"insert_day0": True})
from flee import flee, spawning
from flee.datamanager import handle_refugee_data as H
e = flee.Ecosystem()
e.addLocation(name="C", location_type="idpcamp", capacity=-1, attributes={"initial_idps": 7})
os.mkdir("d")
open("d/l.csv", "w").write("total,c.csv\\nC,c.csv\\n"); open("d/c.csv", "w").write("2012-01-01,5\\n2012-02-01,5\\n")
d = H.RefugeeTable(csvformat="generic", data_directory="d", start_date="2012-01-01", data_layout="l.csv")
spawning.add_initial_refugees(e, d, e.locations[0])
assert e.locations[0].numAgents == 12, e.locations[0].numAgents
''', "a camp with both registrations and initial internally displaced people", "only the larger of the two groups is placed")

P("S02a", "S02", {SP: [('''                  multiplier = e.locations[i].conflict * SimulationSettings.get_location_conflict_decay(e.time, e.locations[i])
'''.replace("                  multiplier", "                    multiplier"), '''                    multiplier = min(1.0, e.locations[i].conflict) * SimulationSettings.get_location_conflict_decay(e.time, e.locations[i])
''')]}, PRE + '''
settings(spawn={"conflict_spawn_decay": [1.0, 0.5], "conflict_spawn_decay_interval": 30})
from flee import flee, spawning
e = flee.Ecosystem()
e.addLocation(name="A", location_type="conflict_zone", pop=100, attributes={"conflict_intensity": 3.0})
spawning.refresh_spawn_weights(e)
assert e.spawn_weights[0] == 300.0, e.spawn_weights
''', "a conflict intensity above one together with a spawn decay", "intensities above one do not count")

# --- data
P("D01a", "D01", {DT: [('''            if day < ref_table[i, self.days_column]:
                old_val = ref_table[i - 1, self.total_refugee_column]
''', '''            if day <= ref_table[i, self.days_column] and ref_table[i, self.days_column] > ref_table[i - 1, self.days_column] + 1 or day < ref_table[i, self.days_column]:
                old_val = int(ref_table[i - 1, self.total_refugee_column])
''')]}, PRE + '''
from flee.datamanager import handle_refugee_data as H
os.mkdir("d")
open("d/l.csv", "w").write("total,c.csv\\nC,c.csv\\n"); open("d/c.csv", "w").write("2012-01-01,5\\n2012-01-05,26\\n")
d = H.RefugeeTable(csvformat="generic", data_directory="d", start_date="2012-01-01", data_layout="l.csv", population_scaledown_factor=2)
assert [d.get_field("C", t) for t in range(5)] == [2, 5, 7, 10, 13], [d.get_field("C", t) for t in range(5)]
''', "scaled-down counts that are not whole and the days between two registrations", "interpolation starts from a truncated count")

P("D02a", "D02", {DT: []}, "", "", "") if 0 else None

# --- people on the move
P("K01a", "K01", {FL: [('''        self.camp = False
        self.idpcamp = False
        self.conflict = -1.0
        self.town = True
''', '''        self.camp = False
        self.idpcamp = False
        self.conflict = -1.0
        self.town = True
        self.numAgents = max(0, self.numAgents - len([a for a in getattr(self, "incoming_journey_lengths", [])]))
''')]}, PRE + '''
e = world("A", "C", log={"camp": 1}, conflict_movechance=1.0, max_move_speed=200.0)
e.linkUp("A", "C", 150.0)
for _ in range(4): e.addAgent(location=e.L["A"], attributes={})
e.evolve()
c = e.L["C"]
c.incoming_journey_lengths = [1]
c.close_camp()
assert c.numAgents == sum(a.location is c for a in e.agents), c.numAgents
''', "camp logging and a camp that closes on the day of arrivals", "people who arrive at a closing camp are no longer counted") if 0 else None

P("K02a", "K02", {FL: [('''                    if self.distance_moved_this_timestep < todays_travel_speed:
''', '''                    if self.distance_moved_this_timestep < SimulationSettings.move_rules["MaxMoveSpeed"]:
''')]}, PRE + '''
e = world("A", "B", "D", conflict_movechance=1.0, default_movechance=1.0, max_move_speed=200.0, awareness_level=1)
e.linkUp("A", "B", 60.0, attributes={"max_move_speed": 50.0}); e.linkUp("B", "D", 500.0)
a = None
e.addAgent(location=e.L["A"], attributes={})
p = e.agents[0]
e.evolve(); e.evolve()
assert p.location is e.L["B"] or p.places_travelled == 2
assert p.location is e.L["B"], p.location
''', "a slow road whose traveller arrives on a later day", "the person goes on although the day's distance at the road's speed is used up") if 0 else None

P("K02b", "K02", {FL: [('''            if self.places_travelled == 1 and SimulationSettings.move_rules["StartOnFoot"]:
''', '''            if self.timesteps_since_departure < 2 and self.places_travelled == 1 and SimulationSettings.move_rules["StartOnFoot"]:
''')]}, PRE + '''
e = world("A", "B", conflict_movechance=1.0, max_move_speed=200.0, max_walk_speed=10.0, start_on_foot=True)
e.linkUp("A", "B", 500.0)
e.addAgent(location=e.L["A"], attributes={})
for _ in range(5): e.evolve()
assert e.agents[0].distance_travelled_on_link == 50.0, e.agents[0].distance_travelled_on_link
''', "a first road that takes more than two days on foot", "people who start on foot ride from their third day on")

P("K05a", "K05", {FL: []}, "", "", "") if 0 else None

P("R03a", "R03", {MV: [('''    weights = [x/float(sum(weights)) for x in weights]
''', '''    weights = [max(x/float(sum(weights)), 0.02) for x in weights]
''')]}, PRE + '''
e = world("A", "B", "D", conflict_movechance=1.0, max_move_speed=1.0)
from flee import moving
w = moving.normalizeWeights([1.0, 0.001])
assert abs(w[1] - 0.001 / 1.001) < 1e-9, w
''', "routes whose weight is a tiny share of the total", "unlikely routes are chosen in two percent of cases")

P("R01b", "R01", {MV: [('''      if lel.endpoint.name in origin_names:
''', '''      if lel.endpoint.name in origin_names[-2:]:
''')]}, PRE + '''
e = world("A", "B", "D", "E", conflict_movechance=1.0, awareness_level=4)
for x, y in ("AB", "BD", "DE", "EA"): e.linkUp(x, y, 10.0)
e.addAgent(location=e.L["A"], attributes={})
from flee import moving
w, r = moving.selectRoute(e.agents[0], time=0, return_all_routes=True)
assert all(len(set(x)) == len(x) for x in r), r
''', "a cycle of four places and an awareness level above two", "planned routes run in circles")

P("K03a", "K03", {MV: [('''        movechance *= (float(max(a.location.pop, a.location.capacity))''', '''        movechance *= (float(a.location.pop if a.location.pop > 0 else a.location.capacity)''')]}, PRE + '''
e = world("A", conflict_movechance=0.5, movechance_pop_base=100.0, movechance_pop_scale_factor=1.0)
from flee import moving
from flee.SimulationSettings import SimulationSettings as SS
l = e.L["A"]; l.pop = 10; l.capacity = 100
e.addAgent(location=l, attributes={})
assert abs(moving.calculateMoveChance(e.agents[0], False, 0) - 0.5 * (100.0 / SS.move_rules["MovechancePopBase"]) ** SS.move_rules["MovechancePopScaleFactor"]) < 1e-9
''', "a place with both a population and a larger capacity, and population scaling", "the population alone decides the move chance")

# --- logs
P("O01a", "O01", {DG: [('''                    hop_number = 1 # hop counter starts at 1 to indicate second hop in time step.
                    for l in a.locations_visited:
                        loc_name = l.name
                        x = l.x
                        y = l.y
                        if SimulationSettings.log_levels["granularity"] == "region":
''', '''                    hop_number = 1 # hop counter starts at 1 to indicate second hop in time step.
                    for l in dict.fromkeys(a.locations_visited):
                        loc_name = l.name
                        x = l.x
                        y = l.y
                        if SimulationSettings.log_levels["granularity"] == "region":
''')]}, PRE + '''
e = world("A", "B", log={"agent": 3}, conflict_movechance=1.0, default_movechance=1.0, max_move_speed=100.0, avoid_short_stints=True)
e.linkUp("A", "B", 20.0)
e.addAgent(location=e.L["A"], attributes={})
e.evolve()
n = len([x for x in open("agents.out.0") if x.startswith("0-")])
want = e.agents[0].places_travelled - 1 - (not e.agents[0].travelling and 0)
lines = open("agents.out.0").read().splitlines()
hops = [x.split(",")[0] for x in lines if x.startswith("0-")]
assert len(hops) >= 3, lines
''', "a person who passes the same road twice on one day, agent log level 3", "repeated roads are written once only")

P("O02a", "O02", {FL: []}, "", "", "") if 0 else None
