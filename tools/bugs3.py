import sys; sys.path.insert(0, __file__.rsplit("/", 1)[0])
from plant import plant
PRE = '''import random, sys, json, os
import numpy as np
def settings(**mv):
    from flee.SimulationSettings import SimulationSettings as SS
    import yaml
    sp = mv.pop("spawn", {}); lg = mv.pop("log", {}); opt = mv.pop("opt", {})
    yaml.safe_dump({"log_levels": lg, "spawn_rules": sp, "move_rules": mv, "optimisations": opt}, open("s.yml", "w"))
    SS.ReadFromYML("s.yml")
def world(*names, **mv):
    settings(**mv)
    from flee import flee
    e = flee.Ecosystem()
    for n in names:
        k = {"A": "conflict_zone", "C": "camp", "M": "marker"}.get(n[0], "town")
        e.addLocation(name=n, location_type=k, pop=1000, capacity=-1)
    e.L = {n: l for n, l in zip(names, e.locations)}
    return e
'''
only = sys.argv[1:]
def P(id, *a, **k):
    if not only or id in only:
        plant(id, *a, **k)
FL, MV, SP, DT, DG, SC = "flee/flee.py", "flee/moving.py", "flee/spawning.py", "flee/datamanager/DataTable.py", "flee/Diagnostics.py", "flee/scoring.py"


FLOW = """
def flow(e, n, loc):
    for _ in range(n): e.addAgent(location=e.L[loc], attributes={})
"""
IG, SS_, CR = "flee/InputGeography.py", "flee/SimulationSettings.py", "flee/crawling.py"
DATA = PRE + """
from flee.datamanager import handle_refugee_data as H
def table(start="2012-01-01", files={}, start_empty=False, scale=1):
    os.makedirs("d", exist_ok=True)
    open("d/l.csv", "w").write("".join("%s,%s.csv\\n" % (n, n) for n in files))
    for n, rows in files.items(): open("d/%s.csv" % n, "w").write("".join("%s,%s\\n" % r for r in rows))
    return H.RefugeeTable(csvformat="generic", data_directory="d", start_date=start, data_layout="l.csv", population_scaledown_factor=scale, start_empty=start_empty)
"""
# --- S
P("S01a", "S01", {SP: [("""        __refugee_debt = -new_refs
""", """        __refugee_debt = max(__refugee_debt, -new_refs)
""")]}, DATA + """
settings(spawn={"sum_from_camps": True})
from flee import flee, spawning
e = flee.Ecosystem()
e.addLocation(name="A", location_type="conflict_zone", pop=100000)
e.addLocation(name="C", location_type="camp", capacity=-1)
rows = [("2012-01-01",100), ("2012-01-02",90), ("2012-01-03",95), ("2012-01-04",110)]
d = table(files={"total": rows, "C": rows})
got = []
for t in range(4):
    n, raw, debt = spawning.spawn_daily_displaced(e, t, d); got.append((n, debt)); e.evolve()
assert got[1:] == [(0, 10), (0, 5), (10, 0)], got
""", "registrations that fall and recover only partly before the debt is repaid", "a debt that is partly repaid stays at its peak, so later arrivals are too few")

P("S01b", "S01", {SP: [("""              if l.capacity > 0 :
""", """              if l.capacity > 0 and l.camp:
""")]}, DATA + """
settings(spawn={"insert_day0": True})
from flee import flee, spawning
e = flee.Ecosystem()
e.addLocation(name="A", location_type="conflict_zone", pop=100000)
e.addLocation(name="C", location_type="camp", capacity=500)
d = table(files={"total": [("2012-01-01",100), ("2012-01-05",100)], "C": [("2012-01-01",100), ("2012-01-05",100)]})
e.close_camp("C", IDP=False)
spawning.spawn_daily_displaced(e, 0, d)
assert e.locations[1].capacity == 400, e.locations[1].capacity
""", "a camp that is closed on day 0 and reopens later, with day-zero people placed in camps", "its capacity is not reduced by its initial population")

P("S02b", "S02", {SS_: [("""            if time - loc.time_of_conflict""", """            if time - max(0, loc.time_of_conflict)""")]}, "", "", "") if 0 else None

P("S03a", "S03", {SP: [("""                num_spawned = int(SimulationSettings.spawn_rules["displaced_per_flood_day"][flood_level] * e.locations[i].pop)
""", """                num_spawned = int(SimulationSettings.spawn_rules["displaced_per_flood_day"][flood_level] * (e.locations[i].pop + e.locations[i].numAgentsSpawned))
""")]}, PRE + """
settings(flood_rules={"max_flood_level": 2, "flood_movechances": [0.0, 0.5, 0.9], "flood_loc_weights": [1.0, 0.5, 0.2]},
  spawn={"take_from_population": True, "conflict_zone_spawning_only": False, "flood_zone_spawning_only": True, "flood_driven_spawning": {"spawn_mode": "pop_ratio", "displaced_per_flood_day": [0.0, 0.5, 0.9]}})
from flee import flee, spawning
from flee.SimulationSettings import SimulationSettings as SS
assert SS.spawn_rules["flood_spawn_mode"] == "pop_ratio", SS.spawn_rules
e = flee.Ecosystem()
e.addLocation(name="A", location_type="flood_zone", pop=100, attributes={"flood_level": 1})
got = [spawning.spawn_daily_displaced(e, t, None)[0] for t in range(3)]
assert got == [50, 25, 12], got
""", "flood-driven spawning as a share of a population that is used up", "the share is taken from the original population, not from the remaining one")

P("S03b", "S03", {SP: [("""                num_spawned = int(float(SimulationSettings.spawn_rules["displaced_per_conflict_day"]) * float(e.locations[i].conflict))
""", """                num_spawned = int(SimulationSettings.spawn_rules["displaced_per_conflict_day"]) * int(max(1.0, e.locations[i].conflict))
""")]}, PRE + """
settings(spawn={"conflict_driven_spawning": {"spawn_mode": "constant", "displaced_per_conflict_day": 10}})
from flee import flee, spawning
e = flee.Ecosystem()
e.addLocation(name="A", location_type="conflict_zone", pop=1000, attributes={"conflict_intensity": 0.55})
assert spawning.spawn_daily_displaced(e, 0, None)[0] == 5
""", "constant conflict-driven spawning with a fractional intensity", "intensities are rounded")

P("S04b", "S04", {SP: [("""      a = __demographics[attribute].sample(n=1,weights=loc.name)
""", """      a = __demographics[attribute].sample(n=1,weights=__demographics[attribute][loc.name].clip(lower=0.02))
""")]}, PRE + """
settings()
os.mkdir("input_csv")
open("input_csv/demographics_kind.csv", "w").write("kind,Default,A\\nx,1,0\\ny,1,0.00001\\nz,1,0\\n")
np.random.seed(3)
from flee import flee, spawning
e = flee.Ecosystem()
e.addLocation(name="A", location_type="conflict_zone", pop=1000)
spawning.read_demographics(e)
got = {spawning.draw_samples(e, e.locations[0])["kind"] for _ in range(100)}
assert got == {"y"}, got
""", "a demographic table with a zero weight in a place's own column", "values of weight zero are drawn")

# --- D
P("D01a", "D01", {DT: [("""            if day < ref_table[i, self.days_column]:

                old_val = ref_table[i - 1, self.total_refugee_column]
""", """            if day < ref_table[i, self.days_column]:

                old_val = int(ref_table[i - 1, self.total_refugee_column])
""")]}, DATA + """
d = table(files={"total": [("2012-01-01", 1), ("2012-01-05", 26)]}, scale=4)
d.data_table[0][0, 1] = 7.5
got = [d.get_field("total", t) for t in range(6)]
want = [int(7.5 + t * (d.data_table[0][1, 1] - 7.5) / 4) for t in range(5)] + [int(d.data_table[0][1, 1])]
assert got == want, (got, want, d.data_table)
""", "registrations that are not whole numbers after correction, and the days in between", "interpolation starts from a truncated count")

P("D01b", "D01", {DT: [("""                if self.day0pops.get(i,0) == 0:
                    self.day0pops[i] = camp_pop
""", """                if i not in self.day0pops or camp_pop > 0:
                    self.day0pops[i] = camp_pop
""")]}, DATA + """
d = table(files={"total": [("2012-01-01", 50), ("2012-01-05", 90)], "C": [("2012-01-01", 50), ("2012-01-05", 90)]}, start_empty=True)
d.get_daily_difference(0); 
assert d.get_field("C", 4) == 40
d.correctLevel1Registrations("C", "2012-01-05")
before = d.day0pops["C"]
d.get_daily_difference(0)
assert d.day0pops["C"] == before == 50, (before, d.day0pops)
""", "starting empty, a level-1 correction and a second look at day zero", "the day-zero offset is replaced by the corrected difference")

P("D01c", "D01", {DT: [("""                    new_refugees += self.get_field(
                        name=i, day=day, FullInterpolation=FullInterpolation
                    ) - self.get_field(i, day - 1, FullInterpolation)
""", """                    new_refugees += self.get_field(
                        name=i, day=day, FullInterpolation=FullInterpolation
                    ) - self.get_field(i, day - 1)
""")]}, DATA + """
d = table(files={"total": [("2012-01-01", 50), ("2012-01-05", 90)], "C": [("2012-01-01", 50), ("2012-01-05", 90)]})
assert [d.get_daily_difference(t, FullInterpolation=False) for t in range(1, 5)] == [0, 0, 0, 40]
""", "daily differences without interpolation over a gap in the registrations", "the previous day is interpolated, the current one is not")

P("D02a", "D02", {"flee/datamanager/handle_refugee_data.py": [("""            if int(ref_table[i][0]) == int(days):
""", """            if int(ref_table[i][0]) >= int(days) > int(ref_table[i - 1][0] if i > 0 else days - 1):
""")]}, DATA + """
d = table(files={"total": [("2012-01-01", 50), ("2012-01-05", 90)], "C": [("2012-01-01", 50), ("2012-01-05", 90)]})
assert d.correctLevel1Registrations("C", "2012-01-03") == 1.0
assert d.get_field("C", 0) == 50
""", "a correction date between two registrations", "the next registration is taken for the correction date")

# --- I
INP = PRE + """
def load(locs, links, closures="", extra={}, **mv):
    settings(**mv)
    open("locations.csv", "w").write(locs); open("routes.csv", "w").write(links); open("closures.csv", "w").write(closures)
    for k, v in extra.items(): open(k, "w").write(v)
    from flee import flee, InputGeography
    e = flee.Ecosystem(); ig = InputGeography.InputGeography()
    ig.ReadLocationsFromCSV("locations.csv"); ig.ReadLinksFromCSV("routes.csv"); ig.ReadClosuresFromCSV("closures.csv")
    e, lm = ig.StoreInputGeographyInEcosystem(e)
    return e, ig, lm
H0 = "#name,region,country,gps_x,gps_y,location_type,conflict_date,population\\n"
"""
P("I01a", "I01", {IG: [("""                elif int(l3) == 2:
                    e.linkUp(
                        endpoint1=link[1],
                        endpoint2=link[0],
                        distance=float(link[2]),
                        forced_redirection=True,
                        attributes=attributes,
                    )
""", """                elif int(l3) == 2:
                    e.linkUp(
                        endpoint1=link[1],
                        endpoint2=link[0],
                        distance=float(link[2]),
                        forced_redirection=True,
                        attributes={},
                    )
""")]}, INP + """
e, ig, lm = load(H0 + "A,r,x,0,0,town,0,10\\nB,r,x,0,0,town,0,10\\n", "#name1,name2,distance,forced_redirection,max_move_speed\\nA,B,10,2,33\\n")
assert all(l.attributes == {"max_move_speed": "33"} for x in e.locations for l in x.links), [l.attributes for x in e.locations for l in x.links]
""", "a road with a forced redirection in the reverse direction and extra columns", "the extra columns are lost")

P("I01b", "I01", {IG: [("""            if country == home_country:
                foreign = False
""", """            if country in home_country:
                foreign = False
""")]}, INP + """
e, ig, lm = load(H0 + "A,r,Nigeria,0,0,town,0,10\\nB,r,Niger,0,0,town,0,10\\n", "#name1,name2,distance,forced_redirection\\nA,B,10,0\\n")
assert lm["B"].foreign is True
""", "a country whose name is part of the home country's name", "its places count as domestic")

P("I01c", "I01", {IG: [("""                    population = int(int(loc[7]) // SimulationSettings.optimisations["PopulationScaleDownFactor"])
""", """                    population = int(round(int(loc[7]) / SimulationSettings.optimisations["PopulationScaleDownFactor"]))
""")]}, INP + """
e, ig, lm = load(H0 + "A,r,x,0,0,town,0,19\\nB,r,x,0,0,camp,0,10\\n", "#name1,name2,distance,forced_redirection\\nA,B,10,0\\n", opt={"hasten": 10})
assert lm["A"].pop == 1, lm["A"].pop
""", "a scale-down factor and a population that is no multiple of it", "populations are rounded instead of cut off")

P("I01d", "I01", {IG: [("""                if mr[-1] == name:
                    major_route = [x for x in mr[-2::-1] if x]
""", """                elif mr[-1] == name:
                    major_route = [x for x in mr[-2::-1] if x]
""")]}, INP + """
e, ig, lm = load(H0 + "A,r,x,0,0,town,0,19\\nB,r,x,0,0,camp,0,10\\n", "#name1,name2,distance,forced_redirection\\nA,B,10,0\\n", extra={"major_routes.csv": "A,B,A\\n"})
assert lm["A"].major_routes == [["B", "A"], ["B", "A"]], lm["A"].major_routes
""", "a major route that starts and ends at the same place", "its reverse is not offered")

P("I01e", "I01", {IG: [("""            e.closures.append([link[0], link[1], link[2], int(link[3]), int(link[4])])
""", """            e.closures.append([link[0], link[1], link[2], int(link[3]), max(int(link[3]), int(link[4]))])
""")]}, INP + """
e, ig, lm = load(H0 + "A,r,x,0,0,town,0,19\\nB,r,x,0,0,camp,0,10\\n", "#name1,name2,distance,forced_redirection\\nA,B,10,0\\n", "link,A,B,5,-1\\n")
assert e.closures == [["link", "A", "B", 5, -1]], e.closures
for t in range(8): e.enact_border_closures(t)
assert len(lm["A"].closed_links) == 1
""", "a closure without an end (end day before its start)", "the closure ends on the day it starts")

P("L02a", "L02", {IG: [("""                    if self.conflicts[conflict_name][time - 1] >= 0.000001:
                        if e.getRankN""", """                    if self.conflicts[conflict_name][time - 1] >= 0.01:
                        if e.getRankN""")]}, INP + """
e, ig, lm = load(H0 + "A,r,x,0,0,town,0,19\\nB,r,x,0,0,camp,0,10\\n", "#name1,name2,distance,forced_redirection\\nA,B,10,0\\n")
from flee.SimulationSettings import SimulationSettings as SS
SS.ConflictInputFile = "conflicts.csv"; open("conflicts.csv", "w").write("#Day,A\\n0,0\\n1,0.5\\n2,0.005\\n3,0\\n4,0\\n")
ig.ReadConflictInputCSV("conflicts.csv")
got = []
for t in range(5): ig.AddNewConflictZones(e, t); got.append(lm["A"].conflict > 0); e.time += 1
assert got == [False, True, True, False, False], got
""", "a conflict whose intensity is very low on its last day", "the conflict never ends")

P("L02b", "L02", {IG: [("""            if int(change[2]) == time:
                e.change_location_type(change[0],change[1])
""", """            if int(change[2]) == time:
                e.change_location_type(change[0],change[1])
                break
""")]}, INP + """
e, ig, lm = load(H0 + "A,r,x,0,0,town,0,19\\nB,r,x,0,0,camp,0,10\\n", "#name1,name2,distance,forced_redirection\\nA,B,10,0\\n", extra={"location_changes.csv": "A,camp,3\\nB,town,3\\n"})
for t in range(4): ig.AddNewConflictZones(e, t)
assert lm["A"].camp and lm["B"].town and not lm["B"].camp
""", "two location changes on the same day", "only the first is made")

P("L02c", "L02", {FL: [("""                self.locations[i].time_of_conflict = self.time                  
""", """                if self.locations[i].time_of_conflict < 0:
                    self.locations[i].time_of_conflict = self.time
""")]}, PRE + """
e = world("T")
e.add_conflict_zone("T"); e.time = 5; e.remove_conflict_zone("T"); e.time = 9; e.add_conflict_zone("T")
assert e.L["T"].time_of_conflict == 9, e.L["T"].time_of_conflict
""", "a conflict that ends and later starts again in the same place", "the age of the second conflict counts from the first one")

P("L01b", "L01", {FL: [("""            l.movechance = SimulationSettings.move_rules["ConflictMoveChance"]
            l.conflict = float(l.attributes.get("conflict_intensity",1.0))
""", """            l.movechance = SimulationSettings.move_rules["ConflictMoveChance"]
            l.conflict = 1.0
""")]}, PRE + """
e = world("T")
e.L["T"].attributes["conflict_intensity"] = 2.5
e.change_location_type("T", "conflict_zone")
assert e.L["T"].conflict == 2.5
""", "a change into a conflict zone of a place with a listed intensity", "the listed intensity is ignored")

P("F01a", "F01", {IG: [("""                    e.locations[i].attributes[attribute_name] =int(attrlist[loc_name][time])
""", """                    e.locations[i].attributes[attribute_name] =int(attrlist[loc_name][min(time, attrlength - 1)] or e.locations[i].attributes.get(attribute_name, 0) * (time == 1))
""")]}, INP + """
settings(flood_rules={"max_flood_level": 2, "flood_movechances": [0.0, 0.5, 0.9], "flood_loc_weights": [1.0, 0.5, 0.2]})
from flee import flee, InputGeography
e = flee.Ecosystem(); e.addLocation(name="A", location_type="town")
ig = InputGeography.InputGeography(); ig.attributes = {"flood_level": {"A": [2, 0, 1]}}
got = []
for t in range(3): ig.UpdateLocationAttributes(e, "flood_level", t); got.append(e.locations[0].attributes["flood_level"])
assert got == [2, 0, 1], got
""", "a flood that ends on day 1", "the flood level of day 0 stays for another day")

P("F01b", "F01", {MV: [("""        if flood_level > 0.0 and SimulationSettings.move_rules["FloodMovechances"] is not None:
            #set the base equal to the flood location weight
            movechance = float(""", """        if flood_level > 0.0 and SimulationSettings.move_rules["FloodMovechances"] is not None and not a.location.camp:
            #set the base equal to the flood location weight
            movechance = float(""")]}, PRE + """
e = world("C", flood_rules={"max_flood_level": 2, "flood_movechances": [0.0, 0.5, 0.9], "flood_loc_weights": [1.0, 0.5, 0.2]}, camp_movechance=0.001)
from flee import moving
e.L["C"].attributes["flood_level"] = 2; e.L["C"].capacity = 100
e.addAgent(location=e.L["C"], attributes={})
assert moving.calculateMoveChance(e.agents[0], False, 0) == 0.9
""", "a camp that is flooded", "camps keep their usual move chance in a flood")
