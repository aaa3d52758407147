import sys; sys.path.insert(0, __file__.rsplit("/", 1)[0])
from plant import plant
PRE = '''import random, sys, json, os
import numpy as np
def settings(**mv):
    from flee.SimulationSettings import SimulationSettings as SS
    import yaml
    sp = mv.pop("spawn", {}); lg = mv.pop("log", {}); opt = mv.pop("opt", {})
    yaml.safe_dump({"log_levels": lg, "spawn_rules": sp, "move_rules": mv, "optimisations": opt}, open("s.yml", "w"))
    SS.ReadFromYML("s.yml")
def world(*names, **mv):
    settings(**mv)
    from flee import flee
    e = flee.Ecosystem()
    for n in names:
        k = {"A": "conflict_zone", "C": "camp", "M": "marker"}.get(n[0], "town")
        e.addLocation(name=n, location_type=k, pop=1000, capacity=-1)
    e.L = {n: l for n, l in zip(names, e.locations)}
    return e
'''
only = sys.argv[1:]
def P(id, *a, **k):
    if not only or id in only:
        plant(id, *a, **k)
FL, MV, SP, DT, DG, SC = "flee/flee.py", "flee/moving.py", "flee/spawning.py", "flee/datamanager/DataTable.py", "flee/Diagnostics.py", "flee/scoring.py"


PF, CP, AN, SS_, CR, IG = "flee/pflee.py", "flee/coupling.py", "flee/postprocessing/analysis.py", "flee/SimulationSettings.py", "flee/crawling.py", "flee/InputGeography.py"
# --- network
P("N01b", "N01", {FL: [("""            if self.locations[x].closed_links[i].endpoint.name != endpoint:
""", """            if self.locations[x].closed_links[i].endpoint.name != endpoint or reopened:
""")]}, PRE + """
e = world("A", "B")
e.linkUp("A", "B", 10.0); e.linkUp("A", "B", 25.0)
e.close_link("A", "B"); e.reopen_link("A", "B")
assert sorted(l.get_distance() for l in e.L["A"].links) == [10.0, 25.0], [l.get_distance() for l in e.L["A"].links]
""", "two parallel roads between the same places, closed and reopened", "only one of the two roads comes back")

P("N01c", "N01", {FL: [("""            if self.locations[i].country == source_country:

                link_set""", """            if self.locations[i].country == source_country and not self.locations[i].marker:

                link_set""")]}, PRE + """
e = world("M", "B")
e.L["M"].country = "X"; e.L["B"].country = "Y"
e.linkUp("M", "B", 10.0)
e.close_border("X", "Y")
assert not e.L["M"].links and len(e.L["M"].closed_links) == 1
""", "a border road that starts at a marker", "roads out of markers stay open when a border closes")

P("N01d", "N01", {FL: [("""        if twoway:
            return self._change_location_1way(
                location_name, mode="reopen", direction="both", Debug=Debug
            )

        return self._change_location_1way(location_name, mode="reopen", direction="in", Debug=Debug)
""", """        if twoway:
            return self._change_location_1way(
                location_name, mode="reopen", direction="both", Debug=Debug
            )

        return self._change_location_1way(location_name, mode="reopen", direction="both", Debug=Debug)
""")]}, PRE + """
e = world("A", "B")
e.linkUp("A", "B", 10.0)
e.close_link("A", "B", twoway=False)
e.close_location("A", twoway=False)
e.reopen_location("A", twoway=False)
assert len(e.L["A"].closed_links) == 1 and len(e.L["B"].links) == 1
""", "a one-way reopening of a place whose outgoing road was closed before", "outgoing roads are reopened too")

P("N02a", "N02", {FL: [("""                        self.set_forced_redirection(c[1], c[2], True)
""", """                        self.set_forced_redirection(c[2], c[1], True)
""")]}, PRE + """
e = world("A", "B")
e.linkUp("A", "B", 10.0, forced_redirection=True)
e.closures = [["remove_forced_redirection", "A", "B", 1, 3]]
for t in range(5): e.enact_border_closures(t)
assert e.L["A"].links[0].forced_redirection is True and not e.L["B"].links[0].forced_redirection
""", "a removed redirection whose removal ends", "the redirection comes back on the other direction")

P("N02b", "N02", {FL: [("""                if time == c[4]:
                    if c[0] == "country":
""", """                elif time == c[4]:
                    if c[0] == "country":
""")]}, PRE + """
e = world("A", "B")
e.linkUp("A", "B", 10.0)
e.closures = [["link", "A", "B", 2, 2]]
for t in range(4): e.enact_border_closures(t)
assert len(e.L["A"].links) == 1
""", "a closure that starts and ends on the same day", "the road never reopens")

P("N02c", "N02", {FL: [("""                    elif c[0] == "idpcamp":
                        self.open_camp(c[1], IDP=True)
""", """                    elif c[0] == "idpcamp":
                        self.open_camp(c[1], IDP=self.locations[self._convert_location_name_to_index(c[1])].idpcamp)
""")]}, PRE + """
from flee import flee
e = flee.Ecosystem() if 0 else world("A")
i = e.addLocation(name="I", location_type="idpcamp")
e.closures = [["idpcamp", "I", "-", 1, 2]]
for t in range(4): e.enact_border_closures(t)
assert i.idpcamp and i.camp
""", "an internal camp that closes and reopens", "it reopens as an ordinary camp")

P("N03b", "N03", {FL: [("""                self.locations[x].links[i].closed = True
                # we copy the route link to have a backup.
                self.locations[x].closed_links += [copy.copy(self.locations[x].links[i])]
""", """                # we copy the route link to have a backup.
                self.locations[x].closed_links += [copy.copy(self.locations[x].links[i])]
                self.locations[x].links[i].closed = self.locations[x].links[i].numAgents > 1 or not twin
                self.locations[x].closed_links[-1].closed = True
""".replace(" > 1 or not twin", " != 1"))]}, PRE + """
e = world("A", "B", conflict_movechance=1.0, max_move_speed=100.0)
e.linkUp("A", "B", 150.0)
e.addAgent(location=e.L["A"], attributes={})
e.evolve(); e.close_link("A", "B"); e.evolve()
assert e.agents[0].location is e.L["A"]
""", "a single traveller on a road that closes", "the traveller arrives at the far end") if 0 else None

# --- people
P("K01b", "K01", {FL: [("""                # make sure agent counts are set to 0.
                self.locations[x].closed_links[-1].numAgents = 0
""", """                # make sure agent counts are set to 0.
                self.locations[x].closed_links[-1].numAgents = 0 if self.locations[x].links[i].numAgents == self.locations[x].links[i].cumNumAgents else self.locations[x].links[i].numAgents
""")]}, PRE + """
e = world("A", "B", conflict_movechance=1.0, max_move_speed=100.0, default_movechance=0.0)
e.L["B"].movechance = 0.0
e.linkUp("A", "B", 150.0)
e.addAgent(location=e.L["A"], attributes={}); e.evolve(); e.evolve()
e.addAgent(location=e.L["A"], attributes={}); e.evolve()
e.close_link("A", "B"); e.reopen_link("A", "B")
l = e.L["A"].links[0]
assert l.numAgents == sum(a.location is l for a in e.agents) == 0, l.numAgents
""", "a road that has been used before and closes with travellers on it", "after reopening it counts travellers who are on their way back")

P("K01c", "K01", {FL: [("""                # agent is removed from the ecosystem and number of agents
                # drops by one.
                self.agents[i].location.DecrementNumAgents()
""", """                # agent is removed from the ecosystem and number of agents
                # drops by one.
                if self.agents[i].location is not self.agents[i].home_location or self.agents[i].places_travelled == 1:
                    self.agents[i].location.DecrementNumAgents()
""")]}, PRE + """
e = world("A", "B", conflict_movechance=1.0, default_movechance=1.0, max_move_speed=100.0)
e.linkUp("A", "B", 90.0)
e.addAgent(location=e.L["A"], attributes={})
while not (e.agents[0].location is e.L["A"] and e.agents[0].places_travelled > 1): e.evolve()
e.clearLocationsFromAgents(["A"])
assert e.L["A"].numAgents == 0 == len(e.agents)
""", "a person who has come back home and is cleared from there", "the head count is not reduced") if 0 else None

P("K02c", "K02", {FL: [("""                # remove the excess km tracked by the
                # distance_moved_this_timestep var.
                self.distance_moved_this_timestep += (
                    self.location.get_distance() - self.distance_travelled_on_link
                )
""", """                # remove the excess km tracked by the
                # distance_moved_this_timestep var.
                self.distance_moved_this_timestep -= (
                    self.distance_travelled_on_link % self.location.get_distance()
                )
""")]}, PRE + """
e = world("A", "B", conflict_movechance=1.0, default_movechance=0.0, max_move_speed=100.0, log={"agent": 1})
e.L["B"].movechance = 0.0
e.linkUp("A", "B", 30.0)
e.addAgent(location=e.L["A"], attributes={})
e.evolve()
assert float(open("agents.out.0").read().splitlines()[-1].split(",")[9]) == 30.0, open("agents.out.0").read()
""", "a road shorter than half a day's travel", "the distance of the day is too long")

P("K02d", "K02", {FL: [("""            if random.random() < walk_probability:
                todays_travel_speed = SimulationSettings.move_rules["MaxWalkSpeed"]
""", """            if random.random() < walk_probability:
                todays_travel_speed = min(todays_travel_speed, SimulationSettings.move_rules["MaxWalkSpeed"])
""")]}, PRE + """
e = world("A", "B", conflict_movechance=1.0, max_move_speed=100.0, max_walk_speed=20.0)
e.linkUp("A", "B", 200.0, attributes={"walk_probability": 1.0, "max_move_speed": 10.0})
e.addAgent(location=e.L["A"], attributes={})
e.evolve()
assert e.agents[0].distance_travelled_on_link == 20.0
""", "a road slower than walking, with a walking probability", "walkers are held to the road's speed")

P("K03b", "K03", {FL: [("""                                + (
                                    self.distance_moved_this_timestep
                                    / SimulationSettings.move_rules["MaxMoveSpeed"]
                                )
                            ) / 2.0 < 0.5:
""", """                                + (
                                    self.distance_moved_this_timestep
                                    / todays_travel_speed
                                )
                            ) / 2.0 < 0.5:
""")]}, PRE + """
e = world("A", "B", "D", conflict_movechance=1.0, default_movechance=0.0, max_move_speed=100.0, avoid_short_stints=True)
e.L["B"].camp = False; e.L["B"].town = True; e.L["B"].movechance = 0.0; e.L["D"].movechance = 0.0; e.L["D"].town = False
e.linkUp("A", "B", 19.0, attributes={"max_move_speed": 20.0}); e.linkUp("B", "D", 500.0)
e.addAgent(location=e.L["A"], attributes={})
e.agents[0].route = ["B"]; e.agents[0].recent_travel_distance = 0.3
e.L["B"].links = [l for l in e.L["B"].links if l.endpoint is e.L["D"]]
e.evolve()
assert e.agents[0].travelling, e.agents[0].location.name
""", "avoiding short stints after a slow road", "people stop in the town although they have hardly travelled")

P("K05a", "K05", {FL: [("""                if a.travelling == False:
                    if a.location is not None:
                        if a.location.camp == True:
                            outcome = random.random()
                            if outcome < float(a.location.attributes.get("deactivation_probability", 0.0)):
                                a.location = None
""", """                if a.travelling == False:
                    if a.location is not None:
                        if a.location.camp == True and not a.route:
                            outcome = random.random()
                            if outcome < float(a.location.attributes.get("deactivation_probability", 0.0)):
                                a.location = None
""")]}, PRE + """
e = world("A", "C", "D", conflict_movechance=1.0, camp_movechance=0.0, max_move_speed=100.0, awareness_level=2, spawn={"camps_are_sinks": True})
e.L["C"].attributes["deactivation_probability"] = 1.0
e.L["C"].movechance = 0.0
e.linkUp("A", "C", 90.0); e.linkUp("C", "D", 90.0)
e.addAgent(location=e.L["A"], attributes={})
e.agents[0].route = ["C", "D"]
e.evolve()
assert e.agents[0].location is None, e.agents[0].location
""", "a person who rests in a camp half way along a planned route", "people who pass through a camp are not deactivated")

P("K06b", "K06", {FL: [("""                    arrival_total += np.sum(loc.incoming_journey_lengths)
                    tmp_num_arrivals += len(loc.incoming_journey_lengths)
                    loc.incoming_journey_lengths = []
""", """                    if loc.incoming_journey_lengths and loc.numAgents > 0:
                        arrival_total += np.sum(loc.incoming_journey_lengths)
                        tmp_num_arrivals += len(loc.incoming_journey_lengths)
                        loc.incoming_journey_lengths = []
""")]}, PRE + """
random.seed(1)
e = world("A", "C", "B", conflict_movechance=1.0, camp_movechance=1.0, default_movechance=0.0, max_move_speed=100.0, log={"camp": 1}, awareness_level=1)
e.linkUp("A", "C", 40.0); e.linkUp("C", "B", 1000.0)
e.L["C"].links = [l for l in e.L["C"].links if l.endpoint is e.L["B"]]
e.addAgent(location=e.L["A"], attributes={})
e.evolve()
assert e.agents[0].travelling and e.num_arrivals == [1], e.num_arrivals
""", "arrivals at a camp from which everybody goes on the same day", "those arrivals are counted too late or never")

# --- routes
P("R01b", "R01", {MV: [("""  else:
    step -= 1


  #print("Endpoint:\"""", """  elif step > 1 or prior_distance == 0.0:
    step -= 1


  #print("Endpoint:\"""")]}, PRE + """
e = world("A", "M", "M2", "B", "D", conflict_movechance=1.0, awareness_level=1)
e.linkUp("A", "M", 10.0); e.linkUp("M", "M2", 10.0); e.linkUp("M2", "B", 10.0)
e.addAgent(location=e.L["A"], attributes={})
from flee import moving
w, r = moving.selectRoute(e.agents[0], time=0, return_all_routes=True)
assert r == [["A", "M", "M2", "B"]], r
""", "two markers in a row and the lowest awareness", "the place behind them is not found")

P("R02b", "R02", {MV: [("""      if agent.attributes["age"]<19:
""", """      if 0 < agent.attributes["age"]<19:
"""), ] if 0 else [("""    residual = location.numAgents - (nearly_full_occ * cap)
""", """    residual = location.numAgents - int(nearly_full_occ * cap)
""")]}, PRE + """
from flee import moving
e = world("C", capacity_buffer=0.75)
c = e.L["C"]; c.capacity = 10; c.numAgents = 8
assert abs(moving.getCapMultiplier(c, 1) - 0.8) < 1e-9, moving.getCapMultiplier(c, 1)
""", "a camp whose buffer is not a whole number of people", "the crowding factor is too low")

P("R02c", "R02", {MV: [("""      if SimulationSettings.move_rules["BoysTakeRisk"]:
""", """      if SimulationSettings.move_rules["BoysTakeRisk"] and endpoint.conflict > 0.0:
""")] if 0 else [("""            base *= float(SimulationSettings.move_rules["FloodLocWeights"][flood_level])
            #otherwise base score is unaffected by flooding


        #Flooding""", """            base *= float(SimulationSettings.move_rules["FloodLocWeights"][min(flood_level, 3)])
            #otherwise base score is unaffected by flooding


        #Flooding""")]}, PRE + """
e = world("A", "B", flood_rules={"max_flood_level": 4, "flood_movechances": [0.0, 0.1, 0.2, 0.3, 0.4], "flood_loc_weights": [1.0, 0.5, 0.4, 0.3, 0.1]})
from flee import moving
e.addAgent(location=e.L["A"], attributes={}); e.L["B"].attributes["flood_level"] = 4
assert abs(moving.getEndPointScore(e.agents[0], e.L["B"], 0) - 0.1) < 1e-12
""", "the highest of five flood levels", "the weight of the level below is used")

P("R03c", "R03", {MV: [("""    min_weight_threshold = max(weights) / threshold
""", """    min_weight_threshold = weights[0] / threshold if len(weights) > 3 else max(weights) / threshold
""")]}, PRE + """
from flee import moving
e = world("A", pruning_threshold=2.0)
w, r = moving.pruneRoutes([1.0, 4.0, 3.0, 1.5], [["a"], ["b"], ["c"], ["d"]])
assert w == [4.0, 3.0], w
""", "pruning with more than three routes, of which the first is not the best", "too many routes are kept")

P("R04a", "R04", {CR: [("""    if weight > source_loc.routes.get(link.endpoint.name, [0,None])[0]:
""", """    if weight > source_loc.routes.get(link.endpoint.name, [0,None])[0] and (major or link.endpoint.name not in source_loc.routes or len(source_loc.routes[link.endpoint.name][1]) > len(origin_names)):
""")]}, PRE + """
e = world("A", "B", "D", fixed_routes=True, awareness_level=2, conflict_movechance=1.0)
e.linkUp("A", "D", 200.0); e.linkUp("A", "B", 10.0); e.linkUp("B", "D", 10.0)
from flee import crawling
r = crawling.generateLocationRoutes(e.L["A"], 0)
assert r["D"][1] == ["B", "D"], r
""", "fixed routes where a detour with more stops is better than the direct road found first", "the worse direct route is kept")

P("R05b", "R05", {SS_: [("""            i = min(int(time_since_conflict / interval), spawn_len-1)
""", """            i = min(int(time_since_conflict / interval), spawn_len-1) if time_since_conflict < interval * (spawn_len + 1) else 0
""")]}, PRE + """
e = world("A", spawn={"conflict_spawn_decay": [1.0, 0.5], "conflict_spawn_decay_interval": 10})
from flee.SimulationSettings import SimulationSettings as SS
assert SS.get_conflict_decay(35) == 0.5
""", "a conflict that lasts longer than the decay list plus one interval", "the first value of the decay is used again")

# --- logs
P("O01b", "O01", {DG: [("""                        if SimulationSettings.log_levels["granularity"] == "region":
                            loc_name = l.region
                            x = 0.0
                            y = 0.0

                        print(
                            "{},{}-{},""", """                        if SimulationSettings.log_levels["granularity"] == "region":
                            loc_name = l.region
                            x = 0.0

                        print(
                            "{},{}-{},""")]}, PRE + """
random.seed(2)
e = world("A", "B", "D", log={"agent": 2, "granularity": "region"}, conflict_movechance=1.0, default_movechance=1.0, max_move_speed=100.0, avoid_short_stints=True)
for l in e.locations: l.x = 3.0; l.y = 7.0
for a, b in ("AB", "BD"): e.linkUp(a, b, 20.0)
for l in e.locations:
    for k in l.links: k.y = 9.0
e.addAgent(location=e.L["A"], attributes={})
e.evolve()
rows = [x.split(",") for x in open("agents.out.0").read().splitlines()[1:]]
assert len(rows) > 1 and all(float(x) == 0.0 for r in rows for x in r[4:6]), rows
""", "region granularity, agent log level 2 and several roads on a day", "coordinates of roads are shown")

P("O02a", "O02", {FL: [("""        self.numAgents += 1
        self.cumNumAgents += 1

        if SimulationSettings.log_levels["link"] > 1:
            for a in agent.attributes:
""", """        self.numAgents += 1
        self.cumNumAgents += 1

        if SimulationSettings.log_levels["link"] > 1:
            for a in sorted(agent.attributes)[:2]:
""")]}, PRE + """
e = world("A", "B", log={"link": 2}, conflict_movechance=1.0)
e.linkUp("A", "B", 2000.0)
e.addAgent(location=e.L["A"], attributes={"x": 1, "y": 2, "z": 3})
e.evolve()
assert "0,A,B,1,z:3" in open("links.out.0").read()
""", "people with more than two attributes and link log level 2", "the third attribute is not counted")

# --- settings
P("G01a", "G01", {SS_: [("""              SimulationSettings.spawn_rules["displaced_per_conflict_day"] = float(fetchss(dpsc,"displaced_per_conflict_day", 0.01))
""", """              SimulationSettings.spawn_rules["displaced_per_conflict_day"] = float(fetchss(dpsc,"displaced_per_conflict_day", SimulationSettings.spawn_rules.get("displaced_per_conflict_day", 0.01)))
""")]}, PRE + """
from flee.SimulationSettings import SimulationSettings as SS
settings(spawn={"conflict_driven_spawning": {"spawn_mode": "constant", "displaced_per_conflict_day": 70}})
settings(spawn={"conflict_driven_spawning": {"spawn_mode": "pop_ratio"}})
assert SS.spawn_rules["displaced_per_conflict_day"] == 0.01, SS.spawn_rules
""", "two settings files in a row, the second without the number of displaced people", "the number of the first file is used")

P("G01b", "G01", {SS_: [("""        number_of_steps = float(fetchss(dp,"number_of_steps",-1))
""", """        number_of_steps = float(fetchss(dp,"number_of_steps",-1) or -1)
""")]}, PRE + """
open("z.yml", "w").write("number_of_steps: 0\\n")
from flee.SimulationSettings import SimulationSettings as SS
assert SS.ReadFromYML("z.yml") == 0
""", "a settings file with zero steps", "the number of steps is read as missing")

P("G01c", "G01", {SS_: [("""            # reduction factor for refugees entering conflict zones.
            SimulationSettings.move_rules["ConflictWeight"] = 0.25
""", """            # reduction factor for refugees entering conflict zones.
            SimulationSettings.move_rules["ConflictWeight"] = min(0.25, SimulationSettings.move_rules["ConflictWeight"])
""")]}, PRE + """
from flee.SimulationSettings import SimulationSettings as SS
settings(use_v1_rules=True, conflict_weight=0.1)
assert SS.move_rules["ConflictWeight"] == 0.25
""", "legacy rules together with a small conflict weight", "the conflict weight of the file wins")

# --- metrics
P("E01a", "E01", {AN: [("""    if correct_val < 0.00001:
        return 0.0
""", """    if correct_val < 1.00001:
        return 0.0
""")]}, PRE + """
sys.path.insert(0, os.environ["REPO"] + "/flee/postprocessing")
import analysis as a
assert a.rel_error(3, 1) == 2.0
""", "one registered person", "the relative error of a camp with one registered person is zero")

P("E01b", "E01", {AN: [("""    mean_naieve_error = np.sum((np.abs(actual_vals[offset:] - naieve_vals[offset:]))) / float(
        len(actual_vals[offset:])
    )
""", """    mean_naieve_error = np.sum((np.abs(actual_vals[offset:] - naieve_vals[offset:]))) / float(
        len(actual_vals) - start_of_forecast_period
    )
""")]}, PRE + """
sys.path.insert(0, os.environ["REPO"] + "/flee/postprocessing")
import analysis as a
x = np.arange(10.0)
assert a.calculate_MASE(x + 1, x, x + 2, start_of_forecast_period=3) == 0.5, a.calculate_MASE(x + 1, x, x + 2, start_of_forecast_period=3)
""", "a scaled error with a training period", "the naive error is divided by one day too many")
