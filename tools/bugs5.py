import sys; sys.path.insert(0, __file__.rsplit("/", 1)[0])
from plant import plant
PRE = '''import random, sys, json, os
import numpy as np
def settings(**mv):
    from flee.SimulationSettings import SimulationSettings as SS
    import yaml
    sp = mv.pop("spawn", {}); lg = mv.pop("log", {}); opt = mv.pop("opt", {})
    yaml.safe_dump({"log_levels": lg, "spawn_rules": sp, "move_rules": mv, "optimisations": opt}, open("s.yml", "w"))
    SS.ReadFromYML("s.yml")
def world(*names, **mv):
    settings(**mv)
    from flee import flee
    e = flee.Ecosystem()
    for n in names:
        k = {"A": "conflict_zone", "C": "camp", "M": "marker"}.get(n[0], "town")
        e.addLocation(name=n, location_type=k, pop=1000, capacity=-1)
    e.L = {n: l for n, l in zip(names, e.locations)}
    return e
'''
only = sys.argv[1:]
def P(id, *a, **k):
    if not only or id in only:
        plant(id, *a, **k)
FL, MV, SP, DT, DG, SC = "flee/flee.py", "flee/moving.py", "flee/spawning.py", "flee/datamanager/DataTable.py", "flee/Diagnostics.py", "flee/scoring.py"


PF, CP, IG = "flee/pflee.py", "flee/coupling.py", "flee/InputGeography.py"
PAR = """import random, sys, json, os
import numpy as np, yaml
from mpi4py import MPI
R, N = MPI.COMM_WORLD.rank, MPI.COMM_WORLD.size
def settings(**mv):
    from flee.SimulationSettings import SimulationSettings as SS
    sp = mv.pop("spawn", {}); lg = mv.pop("log", {})
    yaml.safe_dump({"log_levels": lg, "spawn_rules": sp, "move_rules": mv}, open("s%d.yml" % R, "w"))
    SS.ReadFromYML("s%d.yml" % R)
def world(*names, **mv):
    settings(**mv)
    from flee import pflee
    e = pflee.Ecosystem()
    for n in names:
        k = {"A": "conflict_zone", "C": "camp", "M": "marker"}.get(n[0], "town")
        e.addLocation(name=n, location_type=k, pop=1000, capacity=-1)
    e.L = {n: l for n, l in zip(names, e.locations)}
    return e
def check(ok, *a):
    if not ok: print(a, file=sys.stderr); sys.stderr.flush(); MPI.COMM_WORLD.Abort(1)
"""
P("M01a", "M01", {PF: [("""        self.total_agents += 1
        if self.total_agents % self.mpi.size == self.mpi.rank:
            self.agents.append(Person(self, location=location, attributes=attributes))
""", """        self.total_agents += 1
        if (self.total_agents // 2) % self.mpi.size == self.mpi.rank:
            self.agents.append(Person(self, location=location, attributes=attributes))
""")]}, PAR + """
e = world("A", "B")
e.insertAgents(e.L["B"], 4 * N)
check(len(e.agents) == 4, len(e.agents))
e.insertAgents(e.L["B"], 2)
n = MPI.COMM_WORLD.allgather(len(e.agents))
check(max(n) - min(n) <= 1, n)
""", "people inserted (rather than spawned) in a batch that is no multiple of twice the number of ranks", "one rank gets both of a pair, so shares differ by two", mpi=2)

P("M01b", "M01", {PF: [("""        for agent in self.agents:
            if agent.location is None or agent.location.name not in location_names:
                new_agents += [agent]
""", """        for agent in self.agents:
            if agent.location is None or agent.location.name not in location_names[:self.mpi.size]:
                new_agents += [agent]
""")]}, PAR + """
e = world("A", "B", "D")
e.insertAgents(e.L["B"], 6); e.insertAgents(e.L["D"], 6); e.insertAgents(e.L["A"], 6)
e.clearLocationsFromAgents(["B", "D", "A"])
check(e.numAgents() == 0, e.numAgents())
""", "more places to clear than there are ranks", "the places at the end of the list keep their people", mpi=2)

P("M01c", "M01", {PF: [("""            # agents on closed or removed links count too.
            self.total_agents = int(self.mpi.CalcCommWorldTotalSingle(len(self.agents)))
""", """            # agents on closed or removed links count too.
            self.total_agents = int(self.mpi.CalcCommWorldTotalSingle(len(self.agents)))
""")]}, "", "", "") if 0 else None

P("M01d", "M01", {PF: [("""                for link in loc.links:
                    link.numAgents = self.mpi.CalcCommWorldTotalSingle(link.numAgentsOnRank)
                    # print(self.time, "link:", loc.name, link.numAgents, file=sys.stderr)
""", """                for link in loc.links:
                    link.numAgents = self.mpi.CalcCommWorldTotalSingle(link.numAgentsOnRank if not link.endpoint.camp or self.time > 0 else link.numAgents)
                    # print(self.time, "link:", loc.name, link.numAgents, file=sys.stderr)
""")]}, PAR + """
e = world("A", "C", conflict_movechance=1.0, max_move_speed=10.0)
e.latency_mode = "low_latency"
e.linkUp("A", "C", 100.0)
e.insertAgents(e.L["A"], 6)
e.evolve()
check(e.L["A"].links[0].numAgents == 6, e.L["A"].links[0].numAgents)
""", "low latency mode and a road to a camp on the first day", "the number of people on the road is multiplied by the number of ranks", mpi=2)

P("M02a", "M02", {PF: [("""            if self.mpi.rank < lpr_remainder:
                num_locs_on_this_rank += 1
""", """            if self.mpi.rank + 1 < lpr_remainder:
                num_locs_on_this_rank += 1
""")]}, PAR + """
e = world("B1", "B2", "B3", conflict_weight=0.2)
e.parallel_mode = "loc-par"
e.evolve()
e.add_conflict_zone("B2"); e.evolve()
check(abs(e.L["B2"].getScore(1) - 0.2) < 1e-12, e.L["B2"].getScore(1))
""", "distributed locations whose number is no multiple of the number of ranks, and a score that changes", "the last location of one rank keeps its old score", mpi=2)

P("M02b", "M02", {PF: [("""        for a in self.agents:
            a.recent_travel_distance = (
""", """        for a in self.agents:
            if not (a.travelling or a.distance_moved_this_timestep > 0.0) and a.recent_travel_distance < 0.5:
                continue
            a.recent_travel_distance = (
""")]}, PAR + """
e = world("B")
e.L["B"].movechance = 0.0
e.insertAgents(e.L["B"], 2 * N)
for a in e.agents: a.recent_travel_distance = 0.4
e.evolve()
check(all(a.recent_travel_distance == 0.2 for a in e.agents), [a.recent_travel_distance for a in e.agents])
""", "people who rest after little travel in a parallel run", "their recent-travel index does not decline", mpi=2)

P("M02c", "M02", {PF: [("""                for i, loc in enumerate(self.locations):
                    if i % self.mpi.size == self.mpi.rank:
                        loc.updateAllScores(time=self.time)
""", """                for i, loc in enumerate(self.locations):
                    if i % self.mpi.size == self.mpi.rank:
                        loc.updateAllScores(time=self.time)
""")]}, "", "", "") if 0 else None

P("M02d", "M02", {PF: [("""        return float(Ecosystem.scores[(self.endpoint.id * 2) + 1])
""", """        return float(Ecosystem.scores[(self.endpoint.id * 2) + (1 if self.startpoint.id != self.endpoint.id + 2 else 0)])
""")]}, PAR + """
e = world("C", "B", "A", camp_weight=5.0, conflict_movechance=1.0, fixed_routes=True)
e.linkUp("A", "C", 10.0); e.linkUp("A", "B", 10.0)
e.evolve()
r = {k: v[0] for k, v in e.L["A"].routes.items()}
check(abs(r["C"] / r["B"] - 5.0) < 1e-9, r)
""", "fixed routes in a parallel run, over a road whose ends are two numbers apart", "the unused score (always one) is taken for the destination's", mpi=2)

CPL = PRE + """
for d in ("file/coupled", "file/log_exchange_data", "file/plot_exchange_data"): os.makedirs(d)
def cpl(e, sub="macro", n=1, i=0):
    from flee import coupling
    c = coupling.CouplingInterface(e, submodel=sub, instance_index=i, num_instances=n, coupling_type="file", outputdir=".", log_exchange_data=False)
    c.setCouplingChannel("out", "inn"); return c
def put(i, t, s): open("file/coupled/inn[%d].%d.csv" % (i, t), "w").write(s)
"""
P("C01a", "C01", {CP: [("""                    if row[0] == self.names[i]:
                        newAgents[self.names[i]] = int(row[1])
""", """                    if row[0].startswith(self.names[i]):
                        newAgents[self.names[i]] = int(row[1])
""")]}, CPL + """
e = world("B", "B2"); c = cpl(e)
c.addCoupledLocation(e.L["B"], "B"); c.addCoupledLocation(e.L["B2"], "B2")
put(0, 0, "B,3\\nB2,5\\n")
c.Couple(0)
assert (e.L["B"].numAgents, e.L["B2"].numAgents) == (3, 5), (e.L["B"].numAgents, e.L["B2"].numAgents)
""", "a coupled name that is the beginning of another one", "the place gets the people of the other one")

P("C01b", "C01", {CP: [("""            for name, newAgents_num in curr_newAgent.items():
                aggNewAgents.setdefault(name, []).append(newAgents_num)
""", """            for name, newAgents_num in curr_newAgent.items():
                if newAgents_num > 0:
                    aggNewAgents.setdefault(name, []).append(newAgents_num)
""")]}, CPL + """
e = world("B"); c = cpl(e, n=2)
c.addCoupledLocation(e.L["B"], "B")
put(0, 0, "B,8\\n"); put(1, 0, "B,0\\n")
c.Couple(0)
assert e.L["B"].numAgents == 4, e.L["B"].numAgents
""", "several partner instances of which one sends nobody", "the mean is over the instances that send somebody")

P("C01c", "C01", {CP: [("""                    if os.path.exists(os.path.join(check_dir, fname)):
                        in_fnames[fname] = True
                        founded_files += 1
"""
, """                    if os.path.exists(os.path.join(check_dir, fname)):
                        in_fnames[fname] = True
                        founded_files += 1
                    elif founded_files > len(in_fnames) // 2:
                        return
"""), ("""        for fname in in_fnames:
            with open(os.path.join(dirInputFiles, fname), encoding="utf-8") as csvfile:
""", """        for fname in [f for f in in_fnames if in_fnames[f]]:
            with open(os.path.join(dirInputFiles, fname), encoding="utf-8") as csvfile:
""")]}, CPL + """
import threading
e = world("B"); c = cpl(e, n=3)
c.addCoupledLocation(e.L["B"], "B")
put(0, 0, "B,3\\n"); put(1, 0, "B,3\\n")
threading.Timer(1.5, lambda: put(2, 0, "B,9\\n")).start()
c.Couple(0)
assert e.L["B"].numAgents == 5, e.L["B"].numAgents
""", "three partner instances of which the last is slow", "a majority of the files is enough to go on")

P("C01d", "C01", {CP: [("""                self.e.clearLocationsFromAgents(location_names=self.location_names)
""", """                self.e.clearLocationsFromAgents(location_names=[n for n, d in zip(self.location_names, self.directions) if d != "in"] if self.submodel == "micro" else self.location_names)
""")]}, CPL + """
e = world("B"); c = cpl(e, sub="micro")
c.addCoupledLocation(e.L["B"], "B", direction="in")
e.insertAgents(e.L["B"], 4)
put(0, 0, "B,3\\n")
c.Couple(0)
assert e.L["B"].numAgents == 3, e.L["B"].numAgents
""", "the micro model with a location that only receives people", "people from before stay at that location")

RUNP = PRE + """
import subprocess
def inputs(n=6, end=None):
    os.makedirs("i"); os.makedirs("v")
    open("i/locations.csv", "w").write("#name,region,country,gps_x,gps_y,location_type,conflict_date,population\\nA,r,X,0,0,conflict_zone,0,10000\\nC,r,Y,0,0,camp,0,5000\\n")
    open("i/routes.csv", "w").write("#name1,name2,distance,forced_redirection\\nA,C,10,0\\n")
    open("i/closures.csv", "w").write("#closure_type,name1,name2,closure_start,closure_end\\n")
    open("i/conflicts.csv", "w").write("#Day,A\\n" + "".join("%d,1\\n" % t for t in range(n + 2)))
    open("i/sim_period.csv", "w").write("StartDate,2012-01-01\\nLength,%d\\n" % n)
    open("v/data_layout.csv", "w").write("total,t.csv\\nC,c.csv\\n")
    open("v/t.csv", "w").write("2012-01-01,10\\n2012-02-01,310\\n"); open("v/c.csv", "w").write("2012-01-01,10\\n2012-02-01,310\\n")
    open("simsetting.yml", "w").write("log_levels: {}\\nspawn_rules: {}\\nmove_rules: {}\\n")
def run(*a):
    p = subprocess.run([sys.executable, os.environ["REPO"] + "/runscripts/run.py", "i", "v"] + list(a), capture_output=True, text=True)
    assert p.returncode == 0, p.stderr[-800:]
    return [x for x in p.stdout.splitlines() if x]
"""
P("P01a", "P01", {"flee/datamanager/read_period.py": None}, "", "", "") if 0 else None
P("P01b", "P01", {"runscripts/run.py": [("""    if refugees_raw>0:
""", """    if refugees_raw>0 and sum(loc_data) > 0:
""")]}, RUNP + """
inputs()
open("v/c.csv", "w").write("2012-01-01,0\\n2012-01-05,0\\n2012-02-01,300\\n")
open("simsetting.yml", "w").write("log_levels: {}\\nspawn_rules: {sum_from_camps: false}\\nmove_rules: {}\\n")
rows = [r.split(",") for r in run("6")]
assert rows[2][rows[0].index("raw UNHCR refugee count")] != "0", rows[2]
""", "totals that are registered before anybody is in a camp", "the raw count of those days is reported as zero")
P("P01c", "P01", {"runscripts/run.py": [("""    date = datetime.strptime(start_date, "%Y-%m-%d") + timedelta(days=t)
""", """    date = datetime.strptime(start_date, "%Y-%m-%d").replace(day=1) + timedelta(days=t + int(start_date[-2:]) % 31 - 1)
""")]}, RUNP + """
inputs(4)
open("i/sim_period.csv", "w").write("StartDate,2012-01-31\\nLength,4\\n")
rows = [r.split(",") for r in run("4")]
assert rows[1][1] == "2012-01-31", rows[1]
""", "a period that starts on the 31st of a month", "dates are shown one month too early")
P("P01d", "P01", {"runscripts/run.py": [("""    ig.AddNewConflictZones(e,t)
""", """    if t == 0 or e.numAgents() > 0:
      ig.AddNewConflictZones(e,t)
""")]}, RUNP + """
inputs(6)
open("i/locations.csv", "w").write("#name,region,country,gps_x,gps_y,location_type,conflict_date,population\\nA,r,X,0,0,town,0,10000\\nC,r,Y,0,0,camp,0,5000\\n")
open("i/conflicts.csv", "w").write("#Day,A\\n0,0\\n1,0\\n2,1\\n3,1\\n4,1\\n5,1\\n6,1\\n")
open("v/t.csv", "w").write("2012-01-01,0\\n2012-01-03,0\\n2012-02-01,310\\n"); open("v/c.csv", "w").write("2012-01-01,0\\n2012-01-03,0\\n2012-02-01,310\\n")
rows = [r.split(",") for r in run("6")]
assert int(rows[-1][rows[0].index("total refugees (simulation)")]) > 0
""", "a run in which nobody is displaced before the first conflict starts", "the conflict never starts")
