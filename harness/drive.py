"""Runs scenarios against the code under test (imported from /repo) and records one trace per scenario.

usage: drive.py scenarios.json outdir     (run with the interpreter and PYTHONPATH of the code under test)

Every scenario runs in a forked child with its own scratch directory, a time limit, and stdout/stderr discarded.
A trace is one JSON line: the scenario's id, family, settings and its events, each with the operation, its outcome
(exception or return value) and a projection of the public state after it.
"""
import json, os, shutil, signal, sys, time, traceback

SENTINEL = "-8.7654321e88"   # stands for a value that is not a number where one is expected
HUGE = "9e99"


def num(x):
    """A number as an exact decimal string."""
    try:
        if isinstance(x, bool):
            return "1" if x else "0"
        if isinstance(x, str):
            float(x)
            return x.strip()
        if hasattr(x, "item"):
            x = x.item()
        if isinstance(x, int):
            return str(x)
        if x != x:
            return SENTINEL
        if x in (float("inf"), float("-inf")):
            return HUGE
        return repr(float(x))
    except Exception:
        return SENTINEL


def integer(x):
    """A counter as a small int."""
    try:
        if hasattr(x, "item"):
            x = x.item()
        y = int(x)
        if y != x or abs(y) > 2000000000:
            return -1999999999
        return y
    except Exception:
        return -1999999999


def text(x):
    if isinstance(x, str):
        return x
    if isinstance(x, bool):
        return "True" if x else "False"
    return num(x) if not isinstance(x, (list, tuple, dict, type(None))) else str(x)


def attrval(v):
    if isinstance(v, (list, tuple)):
        return [num(x) for x in v]
    return text(v)


def attrs(d):
    try:
        return {str(k): text(v) for k, v in dict(d).items() if k != "" and not isinstance(v, (list, tuple))}
    except Exception:
        return {"?": SENTINEL}


def clean(v):
    """YAML values as trace values: floats become strings, nulls disappear."""
    if isinstance(v, dict):
        return {str(k): clean(x) for k, x in v.items() if x is not None}
    if isinstance(v, (list, tuple)):
        return [clean(x) for x in v]
    if isinstance(v, bool) or isinstance(v, str):
        return v
    return num(v)


class Ids:
    def __init__(self):
        self.ids = {}
        self.keep = []

    def of(self, o):
        k = id(o)
        if k not in self.ids:
            self.keep.append(o)
            self.ids[k] = len(self.keep)
        return self.ids[k]


class Runner:
    def __init__(self, sc, sink=None):
        self.sc = sc
        self.sink = sink         # called with every event
        self.e = None
        self.par = False
        self.ids = Ids()
        self.mark = {}
        self.ns = {}

    # ------------------------------------------------------------------ projection of the state
    def road(self, l, lidx):
        return {"from": lidx.get(id(l.startpoint), 0), "to": lidx.get(id(l.endpoint), 0),
                "dist": num(l.get_distance()), "closed": bool(l.closed), "forced": bool(l.forced_redirection),
                "n": integer(getattr(l, "numAgents", -1)), "nr": integer(getattr(l, "numAgentsOnRank", 0)),
                "cum": integer(getattr(l, "cumNumAgents", 0)), "by": self.by(l), "attrs": attrs(l.attributes)}

    @staticmethod
    def by(l):
        d = getattr(l, "cumNumAgentsByAttribute", None) or {}
        return [[text(a), text(v), integer(c)] for a, w in sorted(d.items()) for v, c in sorted(w.items(), key=str)]

    def snap(self):
        e = self.e
        lidx = {id(l): i + 1 for i, l in enumerate(e.locations)}
        nidx = {l.name: i + 1 for i, l in enumerate(e.locations)}
        kidx, locs = {}, []
        for i, l in enumerate(e.locations):
            for j, k in enumerate(l.links):
                kidx.setdefault(id(k), (i + 1, j + 1))
            try:
                score = num(l.getScore(1))
            except Exception:
                score = SENTINEL
            routes = []
            for key, r in dict(getattr(l, "routes", {}) or {}).items():
                try:
                    routes.append({"dest": lidx.get(id(r[2]), 0), "w": num(r[0]), "route": [nidx.get(x, 0) for x in r[1]]})
                except Exception:
                    routes.append({"dest": 0, "w": SENTINEL, "route": []})
            locs.append({
                "name": text(l.name), "region": text(l.region), "country": text(l.country), "x": num(l.x), "y": num(l.y),
                "mc": num(l.movechance), "cap": num(l.capacity), "pop": num(l.pop), "foreign": bool(l.foreign),
                "conflict": num(l.conflict), "camp": bool(l.camp), "idp": bool(l.idpcamp), "town": bool(l.town),
                "fwd": bool(l.forward), "marker": bool(l.marker), "flood": bool(l.flood_zone),
                "toc": integer(l.time_of_conflict), "n": integer(l.numAgents), "nr": integer(l.numAgentsOnRank),
                "spawned": integer(l.numAgentsSpawned), "attrs": attrs(l.attributes), "score": score,
                "fc": [num(x) for x in (l.attributes.get("forecast_flood_levels") or [])],
                "links": [self.road(k, lidx) for k in l.links], "closed": [self.road(k, lidx) for k in l.closed_links],
                "routes": routes, "major": [[nidx.get(x, 0) for x in m] for m in l.major_routes]})
        ags = []
        for a in e.agents:
            l = a.location
            at = {"k": "N", "i": 0, "j": 0, "lk": {}}
            if l is None:
                pass
            elif id(l) in lidx:
                at = {"k": "L", "i": lidx[id(l)], "j": 0, "lk": {}}
            elif id(l) in kidx:
                at = {"k": "K", "i": kidx[id(l)][0], "j": kidx[id(l)][1], "lk": {}}
            else:
                r = self.road(l, lidx)
                at = {"k": "O", "i": 0, "j": 0, "lk": {x: r[x] for x in ("from", "to", "dist", "closed", "attrs")}}
            ags.append({"id": self.ids.of(a), "at": at, "home": lidx.get(id(a.home_location), 0),
                        "tsd": integer(a.timesteps_since_departure), "places": integer(a.places_travelled),
                        "recent": num(a.recent_travel_distance), "moved": num(a.distance_moved_this_timestep),
                        "trav": bool(a.travelling), "dol": num(a.distance_travelled_on_link),
                        "route": [nidx.get(x, 0) for x in (a.route or [])], "attrs": attrs(a.attributes),
                        "dtrav": num(getattr(a, "distance_travelled", 0)), "hops": []})
        s = {"t": integer(e.time), "par": self.par, "locs": locs, "agents": ags,
             "arr": [integer(x) for x in getattr(e, "num_arrivals", [])],
             "dur": [num(x) for x in getattr(e, "travel_durations", [])],
             "sw": [num(x) for x in e.spawn_weights], "total": integer(e.numAgents()), "names": [text(x) for x in e.locationNames]}
        if self.par:
            s["rank"] = e.mpi.rank
            s["size"] = e.mpi.size
        return s

    # ------------------------------------------------------------------ operations
    def L(self, i):
        return self.e.locations[i - 1]

    def op_settings(self, o):
        import yaml
        y = {k: v for k, v in o["yaml"].items()}
        with open("sim.yml", "w") as f:
            yaml.safe_dump(y, f)
        from flee.SimulationSettings import SimulationSettings as SS
        r = SS.ReadFromYML("sim.yml")
        o["yaml"] = clean(y)
        if o.get("observe"):
            o["mr"] = {k: self.setval(v) for k, v in SS.move_rules.items()}
            o["sr"] = {k: self.setval(v) for k, v in SS.spawn_rules.items()}
            o["ll"] = {k: self.setval(v) for k, v in SS.log_levels.items()}
            o["opt"] = {k: self.setval(v) for k, v in SS.optimisations.items()}
            o["files"] = {"c": text(SS.ConflictInputFile), "f": text(SS.FloodLevelInputFile)}
        return num(r)

    @staticmethod
    def setval(v):
        if v is None:
            return "null"
        return clean(v)

    def op_new(self, o):
        if o["mode"] == "serial":
            from flee import flee as F
            self.F = F
            self.e = F.Ecosystem()
        else:
            from flee import pflee as F
            self.F = F
            self.par = True
            self.e = F.Ecosystem()
            if "pm" in o:
                self.e.parallel_mode = o["pm"]
            if "lm" in o:
                self.e.latency_mode = o["lm"]
        return None

    def op_loc(self, o):
        kw = dict(o["kw"])
        for k in ("x", "y", "movechance"):
            if k in kw:
                kw[k] = float(kw[k])
        o["kw"] = clean(kw)
        for k in ("capacity", "pop"):
            if k in kw:
                kw[k] = int(kw[k])
        self.e.addLocation(**kw)

    def op_link(self, o):
        kw = {}
        if "forced" in o:
            kw["forced_redirection"] = o["forced"]
        if "attrs" in o:
            kw["attributes"] = o["attrs"]
        self.e.linkUp(self.s(o["a"]), self.s(o["b"]), float(o["dist"]), **kw)

    def op_major(self, o):
        for i, mr in o["major"]:
            self.L(i).major_routes.append([self.L(x).name for x in mr])

    @staticmethod
    def s(x):
        """An equal but distinct string object, as when names are read from files."""
        return "".join(list(x)) if isinstance(x, str) else x

    def op_insert(self, o):
        if o.get("attrs") is not None:
            for _ in range(o["n"]):
                self.e.insertAgent(self.L(o["i"]), attributes=dict(o["attrs"]))
        else:
            self.e.insertAgents(self.L(o["i"]), o["n"])
        o["attrs"] = attrs(o.get("attrs") or {})

    def op_add(self, o):
        for _ in range(o["n"]):
            self.e.addAgent(location=self.L(o["i"]), attributes=dict(o.get("attrs") or {}))
        o["attrs"] = attrs(o.get("attrs") or {})

    def op_clear(self, o):
        self.e.clearLocationsFromAgents([self.s(x) for x in o["names"]])

    def op_evolve(self, o):
        self.e.evolve()
        if o.get("logs"):
            o["log"] = self.newlogs()

    def op_wlog(self, o):
        """Logs written on request."""
        from flee import Diagnostics
        kw = {k: o[k] for k in ("max_written", "timestep_interval") if k in o}
        if o["what"] == "agents":
            Diagnostics.write_agents(self.e.agents, o["time"], **kw)
        else:
            kw.pop("max_written", None)
            Diagnostics.write_links(self.e.locations, o["time"], **kw)
        o["log"] = self.newlogs()

    def newlogs(self):
        """What was added to the log files since the last look."""
        r = {"torn": False}
        rank = self.e.mpi.rank if self.par else 0
        for key, f in (("a", "agents.out.%d" % rank), ("l", "links.out.%d" % rank)):
            old = self.mark.get(f, "")
            new = open(f, encoding="utf-8").read() if os.path.exists(f) else ""
            self.mark[f] = new
            if new.startswith(old):
                new = new[len(old):]
            else:
                r["torn"] = True
            rows = [x.split(",") for x in new.split("\n") if x != ""]
            r[key + "h"] = rows.pop(0) if rows and rows[0][0].startswith("#") else []
            r[key] = rows
        return r

    def op_call(self, o):
        """A public network operation by name."""
        r = getattr(self.e, o["f"])(*[self.s(x) if isinstance(x, str) else x for x in o["args"]], **o.get("kw", {}))
        o["args"] = [clean(x) for x in o["args"]]
        o["kw"] = clean(o.get("kw", {}))
        return bool(r) if isinstance(r, bool) else None

    def op_closures(self, o):
        self.e.closures = [[c[0], self.s(c[1]), self.s(c[2]), c[3], c[4]] for c in o["list"]]

    def op_enact(self, o):
        self.e.enact_border_closures(o["time"], **({"twoway": o["twoway"]} if "twoway" in o else {}))

    def op_attr(self, o):
        v = o["value"]
        self.L(o["i"]).setAttribute(o["name"], v)
        o["list"] = isinstance(v, list)
        o["value"] = attrval(v)

    def op_setloc(self, o):
        """Set plain public fields of a location (population, capacity, move chance, conflict age...)."""
        for k, v in o["set"].items():
            setattr(self.L(o["i"]), k, v)
        o["set"] = clean(o["set"])

    def op_setagent(self, o):
        a = self.e.agents[o["k"] - 1]
        for k, v in o["set"].items():
            setattr(a, k, v)
        o["set"] = clean(o["set"])

    def op_refresh(self, o):
        from flee import scoring
        for l in self.e.locations:
            scoring.updateLocationScore(self.e.time, l)

    def op_routes(self, o):
        """All weighted routes of an agent."""
        from flee import moving
        a = self.e.agents[o["k"] - 1]
        nidx = {l.name: i + 1 for i, l in enumerate(self.e.locations)}
        if not hasattr(a.location, "closed_links"):
            return None
        w, r = moving.selectRoute(a, time=self.e.time, return_all_routes=True)
        return {"w": [num(x) for x in w], "r": [[nidx.get(x, 0) for x in y] for y in r]}

    def op_chance(self, o):
        from flee import moving
        a = self.e.agents[o["k"] - 1]
        if not hasattr(a.location, "closed_links"):
            return None
        return num(moving.calculateMoveChance(a, o["force"], self.e.time))

    def op_capmult(self, o):
        from flee import moving
        l = self.L(o["i"])
        old = l.numAgents
        out = []
        try:
            for n in o["n"]:
                l.numAgents = n
                out.append(num(moving.getCapMultiplier(l, 1)))
        finally:
            l.numAgents = old
        return out

    def op_decay(self, o):
        from flee.SimulationSettings import SimulationSettings as SS
        return [num(SS.get_conflict_decay(x)) for x in o["ages"]]

    def op_numidps(self, o):
        return integer(self.e.numIDPs())

    def op_campnames(self, o):
        return [text(x) for x in self.e.get_camp_names()]

    def op_graph(self, o):
        v, ed = self.e.export_graph()
        return {"v": [text(x) for x in v], "e": [[text(a), text(b), num(d)] for a, b, d in ed]}

    def op_bulk(self, o):
        """Many people leave one location on one day; only the counts per destination are kept."""
        import random
        import numpy as np
        random.seed(o["seed"]); np.random.seed(o["seed"])
        e = self.e
        old = {id(a) for a in e.agents}
        for _ in range(o["n"]):
            e.insertAgent(self.L(o["i"]), attributes=dict(o.get("attrs") or {}))
        o["attrs"] = attrs(o.get("attrs") or {})
        if o.get("route"):
            for a in e.agents:
                if id(a) not in old:
                    a.route = [self.L(x).name for x in o["route"]]
        e.evolve()
        lidx = {id(l): i + 1 for i, l in enumerate(e.locations)}
        nidx = {l.name: i + 1 for i, l in enumerate(e.locations)}
        cats = {}
        for a in e.agents:
            if id(a) in old:
                continue
            l = a.location
            if l is None:
                key = ("N", 0, 0, "0", (), "0")
            elif id(l) in lidx:
                key = ("L", lidx[id(l)], 0, "0", (), "0")
            else:
                key = ("R", lidx.get(id(l.startpoint), 0), lidx.get(id(l.endpoint), 0), num(l.get_distance()),
                       tuple(nidx.get(x, 0) for x in a.route), num(a.distance_travelled_on_link))
            cats[key] = cats.get(key, 0) + 1
        e.agents = [a for a in e.agents if id(a) in old]
        for l in e.locations:    # the sampled people leave again
            for k in l.links:
                k.numAgents = k.numAgentsOnRank = 0
            l.numAgents = l.numAgentsOnRank = 0
        for a in e.agents:
            if a.location is not None:
                a.location.numAgents += 1
                a.location.numAgentsOnRank += 1
        return [{"k": k[0], "from": k[1], "to": k[2], "dist": k[3], "rest": list(k[4]), "dol": k[5], "n": c} for k, c in sorted(cats.items(), key=str)]

    def op_pick(self, o):
        import numpy as np
        np.random.seed(o["seed"])
        lidx = {id(l): i + 1 for i, l in enumerate(self.e.locations)}
        out = [0] * len(self.e.locations)
        bad = 0
        for x in self.e.pick_spawn_locations(o["n"]):
            if id(x) in lidx:
                out[lidx[id(x)] - 1] += 1
            else:
                bad += 1
        return {"n": out, "bad": bad}

    # ------------------------------------------------------------------
    def run(self):
        import random
        import numpy as np
        random.seed(self.sc.get("seed", 1)); np.random.seed(self.sc.get("seed", 1))
        events = self.events = []
        if self.sc.get("ext"):
            import drive_cp, drive_ext, drive_run
            for c in (drive_ext.Ext, drive_cp.Cp, drive_run.Run):
                for k in dir(c):
                    if k.startswith(("op_", "x_", "cp_")):
                        setattr(type(self), k, c.__dict__[k])
        for o in self.sc["ops"]:
            o = json.loads(json.dumps(o))
            exc = ""
            ret = None
            try:
                ret = getattr(self, "op_" + o["op"])(o)
            except TimeLimit:
                exc = "TimeLimit: no answer within the time limit"
            except BaseException as x:  # noqa  the code under test may raise anything, or exit
                exc = "%s: %s" % (type(x).__name__, str(x)[:200])
                if o["op"] in HELPERS and at_the_door(x):
                    exc = ""          # the code has no such helper any more: the question cannot be put
                    o["absent"] = True
                if os.environ.get("VERIF_DEBUG"):
                    sys.__stderr__.write(traceback.format_exc())
            if "yaml" in o:
                o["yaml"] = clean(o["yaml"])
            o["exc"] = exc
            if ret is not None:
                o["ret"] = ret
            if self.e is not None and not o.get("nosnap"):
                try:
                    o["post"] = self.snap()
                except TimeLimit:
                    exc = o["exc"] = "TimeLimit: no answer within the time limit"
                except BaseException as x:
                    exc = o["exc"] = exc or "state unreadable: %s: %s" % (type(x).__name__, str(x)[:200])
                    if os.environ.get("VERIF_DEBUG"):
                        sys.__stderr__.write(traceback.format_exc())
            events.append(o)
            if self.sink:
                self.sink(o)
            if exc and not o.get("mayfail"):
                break
        return events


class TimeLimit(BaseException):
    pass


# Operations that put a question to an internal function.
HELPERS = ("routes", "chance", "capmult", "decay", "refresh")


def at_the_door(x):
    """Was the exception raised by calling the helper, not in it?"""
    tb = x.__traceback__
    while tb.tb_next:
        tb = tb.tb_next
    return (os.path.basename(tb.tb_frame.f_code.co_filename).startswith("drive") and tb.tb_frame.f_code.co_name.startswith("op_")
            and (isinstance(x, (AttributeError, ImportError)) or isinstance(x, TypeError) and "argument" in str(x)))


def on_alarm(*_):
    raise TimeLimit()


def one(sc, limit):
    signal.signal(signal.SIGALRM, on_alarm)
    signal.alarm(limit)
    try:
        ev = Runner(sc).run()
    except TimeLimit:
        ev = [{"op": "start", "exc": "TimeLimit: no answer within the time limit"}]
    signal.alarm(0)
    return {"id": sc["id"], "family": sc["family"], "ev": ev}


def main():
    scs = json.load(open(sys.argv[1]))
    out = sys.argv[2]
    limit = int(os.environ.get("VERIF_LIMIT", "60"))
    debug = bool(os.environ.get("VERIF_DEBUG"))
    sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
    # imported once, shared by the forked children
    import flee.flee, flee.moving, flee.scoring, flee.spawning  # noqa
    par = any(s.get("par") for s in scs)
    if par:
        import flee.pflee  # noqa
    os.makedirs(out, exist_ok=True)
    res = os.path.join(out, "traces.ndjson")
    open(res, "w").close()
    for n, sc in enumerate(scs):
        sides = sc.get("sides")
        if not sides:
            lines = [collect(sc, start(sc, os.path.join(out, "w%d" % n), limit, debug), limit)]
            shutil.rmtree(os.path.join(out, "w%d" % n))
        else:
            # several processes side by side; what one sends is what the others receive
            top = os.path.join(out, "w%d" % n)
            os.makedirs(top)
            runs = [start(x, os.path.join(top, "s%d" % k), limit, debug) for k, x in enumerate(sides)]
            trs = [json.loads(collect(x, r, limit)) for x, r in zip(sides, runs)]
            shutil.rmtree(top)
            for k, x in enumerate(sides):
                for e in trs[k]["ev"]:
                    if e["op"] == "couple":
                        sent = [[q["sent"] for q in trs[j]["ev"] if q["op"] == "couple" and q["time"] == e["time"] and "sent" in q] for j in x["partners"]]
                        if all(sent):
                            e["inbox"] = [q[0] for q in sent]
                        else:
                            e["exc"] = e["exc"] or "the partner sent nothing"
            lines = [json.dumps(t) for t in trs]
        with open(res, "a") as f:
            for line in lines:
                f.write(line + "\n")


def start(sc, work, limit, debug):
    os.makedirs(work)
    part = os.path.join(work, "trace.json")
    pid = os.fork()
    if pid == 0:
        code = 1
        try:
            os.chdir(work)
            null = os.open(os.devnull, os.O_RDWR)
            os.dup2(null, 0)
            os.dup2(null, 1)
            if not debug:
                os.dup2(null, 2)
            t = one(sc, limit)
            with open(part, "w") as f:
                json.dump(t, f)
            code = 0
        except BaseException:
            traceback.print_exc()
            with open(part, "w") as f:
                f.write("BROKEN " + traceback.format_exc())
        finally:
            os._exit(code)
    return pid, part


def collect(sc, run, limit):
    pid, part = run
    deadline = time.time() + limit + 30
    status = None
    while status is None:
        p, st = os.waitpid(pid, os.WNOHANG)
        if p:
            status = st
        elif time.time() > deadline:
            os.kill(pid, signal.SIGKILL)
            os.waitpid(pid, 0)
            status = -9
        else:
            time.sleep(0.002)
    line = open(part).read() if os.path.exists(part) else ""
    if line.startswith("BROKEN"):
        sys.stderr.write("driver failed on scenario %s: %s\n" % (sc["id"], line))
        sys.exit(3)
    if status == -9 or not line:   # the code under test hung without noticing the alarm, or killed the process
        line = json.dumps({"id": sc["id"], "family": sc["family"],
                           "ev": [{"op": "start", "exc": "TimeLimit: process had to be ended or died (%s)" % status}]})
    return line


if __name__ == "__main__":
    main()
