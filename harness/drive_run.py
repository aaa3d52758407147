"""Runs a main program of the repository on given input files; what it does is recorded call by call."""
import copy, os, runpy, sys


class Out:
    """Standard output of the program, line by line."""
    def __init__(self, to):
        self.to, self.rest = to, ""

    def write(self, s):
        *ls, self.rest = (self.rest + s).split("\n")
        for l in ls:
            self.to.append([text_(x) for x in l.split(",")])
        return len(s)

    def flush(self):
        pass

    def isatty(self):
        return False


def text_(x):
    return x if x.isascii() else x.encode("ascii", "replace").decode()


class Run:
    def x_emit(self, ev, exc="", post=True):
        ev.setdefault("exc", exc)
        ev["lines"] = list(self.r_lines)
        del self.r_lines[:]
        if post and self.e is not None:
            ev["post"] = self.snap()
        self.events.append(ev)
        if self.sink:
            self.sink(ev)

    def x_wrap(self, owner, name, before, after, static=False):
        """Every outermost call of owner.name becomes an event."""
        raw = getattr(owner, name)
        run = self

        def called(*a, **k):
            if run.r_depth:
                return raw(*a, **k)
            run.r_depth += 1
            ev = {}
            try:
                ev = before(*a, **k)
                r = raw(*a, **k)
            except BaseException as x:
                if ev:
                    try:
                        run.x_emit(ev, "%s: %s" % (type(x).__name__, str(x)[:200]))
                    except BaseException:
                        pass
                raise
            finally:
                run.r_depth -= 1
            post = after(ev, r, *a, **k)
            run.x_emit(ev, post=post is not False)
            return r
        setattr(owner, name, staticmethod(called) if static else called)
        self.r_undo.append((owner, name))

    def op_program(self, o):
        from drive import clean, integer, num, text
        from drive_ext import rowfile
        from flee import InputGeography as G
        from flee import flee as F
        from flee import spawning
        from flee.SimulationSettings import SimulationSettings as SS
        from flee.datamanager import handle_refugee_data as H
        import yaml
        par = o["main"] == "run_par.py"
        if par:
            from flee import pflee as F
            self.par = True
        self.F = F
        x, d = o["input"], o["data"]
        self.x_files(x)
        rowfile("input_csv/sim_period.csv", o["period"])
        rowfile("data/data_layout.csv", d["layout"])
        for k, v in d["files"].items():
            rowfile("data/" + k, v)
        if o["l1"] is not None:
            rowfile("input_csv/registration_corrections.csv", o["l1"])
        if o["people"]:
            self.x_people("input_csv/agents.csv", o["people"])
        if o["dm"]:
            for k, v in o["dm"].items():
                rowfile("input_csv/demographics_%s.csv" % k, [[k] + v["cols"][1:]] + v["rows"])
        name = o["yamlname"]
        with open(name, "w") as f:
            yaml.safe_dump(o["yaml"], f)
        eff = copy.deepcopy(o["yaml"])
        eff.update(conflict_input_file="input_csv/conflicts.csv", flood_level_input_file="input_csv/flood_level.csv")
        eff = clean(eff)
        self.r_lines, self.r_depth, self.r_undo = [], 0, []
        self.x_emit({"op": "prog", "period": o["period"], "days": o["days"]}, post=False)
        if o["dm"]:
            self.x_emit({"op": "demog", "dm": o["dm"]}, post=False)

        def settings(ev, r, *a, **k):
            ev["ret"] = num(r)
            return False
        self.x_wrap(SS, "ReadFromYML", lambda *a, **k: {"op": "settings", "yaml": eff}, settings, True)
        new = F.Ecosystem.__init__

        def init(e, *a, **k):
            new(e, *a, **k)
            self.e = e
            if "pm" in o:
                e.parallel_mode, e.latency_mode = o["pm"], o["lm"]
            self.x_emit({"op": "new", "mode": "par" if par else "serial"})
        F.Ecosystem.__init__ = init
        IG = G.InputGeography

        def stored(ev, r, ig, e, *a, **k):
            ev["ret"] = self.x_geo(ig, e, *r)
        self.x_wrap(IG, "StoreInputGeographyInEcosystem", lambda *a, **k: dict(copy.deepcopy(x), op="input"), stored)
        self.x_wrap(IG, "ReadAgentsFromCSV", lambda *a, **k: dict(copy.deepcopy(o["people"] or {}), op="agentscsv"), lambda *a, **k: None)

        def table(ev, r, t, *a, **k):
            self.d = t
            ev["dp"] = self.x_dp(t)
            return False

        def asked(t, csvformat=None, data_directory=None, start_date=None, data_layout=None, population_scaledown_factor=1, start_empty=False):
            return {"op": "data", "layout": d["layout"], "files": d["files"], "start": start_date, "scale": population_scaledown_factor, "empty": bool(start_empty)}

        def l1(ev, r, t, *a, **k):
            ev["dp"] = self.x_dp(t)
            return False
        self.x_wrap(H.RefugeeTable, "__init__", asked, table)
        self.x_wrap(H.RefugeeTable, "ReadL1Corrections", lambda *a, **k: {"op": "l1file", "rows": o["l1"] or []}, l1)
        at = lambda e, l: next(i + 1 for i, y in enumerate(e.locations) if y is l)
        self.x_wrap(spawning, "add_initial_refugees", lambda e, d, loc: {"op": "spawninit", "i": at(e, loc)}, lambda *a, **k: None)
        self.x_wrap(IG, "AddNewConflictZones", lambda ig, e, time, *a, **k: {"op": "day", "t": time}, lambda *a, **k: None)

        def due(e, t, d):
            return {"op": "spawnday", "t": t, "diff": integer(copy.deepcopy(d).get_daily_difference(
                t, FullInterpolation=True, SumFromCamps=bool((o["yaml"].get("spawn_rules") or {}).get("sum_from_camps", True))))}

        def spawned(ev, r, e, t, d):
            ev["dp"] = self.x_dp(d)
            ev["ret"] = [integer(y) for y in r]
        self.x_wrap(spawning, "spawn_daily_displaced", due, spawned)
        self.x_wrap(spawning, "refresh_spawn_weights", lambda *a, **k: {"op": "reweigh"}, lambda *a, **k: None)
        self.x_wrap(F.Ecosystem, "enact_border_closures",
                    lambda e, time, twoway=True: {"op": "enact", "time": time, "twoway": twoway}, lambda *a, **k: None)

        def evolved(ev, *a, **k):
            if o.get("logs"):
                ev["log"] = self.newlogs()
        self.x_wrap(F.Ecosystem, "evolve", lambda *a, **k: {"op": "evolve"}, evolved)
        argv, out = sys.argv, sys.stdout
        prog = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(F.__file__))), "runscripts", o["main"])
        sys.argv = [prog, "input_csv", "data", str(o["days"])] + ([name] if o["named"] else [])
        sys.stdout = Out(self.r_lines)
        try:
            runpy.run_path(prog, run_name="__main__")
        finally:
            sys.stdout, sys.argv = out, argv
            o["lines"] = list(self.r_lines)
            for k in ("input", "data", "people", "dm", "yaml", "period", "l1", "logs"):
                o.pop(k, None)
