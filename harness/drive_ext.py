"""Further operations of the driver: registration data, spawning, input files, timelines."""
import copy, csv, os


def canon(v):
    """Attribute values as text; whole numbers without a fraction."""
    from drive import text
    try:
        if not isinstance(v, str) and float(v) == int(v):
            return str(int(v))
    except Exception:
        pass
    return text(v)


def rowfile(name, rows):
    d = os.path.dirname(name)
    if d:
        os.makedirs(d, exist_ok=True)
    with open(name, "w", newline="") as f:
        w = csv.writer(f)
        for r in rows:
            if len(r) == 0:
                f.write("\n")
            else:
                w.writerow(r)


class Ext:
    # ------------------------------------------------------------------ registration data
    def x_dp(self, d=None):
        from drive import num, text
        d = d or self.d
        return {"h": [text(x) for x in d.header],
                "t": [[[num(r[0]), num(r[1])] for r in tab] for tab in d.data_table],
                "d0": {str(k): num(v) for k, v in d.day0pops.items()}}

    def op_data(self, o):
        from flee.datamanager import handle_refugee_data as H
        from flee.SimulationSettings import SimulationSettings as SS  # noqa
        rowfile("data/layout.csv", o["layout"])
        for k, v in o["files"].items():
            rowfile("data/" + k, v)
        kw = {}
        if o["scale"] != 1 or o.get("explicit"):
            kw["population_scaledown_factor"] = o["scale"]
        if o["empty"] or o.get("explicit"):
            kw["start_empty"] = o["empty"]
        self.d = H.RefugeeTable(csvformat="generic", data_directory="data", start_date=o["start"], data_layout="layout.csv", **kw)
        o["dp"] = self.x_dp()

    def op_dfield(self, o):
        from drive import integer
        r = [integer(self.d.get_field(name=o["name"], day=x, FullInterpolation=o["full"])) for x in o["days"]]
        o["dp"] = self.x_dp()
        return r

    def op_ddiff(self, o):
        from drive import integer
        r = [integer(self.d.get_daily_difference(day=x, FullInterpolation=o["full"], SumFromCamps=o["sum"])) for x in o["days"]]
        o["dp"] = self.x_dp()
        return r

    def op_dmax(self, o):
        from drive import integer
        r = [integer(self.d.getMaxFromData(o["name"], x)) for x in o["days"]]
        o["dp"] = self.x_dp()
        return r

    def op_dinterp(self, o):
        r = [bool(self.d.is_interpolated(o["name"], x)) for x in o["days"]]
        o["dp"] = self.x_dp()
        return r

    def op_dover(self, o):
        rowfile("data/override.csv", o["rows"])
        self.d.override_input("data/override.csv")
        o["dp"] = self.x_dp()

    def op_l1(self, o):
        from drive import num
        try:
            r = num(self.d.correctLevel1Registrations(o["name"], o["date"]))
        finally:
            o["dp"] = self.x_dp()
        return r

    def op_l1file(self, o):
        rowfile("data/l1.csv", o["rows"])
        self.d.ReadL1Corrections("data/l1.csv")
        o["dp"] = self.x_dp()

    def op_dates(self, o):
        from flee.datamanager import DataTable as T
        return {"sub": [int(T.subtract_dates(a, b)) for a, b in o["pairs"]],
                "step": [str(T.steps_to_date(n, s)) for n, s in o["steps"]]}

    # ------------------------------------------------------------------ spawning
    def op_demog(self, o):
        for k, d in o["dm"].items():
            rowfile("input_csv/demographics_%s.csv" % k, [[k] + d["cols"][1:]] + d["rows"])

    def op_loaddm(self, o):
        from flee import spawning
        spawning.read_demographics(self.e)

    def op_spawninit(self, o):
        from flee import spawning
        spawning.add_initial_refugees(self.e, getattr(self, "d", None), self.L(o["i"]))

    def op_spawnday(self, o):
        from drive import integer
        from flee import spawning
        from flee.SimulationSettings import SimulationSettings as SS
        d = getattr(self, "d", None)
        o["diff"] = 0
        if d is not None:
            o["diff"] = integer(copy.deepcopy(d).get_daily_difference(o["t"], FullInterpolation=True, SumFromCamps=o["sum"]))
        r = spawning.spawn_daily_displaced(self.e, o["t"], d)
        if d is not None:
            o["dp"] = self.x_dp()
        return [integer(x) for x in r]

    def op_spawnmore(self, o):
        from flee import spawning
        spawning.spawn_agents(self.e, o["n"])

    def x_people(self, name, o):
        heads = o["heads"]
        rows = [["#comment"], [], ["location"] + heads]
        for k, r in enumerate(o["rows"]):
            rows.append([r["loc"]] + [r["attrs"][h] for h in heads])
            if k % 3 == 1:
                rows.append(["#" + r["loc"]] + [r["attrs"][h] for h in heads])
        rowfile(name, rows)

    def op_agentscsv(self, o):
        from flee import InputGeography as G
        self.x_people("agents.csv", o)
        G.InputGeography().ReadAgentsFromCSV(self.e, "agents.csv")

    def op_freq(self, o):
        """Repeated spawning; only the counts are kept.  Not followed by other operations."""
        import random
        import numpy as np
        from flee import spawning
        random.seed(o["seed"]); np.random.seed(o["seed"])
        e = self.e
        lidx = {id(l): i for i, l in enumerate(e.locations)}
        n = [[] for _ in e.locations]
        at = [{} for _ in e.locations]
        tot = [0] * len(e.locations)
        keep = list(e.agents)
        fields = ("pop", "numAgents", "numAgentsOnRank", "numAgentsSpawned")
        save = [[getattr(l, f) for f in fields] for l in e.locations]
        for _ in range(o["reps"] if o["kind"] == "day" else 1):
            if o["kind"] == "day":
                spawning.spawn_daily_displaced(e, o["t"], getattr(self, "d", None))
            else:
                spawning.spawn_agents(e, o["n"])
            cnt = [0] * len(e.locations)
            for a in e.agents[len(keep):]:
                i = lidx[id(a.location)]
                cnt[i] += 1
                tot[i] += 1
                for k, v in (a.attributes or {}).items():
                    w = at[i].setdefault(str(k), {})
                    w[canon(v)] = w.get(canon(v), 0) + 1
            for i, c in enumerate(cnt):
                n[i].append(c)
            del e.agents[len(keep):]
            for l, vals in zip(e.locations, save):
                for f, v in zip(fields, vals):
                    setattr(l, f, v)
        return {"n": n, "at": at, "tot": tot}

    # ------------------------------------------------------------------ input files
    def x_files(self, o):
        rowfile("input_csv/locations.csv", o["locations"])
        rowfile("input_csv/routes.csv", o["routes"])
        rowfile("input_csv/closures.csv", o["closures"])
        if o["changes"]:
            rowfile("location_changes.csv", o["changes"])
        if o["major"]:
            rowfile("input_csv/major_routes.csv", o["major"])
        if o["conflicts"]:
            rowfile("input_csv/conflicts.csv", o["conflicts"])
        if o["flood"]:
            rowfile("input_csv/flood_level.csv", o["flood"])

    def x_geo(self, ig, e, e2, lm):
        from drive import num, text
        lidx = {id(l): i + 1 for i, l in enumerate(e2.locations)}
        return {"same": e2 is e, "closures": [[text(x) if i < 3 else int(x) for i, x in enumerate(c)] for c in e.closures],
                "changes": [[text(x) for x in c] for c in ig.location_changes],
                "names": [text(x) for x in lm], "map": [lidx.get(id(v), 0) for v in lm.values()],
                "table": {"names": [text(x) for x in ig.conflicts], "values": [[num(x) for x in v] for v in ig.conflicts.values()]}}

    def op_input(self, o):
        from flee import InputGeography as G
        self.x_files(o)
        self.ig = G.InputGeography()
        self.ig.ReadLocationsFromCSV("input_csv/locations.csv")
        self.ig.ReadLinksFromCSV("input_csv/routes.csv")
        self.ig.ReadClosuresFromCSV("input_csv/closures.csv")
        return self.x_geo(self.ig, self.e, *self.ig.StoreInputGeographyInEcosystem(self.e))

    def op_day(self, o):
        self.ig.AddNewConflictZones(self.e, o["t"])

    # ------------------------------------------------------------------ validation metrics
    def op_metric(self, o):
        import numpy as np
        from drive import num
        from flee.postprocessing import analysis as A
        a = o["args"]
        w = o["what"]
        arr = lambda x: np.array(x, dtype=float if any(isinstance(y, float) for y in x) else int)
        if w in ("rel", "abs"):
            f = A.rel_error if w == "rel" else A.abs_error
            r = [num(f(int(x[0]), x[1])) for x in a]
            o["args"] = [[num(y) for y in x] for x in a]
            return r
        if w == "mase":
            r = A.calculate_MASE(*[arr(x) for x in a], **({"start_of_forecast_period": o["start"]}))
        else:
            r = {"diffs": A.abs_diffs, "mean": A.mean_abs_diffs, "ln": A.calculate_ln_accuracy_ratio}[w](*[arr(x) for x in a])
        o["args"] = [[num(y) for y in x] for x in a]
        return [num(x) for x in np.atleast_1d(r)]

    def op_valid(self, o):
        import importlib.util
        import numpy as np
        import pandas as pd
        import flee.postprocessing as P
        from drive import num
        d = os.path.dirname(os.path.abspath(P.__file__))

        def load(name, f):
            sp = importlib.util.spec_from_file_location(name, os.path.join(d, f))
            m = importlib.util.module_from_spec(sp)
            sp.loader.exec_module(m)
            return m
        X = load("extract_validation_results", "extract-validation-results.py")
        Q = load("plot_flee_output_", "plot_flee_output.py")
        t = {}
        names = ["Camp%d" % k for k in range(len(o["sim"]))]
        for k, n in enumerate(names):
            t[n + " sim"] = o["sim"][k]
            t[n + " data"] = o["data"][k]
        t["refugees in camps (simulation)"] = o["simtot"]
        t["refugees in camps (UNHCR)"] = o["untot"]
        df = pd.DataFrame(t)
        errs = [X.plotme(df, n) for n in names]
        key = {"d": "absolute difference", "dr": "absolute difference rescaled", "ratio": "ratio difference", "dave": "absolute difference ave",
               "drave": "absolute difference rescaled ave", "ratioave": "ratio difference ave", "N": "N", "m7": "MASE7", "m30": "MASE30",
               "m7r": "MASE7-ratio", "m30r": "MASE30-ratio"}
        s = lambda v: [num(x) for x in v] if hasattr(v, "__len__") else num(v)
        se = X.SimulationErrors(errs)
        pe = Q.SimulationErrors([Q.error_quantification("c", df, n, naieve_model=False) for n in names])
        r = {"camps": [{k: s(e.errors[v]) for k, v in key.items()} for e in errs],
             "abs": s(se.abs_diff(rescaled=False)), "absr": s(se.abs_diff()), "e7": s(se.get_error("MASE7")), "e30r": s(se.get_error("MASE30-ratio")),
             "pabs": s(pe.abs_diff(rescaled=False)), "pabsr": s(pe.abs_diff(rescaled=True))}
        for k in ("sim", "data"):
            o[k] = [[num(x) for x in y] for y in o[k]]
        for k in ("simtot", "untot"):
            o[k] = [num(x) for x in o[k]]
        return r
