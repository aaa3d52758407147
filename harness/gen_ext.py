"""Scenario families about registration data, spawning, input files and timelines."""
import datetime
from gen import FAMILIES, family, Scn, NAMES, KINDS, dy, graph, kernel_moves, kernel_world, some_network_op, people


def date(start, n):
    return (datetime.date.fromisoformat(start) + datetime.timedelta(days=n)).isoformat()


def series(rng, start, first=None, last=40, lo=0, hi=400, up=False, head=None):
    """Rows of a registration file."""
    rows = []
    if head is None:
        head = rng.random() < .6
    if head:
        rows.append([rng.choice(["Date", "DateTime", ""]), "Refugee_numbers"])
    d = rng.choice([0, 0, 0, -5, 3]) if first is None else first
    v = rng.randint(lo, hi)
    for _ in range(rng.randint(2, 6)):
        if rng.random() < .15:
            rows.append(["#" + date(start, d), "77"])
        if rng.random() < .1:
            rows.append([])
        if rng.random() < .1:
            rows.append([date(start, d), ""])
            d += 1
        rows.append([date(start, d), str(v)])
        v = v + rng.randint(0, 60) if up else max(lo, v + rng.choice([rng.randint(-80, 80), rng.randint(0, 50), 0, 1, -3]))
        d += rng.choice([1, 2, 3, 5, 7, 10, rng.randint(1, 15)])
        if d > last:
            break
    return rows


def dataset(s, rng, names, start="2012-02-29", last=40, empty=None, scale=None, same_first=True, lo=0, hi=400, multi=True):
    files = {"total.csv": series(rng, start, 0 if same_first else None, last, lo, hi)}
    layout = [["total", "total.csv"]]
    for k, n in enumerate(names):
        f = "c%d.csv" % k
        files[f] = series(rng, start, 0 if same_first or rng.random() < .5 else None, last, lo, hi)
        row = [n, f]
        while multi and rng.random() < .25:
            g = "c%d_%d.csv" % (k, len(row))
            files[g] = series(rng, start, None, last, lo, hi)
            row.append(g)
        layout.append(row)
        if rng.random() < .1:
            layout.append(["#" + n, f])
        if rng.random() < .1:
            layout.append([])
    sc = scale if scale is not None else rng.choice([1, 1, 1, 2, 4, 10])
    em = (rng.random() < .3) if empty is None else empty
    s.op("data", layout=layout, files=files, start=start, scale=sc, empty=em, explicit=rng.random() < .5, nosnap=True)
    return files


STARTS = ["2012-02-29", "2015-05-01", "2016-12-25", "2020-01-01", "1999-12-30", "2013-01-31", "2015-02-28", "2016-08-31",
          "2017-11-30", "2013-10-31", "2019-07-15", "2000-02-28", "2018-12-31", "2014-03-09", "2011-05-31"]


def queries(s, rng, names, start, n):
    for _ in range(n):
        r = rng.random()
        full = rng.random() < .6
        days = sorted(rng.sample(range(-3, 50), rng.randint(2, 8)))
        if r < .35:
            s.op("dfield", name=rng.choice(names + ["total"]), days=days, full=full, nosnap=True)
        elif r < .7:
            ds = [d for d in days if d != 0 or rng.random() < .3]
            if rng.random() < .3:
                ds = [0] + [d for d in ds if d > 0]
            s.op("ddiff", days=ds or [1], full=full, sum=rng.random() < .6, nosnap=True)
        elif r < .8:
            s.op("dmax", name=rng.choice(names), days=days, nosnap=True)
        elif r < .9:
            s.op("dinterp", name=rng.choice(names + ["Nowhere"]), days=list(range(-2, 12)), nosnap=True)
        elif r < .96:
            s.op("dates", pairs=[[date(start, rng.randint(-900, 900)), date(start, rng.randint(-900, 900))] for _ in range(3)],
                 steps=[[rng.randint(0, 900), start]], nosnap=True)
        else:
            s.op("dover", rows=series(rng, start), nosnap=True)


def base(s, rng, **kw):
    s.sc["ext"] = True
    s.settings(**kw)


@family("data")
def data(rng, n):
    for x in range(n):
        s = Scn(rng, "data", x)
        base(s, rng)
        start = rng.choice(STARTS)
        names = NAMES[:rng.randint(1, 4)]
        dataset(s, rng, names, start, same_first=rng.random() < .6)
        queries(s, rng, names, start, rng.randint(5, 9))
        yield s.sc


@family("correct")
def correct(rng, n):
    for x in range(n):
        s = Scn(rng, "correct", x)
        base(s, rng)
        start = rng.choice(STARTS)
        names = NAMES[:rng.randint(2, 4)]
        files = dataset(s, rng, names, start, same_first=rng.random() < .6, multi=rng.random() < .3, lo=rng.choice([0, 50]))
        zero = rng.random() < .4
        if zero:
            s.op("ddiff", days=[0], full=rng.random() < .5, sum=False, nosnap=True)
        queries(s, rng, names, start, 1)
        def corr():
            k = rng.randrange(len(names))
            ds = [r[0] for r in files["c%d.csv" % k] if len(r) > 1 and r[0][:1].isdigit() and r[1]]
            if rng.random() < .75 and len(ds) > 1:
                return names[k], rng.choice(ds[1:])
            return names[k], rng.choice([date(start, rng.randint(-9, 30)), ds[0], date(start, 999)])
        for _ in range(rng.randint(1, 3)):
            nm, d = corr()
            s.op("l1", name=nm, date=d, nosnap=True)
            if zero:
                s.op("ddiff", days=[0], full=rng.random() < .5, sum=False, nosnap=True)
            queries(s, rng, names, start, 1)
        if rng.random() < .4:
            s.op("l1file", rows=[[], list(corr()), ["note"]], nosnap=True)
        for nm in names:
            s.op("dfield", name=nm, days=list(range(0, 45, 4)), full=True, nosnap=True)
        s.op("ddiff", days=[1, 2, 5, 9, 20], full=True, sum=True, nosnap=True)
        yield s.sc


def demography(s, rng, names):
    dm = {}
    for attr in rng.sample(["gender", "age", "ethnicity", "job"], rng.randint(1, 2)):
        vals = {"gender": ["female", "male"], "age": ["3", "17", "18", "40", "77"], "ethnicity": ["kin", "oth", "third"], "job": ["a", "b"]}[attr]
        cols = ["", "Default"] + rng.sample(names, rng.randint(0, min(2, len(names))))
        rows = [[v] + [rng.choice(["0", "1", "2", "5", "0.25", "0.5"]) for _ in cols[1:]] for v in vals]
        for c in range(1, len(cols)):
            if all(float(r[c]) == 0 for r in rows):
                rows[rng.randrange(len(rows))][c] = "1"
        dm[attr] = {"cols": cols, "rows": rows}
    s.op("demog", dm=dm, nosnap=True)


def spawn_world(s, rng, campnames=True):
    k = rng.randint(3, 6)
    for i in range(k):
        kind = rng.choice(["conflict_zone", "conflict_zone", "town"]) if i < 2 else rng.choice(["camp", "camp", "idpcamp", "town", "conflict_zone"])
        if i == 0 and rng.random() < .95:
            kind = "conflict_zone"
        kw = {"pop": rng.choice([0, 40, 100, 400, 1000, 3000])}
        if "camp" in kind:
            kw = {"capacity": rng.choice([-1, 0, 50, 500, 4000])}
        if kind == "conflict_zone" and rng.random() < .5:
            kw["attributes"] = {"conflict_intensity": rng.choice(["0.5", "2.0", "0.25"])}
        if rng.random() < .2:
            kw.setdefault("attributes", {})["initial_idps"] = rng.choice(["0", "3", "5"])
        s.loc(kind, **kw)
    for a, b in graph(rng, k, 1):
        s.link(a, b, dy(rng, 50, 500))


def spawn_rules(rng, **fix):
    sp = {"take_from_population": rng.random() < .5, "insert_day0": rng.random() < .7, "empty_camps_on_day0": rng.random() < .2,
          "sum_from_camps": rng.random() < .6}
    if rng.random() < .4:
        sp.update(conflict_spawn_decay=rng.choice([[1.0, 0.5], [1.0, 0.0], [0.5, 0.25, 1.0]]), conflict_spawn_decay_interval=rng.choice([1, 2, 3]))
    sp.update(fix)
    return sp


@family("arrivals")
def arrivals(rng, n):
    """Data-driven runs: initial populations, then one day after the other."""
    for x in range(n):
        s = Scn(rng, "arrivals", x)
        sp = spawn_rules(rng)
        mode = {}
        base(s, rng, move=kernel_moves(rng, awareness_level=1, conflict_movechance=0.5), spawn=sp)
        s.new()
        spawn_world(s, rng)
        campn = [m for m, k in zip(s.names, s.kinds) if "camp" in k]
        demo = rng.random() < .4
        if demo:
            demography(s, rng, s.names)
        dataset(s, rng, campn, last=14, lo=0, hi=60, scale=rng.choice([1, 1, 2]), empty=sp["empty_camps_on_day0"] and rng.random() < .8,
                multi=rng.random() < .3)
        if rng.random() < .5 and demo:
            s.op("loaddm")
        order = rng.random() < .7
        def init():
            for i, m in enumerate(s.names):
                if m in campn or not sp["insert_day0"]:
                    s.op("spawninit", i=i + 1)
        if rng.random() < .3:
            s.op("ddiff", days=[0], full=True, sum=sp["sum_from_camps"], nosnap=True)
        shut = [m for m in campn if rng.random() < .5] if rng.random() < .25 else []
        for m in shut:
            s.call("close_camp", m, s.kinds[s.names.index(m)] == "idpcamp")
        if order:
            init()
        for t in range(rng.randint(4, 8)):
            for m in shut:
                if t == 2:
                    s.call("open_camp", m, s.kinds[s.names.index(m)] == "idpcamp")
            if rng.random() < .25 and t:
                c = [m for m, k in zip(s.names, s.kinds) if k in ("town", "conflict_zone")]
                if c:
                    s.call(*rng.choice([("add_conflict_zone", rng.choice(c), 2.0), ("remove_conflict_zone", rng.choice(c)),
                                        ("set_conflict_intensity", rng.choice(c), rng.choice([0.0, 0.5]))]))
            if t == 0 and not order and rng.random() < .5:
                init()
            s.op("spawnday", t=t, sum=sp["sum_from_camps"])
            if rng.random() < .15:
                s.op("pick", n=rng.choice([5, 40]), seed=rng.randint(1, 10 ** 6), mayfail=True)
            if rng.random() < .7:
                s.evolve()
        yield s.sc


@family("weights")
def weights(rng, n):
    """Where new people start: many draws under changing conflicts, populations and decay."""
    for x in range(n):
        s = Scn(rng, "weights", x)
        sp = spawn_rules(rng, take_from_population=False)
        base(s, rng, move=kernel_moves(rng, awareness_level=1), spawn=sp)
        s.new()
        spawn_world(s, rng)
        for _ in range(rng.randint(3, 6)):
            r = rng.random()
            c = [m for m, k in zip(s.names, s.kinds) if k in ("town", "conflict_zone")]
            if r < .45 and c:
                s.call(*rng.choice([("add_conflict_zone", rng.choice(c), 2.0), ("remove_conflict_zone", rng.choice(c)),
                                    ("set_conflict_intensity", rng.choice(c), rng.choice([0.0, 0.5])),
                                    ("add_conflict_zone", rng.choice(c))]))
            elif r < .6:
                s.op("setloc", i=rng.randint(1, len(s.names)), set={"pop": rng.choice([0, 100, 700, 2000])})
            elif r < .7:
                some_network_op(s, rng)
            s.evolve(rng.randint(0, 2))
            s.op("pick", n=rng.choice([1, 3, 1200, 1200]), seed=rng.randint(1, 10 ** 6), mayfail=True)
            if rng.random() < .3:
                s.op("spawnmore", n=rng.randint(0, 4), mayfail=True)
        if rng.random() < .5:
            demography(s, rng, s.names)
            s.op("loaddm")
            s.op("freq", kind="more", n=500, t=0, seed=rng.randint(1, 10 ** 6), nosnap=True, mayfail=True)
        yield s.sc


@family("driven")
def driven(rng, n):
    """Displacement driven by conflicts or floods."""
    for x in range(n):
        s = Scn(rng, "driven", x)
        flood = rng.random() < .45
        mode = rng.choice(["constant", "pop_ratio", "poisson", "Poisson"]) if rng.random() < .95 else None
        if flood:
            v = {"pop_ratio": [[0.0, 0.125, 0.25, 0.5], [0.0, 0.1, 0.2, 0.5], None], None: [[0.0, 0.125, 0.25, 0.5], [0.0, 0.1, 0.2, 0.5], None]}.get(mode, [[0, 3, 7, 12], [2, 1, 40, 0]])
            d = {"displaced_per_flood_day": rng.choice(v)}
            sp = spawn_rules(rng, take_from_population=True, conflict_zone_spawning_only=False, flood_zone_spawning_only=True)
        else:
            d = {"displaced_per_conflict_day": rng.choice({"pop_ratio": [0.01, 0.125, 0.05]}.get(mode, [3, 10, 1, 25]))}
            sp = spawn_rules(rng, conflict_zone_spawning_only=rng.random() < .7)
        d = {k: v for k, v in d.items() if v is not None}
        if mode:
            d["spawn_mode"] = mode
        sp["flood_driven_spawning" if flood else "conflict_driven_spawning"] = d
        mv = kernel_moves(rng, awareness_level=1, conflict_movechance=0.5)
        if flood:
            mv["flood_rules"] = {"max_flood_level": 3, "flood_movechances": [0.0, 0.5, 1.0, 1.0], "flood_loc_weights": [1.0, 0.5, 0.25, 0.125]}
        base(s, rng, move=mv, spawn=sp)
        s.new()
        k = rng.randint(2, 5)
        big = mode == "pop_ratio"
        for i in range(k):
            kw = {"pop": rng.choice([0, 3, 8, 16, 40, 70, 100])}
            kind = rng.choice(["conflict_zone", "town", "camp", "flood_zone"] if not flood else ["flood_zone", "flood_zone", "town", "camp"])
            if kind == "conflict_zone" and rng.random() < .6:
                kw["attributes"] = {"conflict_intensity": rng.choice(["0.5", "2.0", "0.25"])}
            s.loc(kind, **kw)
        for a, b in graph(rng, k, 1):
            s.link(a, b, dy(rng, 50, 500))
        if rng.random() < .4:
            demography(s, rng, s.names)
            s.op("loaddm")
        for t in range(rng.randint(2, 5)):
            if flood:
                for i in range(k):
                    if rng.random() < .7 or t == 0:
                        s.op("attr", i=i + 1, name="flood_level", value=rng.choice([0, 0, 1, 2, 3]))
            elif rng.random() < .5:
                c = [m for m, kk in zip(s.names, s.kinds) if kk in ("town", "conflict_zone")]
                if c:
                    s.call(*rng.choice([("add_conflict_zone", rng.choice(c), 2.0), ("remove_conflict_zone", rng.choice(c)),
                                        ("set_conflict_intensity", rng.choice(c), rng.choice([0.0, 0.5, 0.1]))]))
            s.op("spawnday", t=t, sum=True)
            if rng.random() < .8:
                s.evolve()
        if rng.random() < .6:
            s.op("freq", kind="day", t=3, n=0, reps=120 if mode and mode.lower() == "poisson" else 3, seed=rng.randint(1, 10 ** 6), nosnap=True)
        yield s.sc


@family("initial")
def initial(rng, n):
    for x in range(n):
        s = Scn(rng, "initial", x)
        sp = spawn_rules(rng)
        base(s, rng, move=kernel_moves(rng, awareness_level=1), spawn=sp)
        s.new()
        spawn_world(s, rng)
        if rng.random() < .6:
            demography(s, rng, s.names)
        dataset(s, rng, s.names, last=14, lo=0, hi=30, scale=rng.choice([1, 2, 4]), empty=rng.random() < .2, multi=rng.random() < .3,
                same_first=rng.random() < .7)
        if rng.random() < .4:
            s.op("ddiff", days=[0], full=True, sum=True, nosnap=True)
        for i in range(len(s.names)):
            s.op("spawninit", i=i + 1)
        for _ in range(rng.randint(0, 2)):
            heads = rng.sample(["age", "gender", "ethnicity", "wealth", "household_id"], rng.randint(0, 3))
            val = {"age": ["5", "40", "17.5"], "gender": ["male", "female"], "ethnicity": ["kin", "oth"], "wealth": ["0.25", "3", "-1"],
                   "household_id": ["12", "h7", "1e3"]}
            rows = [{"loc": rng.choice(s.names) if rng.random() < .9 else "Nowhere", "attrs": {h: rng.choice(val[h]) for h in heads}}
                    for _ in range(rng.randint(0, 6))]
            s.op("agentscsv", heads=heads, rows=rows)
            if rng.random() < .4:
                s.evolve()
        if rng.random() < .5:
            s.op("loaddm")
        for t in range(rng.randint(1, 2)):
            s.op("spawnday", t=t, sum=sp["sum_from_camps"])
        yield s.sc


def location_rows(rng, k, flood, dated):
    head = ["#name", "region", "country", "lat", "lon", "location_type", "conflict_date", "pop/cap"]
    ex = rng.sample(["conflict_intensity", "initial_idps", "wealth", "", "kin"], rng.randint(0, 3)) if rng.random() < .6 else []
    rows = [head + ex]
    for i in range(k):
        kind = rng.choice(["conflict_zone", "town", "camp", "idpcamp", "forwarding_hub", "marker", "Camp", "CONFLICT", "Town", "idp_camp", "default"]
                          + (["flood_zone"] * 4 if flood else []))
        if i == 0 and not flood:
            kind = "conflict_zone"
        cd = rng.choice([0, 0, 1, 2, 3, 4]) if dated else 0
        r = [NAMES[i], rng.choice(["r1", "r2", ""]), rng.choice(["P", "P", "Q", ""]) if i or rng.random() < .1 else "P",
             rng.choice([dy(rng, -9, 9), dy(rng, -9, 9), "3", ""]), rng.choice([dy(rng, -9, 9), "0"]), kind, str(cd) if rng.random() < .9 or "onflict" in kind.lower() or "ONF" in kind else "",
             rng.choice(["", "0", "7", "100", "1001", "2500"])]
        for c in ex:
            r.append({"conflict_intensity": rng.choice(["0.5", "2.0", "1"]), "initial_idps": rng.choice(["0", "4"])}.get(c, rng.choice(["x", "1.5", ""])))
        rows.append(r)
        if rng.random() < .1:
            rows.append(["#" + NAMES[i]] + r[1:8])
        if rng.random() < .08:
            rows.append([])
    return rows


def route_rows(rng, k):
    ex = rng.sample(["max_move_speed", "kind", "walk_probability"], rng.randint(1, 2)) if rng.random() < .4 else []
    rows = [["#name1", "name2", "distance", "forced_redirection"] + ex]
    for a, b in graph(rng, k, rng.randint(0, 3)):
        r = [NAMES[a], NAMES[b], rng.choice([dy(rng, 20, 400), str(rng.randint(20, 300))])]
        if ex or rng.random() < .8:
            r.append(rng.choice(["0", "1", "2", "", "0"]))
        for c in ex:
            r.append({"max_move_speed": dy(rng, 50, 200), "walk_probability": "0.5"}.get(c, "river"))
        rows.append(r)
        if rng.random() < .1:
            rows.append(["#" + NAMES[a], NAMES[b], "1"])
        if rng.random() < .08:
            rows.append([])
    return rows


def table_rows(rng, names, days, flood):
    rows = [["#Day"] + [(" " + m if rng.random() < .1 else m) for m in names]]
    cur = {m: 0 for m in names}
    for d in range(days):
        r = [str(d)]
        for m in names:
            if d == 0 or rng.random() < .35:
                cur[m] = rng.choice([0, 0, 1, 2, 3]) if flood else rng.choice(["0", "0", "1", "1", "0.5", "2.0", "0.25", "0.0009765625", "0.0000152587890625"])
            r.append((" " if rng.random() < .05 else "") + str(cur[m]))
        rows.append(r)
    return rows


def input_files(s, rng, mode, days=0):
    k = rng.randint(3, 7)
    names = NAMES[:k]
    locs = location_rows(rng, k, mode == "flood", mode == "dates")
    kinds = {r[0]: r[5] for r in locs if r and not r[0].startswith("#")}
    s.names, s.kinds = names, [kinds[m] for m in names]
    routes = route_rows(rng, k)
    s.links = [(names.index(r[0]), names.index(r[1]), r[2]) for r in routes if r and not r[0].startswith("#")]
    closures = [["#closure_type", "name1", "name2", "closure_start", "closure_end"]]
    for _ in range(rng.randint(0, 3)):
        a, b = rng.sample(names, 2)
        t = rng.choice(["link", "location", "country", "camp"])
        if t == "country":
            a, b = "P", "Q"
        elif t == "camp":
            c = [m for m in names if kinds[m].lower() == "camp"]
            if not c:
                continue
            a, b = rng.choice(c), "-"
        closures.append([t, a, b, str(rng.randint(0, 3)), rng.choice([str(rng.randint(2, 6)), "-1"])])
        if rng.random() < .15:
            closures.append([])
    changes = []
    if rng.random() < .5:
        changes = [["#name", "new_type", "date"]]
        for _ in range(rng.randint(0, 3)):
            changes.append([rng.choice(names) if rng.random() < .92 else "Nowhere",
                            rng.choice(["town", "camp", "idpcamp", "conflict_zone", "forwarding_hub", "marker"]), str(rng.randint(0, max(1, days)))])
    major = []
    if rng.random() < .4:
        major = [["#a", "b"]]
        for _ in range(rng.randint(1, 2)):
            m = rng.sample(names, rng.randint(2, min(4, k)))
            if rng.random() < .25:
                m.append(m[0])          # there and back
            elif rng.random() < .25:
                m.insert(rng.randrange(1, len(m) + 1), "")
                if m[-1] == "":
                    m.pop()
            major.append(m)
    conflicts = table_rows(rng, rng.sample(names, rng.randint(1, k)) + (["Nowhere"] if rng.random() < .1 else []), max(2, days), False) if mode == "table" else []
    flood = table_rows(rng, rng.sample(names, rng.randint(1, k)), max(2, days), True) if mode == "flood" else []
    s.op("input", locations=locs, routes=routes, closures=closures, changes=changes, major=major, conflicts=conflicts, flood=flood)


def input_settings(rng, mode, days):
    top = {}
    sp = {"take_from_population": rng.random() < .3}
    mv = kernel_moves(rng, awareness_level=rng.choice([1, 1, 2]))
    if mode == "table":
        top["conflict_input_file"] = "input_csv/conflicts.csv"
    if mode == "flood":
        top["flood_level_input_file"] = "input_csv/flood_level.csv"
        mv["flood_rules"] = {"max_flood_level": 3, "flood_movechances": [0.0, rng.choice([0.25, 1.0]), 0.5, 1.0], "flood_loc_weights": [1.0, 0.5, 0.25, 0.125]}
        if rng.random() < .5:
            mv["flood_rules"].update(flood_forecaster=True, flood_forecaster_timescale=rng.choice([2, 3, 5]), flood_forecaster_end_time=days - 1,
                                     flood_forecaster_weights=[1.0, 0.75, 0.5, 0.5, 0.25, 0.25, 0.125, 0.5, 1.0, 1.0, 0.5, 0.5],
                                     flood_awareness_weights=[0.5, 1.0, 0.25])
        if rng.random() < .6:
            sp.update(take_from_population=True, flood_zone_spawning_only=True, conflict_zone_spawning_only=False,
                      flood_driven_spawning={"spawn_mode": "constant", "displaced_per_flood_day": [0, 2, 3, 5]})
    if rng.random() < .3:
        top["optimisations"] = {"hasten": rng.choice([1, 2, 10, 100])}
    return dict(move=mv, spawn=sp, **top)


@family("input")
def inputs(rng, n):
    for x in range(n):
        s = Scn(rng, "input", x)
        mode = rng.choice(["dates", "dates", "table", "flood", "plain"])
        base(s, rng, **input_settings(rng, mode, 3))
        s.new()
        input_files(s, rng, mode, 3)
        if rng.random() < .3 and mode == "plain":
            s.op("enact", time=0)
            s.op("enact", time=1)
        yield s.sc


@family("timeline")
def timeline(rng, n):
    for x in range(n):
        s = Scn(rng, "timeline", x)
        mode = rng.choice(["dates", "dates", "table", "table", "table"])
        days = rng.randint(4, 9)
        base(s, rng, **input_settings(rng, mode, days))
        s.new()
        input_files(s, rng, mode, days)
        if rng.random() < .4:
            people(s, rng, 4)
        for t in range(days):
            s.op("day", t=t)
            if rng.random() < .2:
                s.op("enact", time=t)
            s.evolve()
        yield s.sc


@family("floods")
def floods(rng, n):
    for x in range(n):
        s = Scn(rng, "floods", x)
        days = rng.randint(4, 9)
        st = input_settings(rng, "flood", days)
        fc = st["move"]["flood_rules"].get("flood_forecaster")
        driven_ = "flood_driven_spawning" in st["spawn"]
        base(s, rng, **st)
        s.new()
        input_files(s, rng, "flood", days)
        nag = rng.randint(2, 5)
        for t in range(days):
            s.op("day", t=t)
            if t == 0:
                for _ in range(nag):
                    s.op("insert", i=rng.randint(1, len(s.names)), n=1, attrs={"floodawareness": rng.choice([0, 1, 2])} if fc else {})
            if driven_ and not fc and rng.random() < .6:
                s.op("spawnday", t=t, sum=True)
            for q in rng.sample(range(1, nag + 1), 2):
                s.op("routes", k=q)
                s.op("chance", k=q, force=rng.random() < .5)
            s.evolve()
        yield s.sc


MOVE_KEYS = {"max_move_speed": (20, 500), "max_walk_speed": (5, 60), "max_crossing_speed": (5, 40), "foreign_weight": (0, 4),
             "camp_weight": (0, 5), "conflict_weight": (0, 2), "conflict_movechance": (0, 1), "camp_movechance": (0, 1),
             "idpcamp_movechance": (0, 1), "default_movechance": (0, 1), "capacity_buffer": (0, 1), "capacity_scaling": (0, 4),
             "softening": (0, 20), "weight_softening": (0, 2), "weight_power": (0, 3), "distance_power": (0, 3),
             "home_distance_power": (0, 2), "pop_power_for_loc_weight": (0, 1), "movechance_pop_base": (1, 20000),
             "movechance_pop_scale_factor": (0, 2), "pruning_threshold": (0, 8)}
MOVE_FLAGS = ["avoid_short_stints", "start_on_foot", "use_v1_rules", "stay_close_to_home", "use_pop_for_loc_weight", "fixed_routes",
              "ChildrenAvoidHazards", "BoysTakeRisk", "MatchCampEthnicity", "MatchTownEthnicity", "MatchConflictEthnicity"]
SPAWN_FLAGS = ["take_from_population", "insert_day0", "empty_camps_on_day0", "conflict_zone_spawning_only", "flood_zone_spawning_only",
               "camps_are_sinks", "read_from_agents_csv_file", "sum_from_camps"]
LOG_KEYS = ["agent", "link", "camp", "init", "conflict", "idp_totals"]


def number(rng, lo, hi):
    return rng.choice([int(rng.randint(lo, hi)), rng.randint(4 * lo, 4 * hi) / 4.0, rng.randint(4 * lo, 4 * hi) / 4.0, float(lo), hi])


def some_list(rng):
    return [number(rng, 0, 2) for _ in range(rng.randint(1, 5))]


def settings_file(rng):
    p = rng.choice([0, .1, .3, .5, .9, 1])
    y = {}
    m = {k: number(rng, *r) for k, r in MOVE_KEYS.items() if rng.random() < p}
    m.update({k: rng.random() < .5 for k in MOVE_FLAGS if rng.random() < p})
    if rng.random() < .8:
        m.pop("use_v1_rules", None)
    if rng.random() < p:
        m["awareness_level"] = rng.randint(0, 4)
    if rng.random() < .4:
        f = {}
        q = rng.choice([.3, .6, 1])
        for k in ("flood_movechances", "flood_loc_weights", "flood_link_weights", "flood_forecaster_weights", "flood_awareness_weights"):
            if rng.random() < q:
                f[k] = some_list(rng)
        if rng.random() < q:
            f["flood_forecaster"] = rng.random() < .7
        if rng.random() < q:
            f["flood_forecaster_timescale"] = rng.randint(0, 5)
        if rng.random() < q:
            f["flood_forecaster_end_time"] = rng.randint(0, 30)
        if rng.random() < q:
            f["max_flood_level"] = rng.randint(0, 5)
        m["flood_rules"] = f or {"max_flood_level": 4}
    s = {k: rng.random() < .5 for k in SPAWN_FLAGS if rng.random() < p}
    if rng.random() < .3:
        s["conflict_zone_spawning_only"] = False
        s["flood_zone_spawning_only"] = rng.random() < .8
        s["take_from_population"] = rng.random() < .8
    if rng.random() < .4:
        c = {}
        if rng.random() < .7:
            c["spawn_mode"] = rng.choice(["constant", "Poisson", "poisson", "pop_ratio"])
        if rng.random() < .7:
            c["displaced_per_conflict_day"] = rng.choice([0.5, 0.03125]) if c.get("spawn_mode") == "pop_ratio" else rng.choice([7, 200, 12.0])
        s["conflict_driven_spawning"] = c or {"spawn_mode": "constant"}
    if rng.random() < .4:
        c = {}
        if rng.random() < .7:
            c["spawn_mode"] = rng.choice(["constant", "pop_ratio"])
        if rng.random() < .6:
            c["displaced_per_flood_day"] = some_list(rng)
        s["flood_driven_spawning"] = c or {"spawn_mode": "pop_ratio"}
    if rng.random() < p:
        s["conflict_spawn_decay"] = some_list(rng)
    if rng.random() < p:
        s["conflict_spawn_decay_interval"] = rng.randint(1, 60)
    g = {k: rng.randint(0, 3) for k in LOG_KEYS if rng.random() < p}
    if rng.random() < p:
        g["granularity"] = rng.choice(["location", "region"])
    for k, v in (("move_rules", m), ("spawn_rules", s), ("log_levels", g)):
        if v or rng.random() < .3:
            y[k] = v or None
    if rng.random() < p:
        y["optimisations"] = {"hasten": rng.choice([1, 2, 10, 100])} if rng.random() < .8 else None
    if rng.random() < p:
        y["number_of_steps"] = rng.choice([0, 1, 10, 300, -1])
    if rng.random() < p:
        y["conflict_input_file"] = rng.choice(["conflicts.csv", "x/y.csv"])
    if rng.random() < p:
        y["flood_level_input_file"] = "flood_level.csv"
    return y


@family("settings")
def settings(rng, n):
    """Several settings files read one after the other by one process."""
    for x in range(n):
        s = Scn(rng, "settings", x)
        s.sc["ext"] = True
        for _ in range(rng.randint(2, 5)):
            s.op("settings", yaml=settings_file(rng), observe=True, mayfail=True, nosnap=True)
        yield s.sc


@family("logs")
def logs(rng, n):
    """Agent and link logs: levels, granularity, attributes, sinks, closures."""
    for x in range(n):
        s = Scn(rng, "logs", x)
        lv = {"agent": rng.choice([0, 1, 1, 2, 2, 3, 3]), "link": rng.choice([0, 1, 1, 2, 2]), "camp": rng.choice([0, 1])}
        if rng.random() < .3:
            lv["granularity"] = rng.choice(["region", "location"])
        v = rng.choice([100.0, 200.0])
        s.settings(move=kernel_moves(rng, max_move_speed=v, max_walk_speed=32.0, awareness_level=rng.choice([1, 1, 2]), default_movechance=rng.choice([1.0, 0.5]),
                                     conflict_movechance=1.0, camp_movechance=rng.choice([0.0, 0.5])),
                   spawn={"camps_are_sinks": rng.random() < .4}, log=lv)
        s.new()
        k = rng.randint(2, 5)
        for i in range(k):
            kw = {"x": dy(rng, -8, 8), "y": dy(rng, -8, 8), "region": rng.choice(["r1", "r2"])}
            kind = rng.choice(["town", "town", "forwarding_hub", "camp", "conflict_zone"]) if i else "conflict_zone"
            if kind == "camp" and rng.random() < .7:
                kw["attributes"] = {"deactivation_probability": rng.choice(["1.0", "0.5"])}
            s.loc(kind, pop=100, **kw)
        for a, b in graph(rng, k, rng.randint(0, 2)):
            s.link(a, b, rng.choice([repr(v / 2), repr(v / 4 if lv["agent"] > 1 else v / 2), repr(v), dy(rng, v / 4 if lv["agent"] > 1 else v / 2, 2 * v)]))
        keys = rng.choice([[], ["gender"], ["gender", "age"], ["ethnicity", "age", "gender"]])
        some = lambda: {q: rng.choice({"gender": ["m", "f"], "age": ["7", "30", "7"], "ethnicity": ["p", "q"]}[q]) for q in keys}
        for _ in range(rng.randint(1, 4)):
            s.op("insert", i=rng.randint(1, k), n=rng.randint(1, 4), attrs=some())
        for _ in range(rng.randint(3, 6)):
            if rng.random() < .3:
                i, j, _ = rng.choice(s.links)
                s.call(rng.choice(["close_link", "reopen_link"]), s.names[i], s.names[j], *([True] if rng.random() < .6 else []))
            if rng.random() < .1:
                s.call(rng.choice(["close_location", "reopen_location"]), rng.choice(s.names))
            if rng.random() < .3:
                s.op("insert", i=rng.randint(1, k), n=rng.randint(1, 3), attrs=some())
            if rng.random() < .1:
                s.op("clear", names=rng.sample(s.names, rng.choice([1, 2, len(s.names)])))
            s.op("evolve", logs=True)
            if lv["agent"] and lv["link"] and rng.random() < .25:
                o = {"what": rng.choice(["agents", "agents", "links"]), "time": rng.randint(1, 12)}
                if rng.random() < .7:
                    o["max_written"] = rng.choice([0, 1, 2, 3, 100, -1])
                if rng.random() < .7:
                    o["timestep_interval"] = rng.choice([1, 2, 3, 4])
                s.op("wlog", **o)
        yield s.sc


@family("metrics")
def metrics(rng, n):
    for x in range(n):
        s = Scn(rng, "metrics", x)
        s.sc["ext"] = True
        val = lambda lo=0, hi=300: rng.choice([rng.randint(lo, hi), rng.randint(lo, hi), max(lo, 0), rng.randint(lo, 3000)])
        ser = lambda k, lo=0: [val(lo) for _ in range(k)]
        for w in rng.sample(["rel", "abs", "diffs", "mean", "ln", "mase"], 3):
            k = rng.randint(1, 12)
            if w in ("rel", "abs"):
                s.op("metric", what=w, args=[[val(), rng.choice([val(), 0, 1, 0.25, 1.5])] for _ in range(k)], nosnap=True)
            elif w == "mase":
                y = ser(k + 9)
                st = rng.randint(0, 6)
                z = [v + rng.choice([1, 5, -3]) if i > st else v for i, v in enumerate(y)]
                f = y if rng.random() < .15 else ser(len(y))
                s.op("metric", what=w, args=[f, y, z], start=st, nosnap=True)
            else:
                a = ser(k, 1 if w == "ln" else 0)
                b = a if rng.random() < .15 else ser(k, 1 if w == "ln" else 0)
                s.op("metric", what=w, args=[a, b], nosnap=True)
        if rng.random() < .5:
            k = rng.randint(34, 45)
            c = rng.randint(1, 3)
            data = [[rng.randint(5, 400) + 3 * i for i in range(k)] for _ in range(c)]
            sim = [[rng.choice([v, max(0, v + rng.randint(-50, 50)), 0]) for v in y] for y in data]
            if rng.random() < .2:
                sim = data
            untot = [sum(y[i] for y in data) + rng.randint(1, 40) for i in range(k)]
            simtot = [sum(y[i] for y in sim) if rng.random() < .9 else 0 for i in range(k)]
            s.op("valid", sim=sim, data=data, untot=untot, simtot=simtot, nosnap=True)
        yield s.sc


@family("fixed")
def fixed(rng, n):
    """Fixed routes: offers of every location, day by day, with changing scores, closures and major routes."""
    for x in range(n):
        s = Scn(rng, "fixed", x)
        bulk = rng.random() < .35
        fl = rng.random() < .2
        mv = kernel_moves(rng, fixed_routes=True, awareness_level=rng.choice([0, 1, 1, 2, 2, 2, 3, 3, 4]), default_movechance=rng.choice([0.5, 1.0]))
        if rng.random() < .5:
            mv.update(weight_power=rng.choice([0.5, 2.0, 1.0]), distance_power=rng.choice([0.5, 2.0, 1.0]), weight_softening=rng.choice([0.0, 0.5]))
        if rng.random() < .1:
            mv["conflict_weight"] = 0.0
        if rng.random() < .2:
            mv.update(stay_close_to_home=True, home_distance_power=rng.choice([0.5, 1.0]))
        if rng.random() < .2:
            mv.update(use_pop_for_loc_weight=True, pop_power_for_loc_weight=rng.choice([0.5, 0.25]))
        if fl:
            mv["flood_rules"] = {"max_flood_level": 3, "flood_movechances": [0.0, 0.25, 0.5, 1.0], "flood_loc_weights": [1.0, 0.5, 0.25, 0.125]}
        if bulk:
            mv.update(max_move_speed=2.0, max_walk_speed=1.0, start_on_foot=False, capacity_scaling=1.0)
        sp = {}
        if rng.random() < .4:
            sp = {"conflict_spawn_decay": rng.choice([[1.0, 0.5], [1.0, 0.75, 0.25, 0.0], [0.5, 2.0]]), "conflict_spawn_decay_interval": rng.choice([1, 2])}
        s.settings(move=mv, spawn=sp)
        s.new()
        k = rng.randint(4, 7)
        for i in range(k):
            kind = rng.choice(["town", "town", "conflict_zone", "camp", "marker", "marker", "idpcamp", "flood_zone" if fl else "town"]) if i else rng.choice(["conflict_zone", "town"])
            s.loc(kind, x=dy(rng, -8, 8), y=dy(rng, -8, 8), foreign=rng.random() < .3, country=rng.choice(["P", "Q"]), region=rng.choice(["r1", "r2"]),
                  pop=rng.choice([100, 1000, 4000]), **({"capacity": rng.choice([2, 4, 10])} if rng.random() < .2 else {}))
        for a, b in graph(rng, k, rng.randint(0, 4)):
            for _ in range(2 if rng.random() < .08 else 1):
                s.link(a, b, rng.choice(["100.0", "200.0", dy(rng, 90, 400), dy(rng, 90, 400)]))
        nb = {}
        for a, b, _ in s.links:
            nb.setdefault(a, []).append(b)
            nb.setdefault(b, []).append(a)
        major = []
        for _ in range(rng.choice([0, 0, 1, 2, 4])):
            p = [rng.randrange(k)]
            for _ in range(rng.randint(1, 4)):
                q = [v for v in nb[p[-1]] if v not in p]
                if not q:
                    break
                p.append(rng.choice(q))
            if len(p) > 1:
                major.append([p[0] + 1, [v + 1 for v in p[1:]]])
                if rng.random() < .7:
                    major.append([p[-1] + 1, [v + 1 for v in p[-2::-1]]])
        if major:
            s.op("major", major=major)
        if fl:
            for i in range(k):
                if rng.random() < .5:
                    s.op("attr", i=i + 1, name="flood_level", value=rng.randint(0, 3))
        if bulk:
            for _ in range(rng.randint(1, 3)):
                s.op("bulk", i=rng.randint(1, k), n=800, seed=rng.randint(1, 10 ** 6))
                if rng.random() < .6:
                    some_network_op(s, rng)
        else:
            for _ in range(rng.randint(3, 6)):
                for _ in range(rng.randint(0, 2)):
                    some_network_op(s, rng)
                if rng.random() < .6:
                    s.op("insert", i=rng.randint(1, k), n=rng.randint(1, 4))
                s.evolve()
        yield s.sc


# ---------------------------------------------------------------------- parallel runs
SERIAL_ONLY = ("routes", "chance", "capmult", "pick", "freq", "bulk", "major", "decay", "graph", "wlog")


@family("par")
def par(rng, n):
    """Scenarios of the other families on several ranks."""
    src = ["kernel", "kernel", "camps", "camps", "sinks", "closetravel", "closetravel", "travel", "netops", "schedule", "fixed", "arrivals",
           "arrivals", "driven", "logs", "kinds", "leave"]
    for x in range(n):
        fam = src[x % len(src)]
        sc = next(iter(FAMILIES[fam](rng, 1)))
        sc.update(id="par-%d" % x, family="par", ranks=rng.choice([1, 2, 2, 3, 3, 4]))
        ops = []
        days = 0
        for o in sc["ops"]:
            if o["op"] in SERIAL_ONLY:
                continue
            if o["op"] == "settings":
                sr = o["yaml"].get("spawn_rules") or {}
                take = sr.get("take_from_population")
                if take and fam == "driven":
                    sr["take_from_population"] = False
            if o["op"] == "new":
                o = dict(o, mode="par", pm=rng.choice(["classic", "loc-par"]), lm=rng.choice(["low_latency", "high_latency"]))
            if o["op"] == "loc" and take and fam != "driven":
                o = dict(o, kw=dict(o["kw"], pop=o["kw"].get("pop", 0) + 5000))
            if o["op"] == "setloc" and "pop" in o["set"]:
                o = dict(o, set=dict(o["set"], pop=o["set"]["pop"] + 5000))
            ops.append(o)
            if o["op"] == "evolve" and rng.random() < .15:
                ops.append({"op": "numidps"})
        sc["ops"] = ops
        yield sc


@family("parscore")
def parscore(rng, n):
    """Scores change from day to day and are shared by the ranks."""
    for x in range(n):
        s = Scn(rng, "parscore", x)
        s.sc["ranks"] = rng.choice([2, 3, 3, 4])
        fl = rng.random() < .4
        mv = kernel_moves(rng, camp_weight=rng.choice([2.0, 4.0]), conflict_weight=rng.choice([0.25, 0.5]), foreign_weight=2.0,
                          conflict_movechance=1.0, default_movechance=0.5)
        if rng.random() < .3:
            mv["fixed_routes"] = True
        if fl:
            mv["flood_rules"] = {"max_flood_level": 3, "flood_movechances": [0.0, 0.5, 0.5, 1.0], "flood_loc_weights": [1.0, 0.5, 0.25, 0.125]}
        s.settings(move=mv, spawn={"conflict_spawn_decay": [1.0, 0.5, 0.25], "conflict_spawn_decay_interval": 2} if rng.random() < .4 else {})
        s.new("par", pm=rng.choice(["loc-par", "loc-par", "loc-par", "classic"]), lm=rng.choice(["low_latency", "high_latency"]))
        k = rng.randint(3, 9)
        for i in range(k):
            s.loc(rng.choice(["town", "town", "camp", "conflict_zone", "town", "flood_zone" if fl else "town"]), pop=rng.choice([100, 1000]),
                  foreign=rng.random() < .3, x=dy(rng, -5, 5), y=dy(rng, -5, 5))
        for a, b in graph(rng, k, 3):
            s.link(a, b, dy(rng, 60, 400))
        people(s, rng, rng.randint(4, 10))
        for _ in range(rng.randint(6, 10)):
            s.evolve()
            for _ in range(rng.choice([1, 1, 2, 4])):
                r = rng.random()
                m = rng.choice(s.names)
                if fl and r < .4:
                    s.op("attr", i=rng.randint(1, k), name="flood_level", value=rng.randint(0, 3))
                elif r < .7:
                    s.call("add_conflict_zone", m, rng.choice([0.5, 1.0, 2.0]))
                elif r < .85:
                    s.call("remove_conflict_zone", m)
                else:
                    s.call("change_location_type", m, rng.choice(["town", "camp", "conflict_zone"]))
        yield s.sc
