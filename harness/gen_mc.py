"""Scenarios made of behaviours of the specification: TLC explores a small model (spec/MC_*.tla) completely and prints
its transitions (E|...) or its inputs (I|...); here they become scenarios that take the implementation the same way."""
import json, random
from gen import Scn

MODELS = {}          # family -> (module, configuration, configuration of the thorough tier, builder)


def model(fam, module, cfg, big=None):
    def deco(f):
        MODELS[fam] = (module, cfg, big or cfg, f)
        return f
    return deco


def parse(stdout):
    """The printed transitions or inputs, in a fixed order."""
    out = set()
    for x in stdout.splitlines():
        if x.startswith(('"E|', '"I|')):
            out.add(json.loads(x)[2:])
    return [json.loads(x) for x in sorted(out)]


def tours(edges, rng, length):
    """Walks from the initial states that together cover every transition."""
    out, roots = {}, []
    for e in edges:
        if e["u"] == "":
            roots.append(e)
        else:
            out.setdefault(e["u"], []).append(e)
    rng.shuffle(roots)
    for v in out.values():
        rng.shuffle(v)
    todo = {k: list(v) for k, v in out.items()}
    fresh = list(roots)
    left = sum(map(len, todo.values()))

    def nearest(u):
        seen, q = {u: None}, [u]
        for x in q:
            if todo.get(x):
                p = []
                while seen[x] is not None:
                    p.append(seen[x])
                    x = seen[x]["u"]
                return p[::-1]
            for e in out.get(x, []):
                if e["v"] not in seen:
                    seen[e["v"]] = e
                    q.append(e["v"])
        return None
    stuck = set()
    while left or fresh:
        r = fresh.pop() if fresh else rng.choice([r for r in roots if id(r) not in stuck] or [None])
        if r is None:
            return       # the rest cannot be reached
        walk, u = [r["op"]], r["v"]
        start = left
        while len(walk) < length and left:
            if todo.get(u):
                e = todo[u].pop()
                left -= 1
                walk.append(e["op"])
                u = e["v"]
                continue
            p = nearest(u)
            if p is None:
                break
            walk += [e["op"] for e in p]
            u = p[-1]["v"]
        if left == start and left:
            stuck.add(id(r))
            if len(walk) == 1 and fresh == []:
                continue
        yield walk


def pick(items, rng, n):
    return items if len(items) <= n else rng.sample(items, n)


def world3(s, rng):
    """The network of MC_Roads; some people are under way on its roads."""
    s.loc("conflict_zone", country="P", pop=100)
    s.loc("town", country="P", pop=100)
    s.loc("town", country="Q", pop=100)
    for i, j, d, f in ((0, 1, "100", True), (0, 2, "250", False), (0, 1, "80", True), (1, 2, "300", False)):
        s.link(i, j, d, forced=f)


@model("mc_roads", "MC_Roads", "MC_Roads.cfg", "MC_Roads_big.cfg")
def roads(rng, edges, n):
    for x, w in enumerate(pick(list(tours(edges, rng, 90)), rng, n)):
        s = Scn(rng, "mc_roads", x)
        s.settings(move={"conflict_movechance": 1.0, "default_movechance": 1.0, "max_move_speed": 20.0})
        s.new()
        world3(s, rng)
        if rng.random() < .7:
            for i in (1, 2, 3):
                s.op("insert", i=i, n=2)
            s.evolve()
        for o in w[1:]:
            s.call(o["f"], *o["args"])
            if rng.random() < .03:
                s.evolve()
        yield s.sc


@model("mc_kinds", "MC_Kinds", "MC_Kinds.cfg")
def kinds(rng, edges, n):
    for x, w in enumerate(pick(list(tours(edges, rng, 70)), rng, n)):
        s = Scn(rng, "mc_kinds", x)
        type_, mc, low = w[0]["args"]
        s.settings(move={"default_movechance": 0.004 if low else 0.3})
        s.new()
        s.loc(type_ or None, movechance=mc, name="Alpha", pop=10)
        s.loc("camp", name="Beta", capacity=10)
        for o in w[1:]:
            a = list(o["args"])
            if o["f"] in ("add_conflict_zone", "set_conflict_intensity") and len(a) > 1:
                a[1] = float(a[1])
            s.call(o["f"], *a)
        yield s.sc


@model("mc_schedule", "MC_Schedule", "MC_Schedule.cfg", "MC_Schedule_big.cfg")
def schedule(rng, items, n):
    for x, it in enumerate(pick(items, rng, n)):
        s = Scn(rng, "mc_schedule", x)
        s.settings()
        s.new()
        s.loc("town", country="P", pop=100)
        s.loc("town", country="P", pop=100)
        s.loc("camp", country="Q", capacity=100)
        for i, j, d, f in ((0, 1, "100", True), (0, 2, "250", False), (0, 1, "80", True), (1, 2, "300", False)):
            s.link(i, j, d, forced=f)
        s.op("closures", list=it["cs"])
        for t in range(max(c[k] for c in it["cs"] for k in (3, 4)) + 2):
            s.op("enact", time=t, **({} if it["tw"] and x % 2 else {"twoway": it["tw"]}))
            s.evolve()
        yield s.sc


ROUTE_DIST = {(1, 2): 10, (1, 3): 21, (1, 4): 43, (2, 3): 87, (2, 4): 171, (3, 4): 341}


@model("mc_routes", "MC_Routes", "MC_Routes.cfg", "MC_Routes_big.cfg")
def routes(rng, items, n):
    for x, it in enumerate(pick(items, rng, n)):
        s = Scn(rng, "mc_routes", x)
        s.settings(move={"awareness_level": it["aware"], "conflict_movechance": 0.0})
        s.new()
        for i in range(4):
            s.loc("marker" if i + 1 in it["markers"] else "town", pop=100)
        rs = {tuple(r) for r in it["roads"]}
        pairs = sorted({tuple(sorted(r)) for r in rs})
        rng.shuffle(pairs)
        for a, b in pairs:
            s.link(a - 1, b - 1, str(ROUTE_DIST[(a, b)]))
        for a, b in pairs:
            for u, v in ((a, b), (b, a)):
                if (u, v) not in rs:
                    s.call("close_link", s.names[u - 1], s.names[v - 1], False)
        for i in range(4):
            s.op("insert", i=i + 1, n=1)
        for k in range(4):
            s.op("routes", k=k + 1)
        yield s.sc


@model("mc_timeline", "MC_Timeline", "MC_Timeline.cfg", "MC_Timeline_big.cfg")
def timeline(rng, items, n):
    for x, it in enumerate(pick(items, rng, n)):
        s = Scn(rng, "mc_timeline", x)
        s.sc["ext"] = True
        s.settings(**({"conflict_input_file": "input_csv/conflicts.csv"} if it["tab"] else {}))
        s.new()
        s.names = ["Alpha", "Beta"]
        table = [["#Day", "Alpha"]] + [[str(d), v] for d, v in enumerate(it["tab"])] if it["tab"] else []
        s.op("input", locations=[["#name", "region", "country", "lat", "lon", "location_type", "conflict_date", "pop/cap"],
                                 ["Alpha", "r", "P", "0.5", "0.5", it["type"], str(it["date"]), "100"],
                                 ["Beta", "r", "P", "1.5", "0.5", "town", "0", "100"]],
             routes=[["#name1", "name2", "distance", "forced_redirection"], ["Alpha", "Beta", "100", "0"]],
             closures=[["#closure_type", "name1", "name2", "closure_start", "closure_end"]],
             changes=[["#name", "new_type", "date"], ["Alpha", it["chg"][0], str(it["chg"][1])]] if it["chg"] else [],
             major=[], conflicts=table, flood=[])
        for t in range(it["days"]):
            s.op("day", t=t)
            s.evolve()
        yield s.sc


@model("mc_kernel", "MC_Kernel", "MC_Kernel.cfg", "MC_Kernel_big.cfg")
def kernel(rng, items, n):
    for x, c in enumerate(pick([c for c in items if not c["par"]], rng, n)):
        s = Scn(rng, "mc_kernel", x)
        s.settings(move={"max_move_speed": float(c["v"]), "max_walk_speed": 40.0, "awareness_level": c["aw"], "conflict_movechance": 1.0,
                         "default_movechance": 0.5, "camp_movechance": 0.0, "start_on_foot": c["foot"], "avoid_short_stints": c["shorty"]},
                   spawn={"camps_are_sinks": c["sink"]}, log={"camp": 1})
        s.new()
        s.loc("conflict_zone", country="P", pop=0)
        s.loc("town", country="P", pop=0)
        s.loc("camp", country="P", capacity=2, attributes={"deactivation_probability": "0.5"})
        s.link(0, 1, c["d1"])
        s.link(1, 2, c["d2"])
        s.op("insert", i=1, n=3)
        for t in range(5):
            if t == 1 and c["shut"] or t == 3 and c["shut"] == 2:
                s.call("close_link", "Alpha", "Beta", True)
            if t == 2 and c["shut"] == 2:
                s.call("reopen_link", "Alpha", "Beta", True)
            s.evolve()
        yield s.sc


def day(start, n):
    import datetime
    return (datetime.date.fromisoformat(start) + datetime.timedelta(days=n)).isoformat()


@model("mc_debt", "MC_Debt", "MC_Debt.cfg", "MC_Debt_big.cfg")
def debt(rng, items, n):
    for x, it in enumerate(pick(items, rng, n)):
        s = Scn(rng, "mc_debt", x)
        s.sc["ext"] = True
        sm = x % 2 == 0
        s.settings(spawn={"insert_day0": it["held"], "sum_from_camps": sm})
        s.new()
        s.loc("conflict_zone", pop=1000)
        s.loc("camp", capacity=5000)
        s.link(0, 1, "100")
        start = "2012-02-27"
        reg = it["reg"] + [it["reg"][-1]]
        rows = lambda v: [["Date", "n"]] + [[day(start, d), str(c)] for d, c in enumerate(v)]
        s.op("data", layout=[["total", "total.csv"], ["Beta", "c.csv"]],
             files={"total.csv": rows([0] * len(reg) if sm else reg), "c.csv": rows(reg if sm else [reg[0]] + [2] * (len(reg) - 1))},
             start=start, scale=1, empty=False, explicit=True, nosnap=True)
        s.op("spawninit", i=2)
        for t in range(len(it["reg"])):
            s.op("spawnday", t=t, sum=sm)
            if rng.random() < .5:
                s.evolve()
        yield s.sc


@model("mc_interp", "MC_Interp", "MC_Interp.cfg", "MC_Interp_big.cfg")
def interp(rng, items, n):
    for x, it in enumerate(pick(items, rng, n)):
        s = Scn(rng, "mc_interp", x)
        s.sc["ext"] = True
        s.settings()
        start = "2011-12-30"
        other = rng.choice(items)
        rows = lambda tab: [["Date", "n"]] + [[day(start, d), c] for d, c in tab]
        s.op("data", layout=[["total", "total.csv"], ["Alpha", "a.csv"], ["Beta", "b.csv"]],
             files={"total.csv": rows(other), "a.csv": rows(it), "b.csv": rows(rng.choice(items))},
             start=start, scale=1, empty=False, explicit=False, nosnap=True)
        for full in (True, False):
            for m in ("Alpha", "total"):
                s.op("dfield", name=m, days=list(range(-3, 12)), full=full, nosnap=True)
            s.op("ddiff", days=list(range(1, 10)), full=full, sum=full, nosnap=True)
        yield s.sc


@model("mc_capmult", "MC_CapMult", "MC_CapMult.cfg")
def capmult(rng, items, n):
    for x, it in enumerate(pick(items, rng, n)):
        s = Scn(rng, "mc_capmult", x)
        s.settings(move={"capacity_scaling": float(it["scale"]), "capacity_buffer": float(it["buf"])})
        s.new()
        s.loc("camp", capacity=it["cap"])
        s.op("capmult", i=1, n=list(range(25)))
        yield s.sc


def plain(v):
    if isinstance(v, dict):
        return {k: plain(x) for k, x in v.items()}
    if isinstance(v, list):
        return [plain(x) for x in v]
    if isinstance(v, str) and v[:1].isdigit():
        return float(v)
    return v


@model("mc_settings", "MC_Settings", "MC_Settings.cfg")
def settings(rng, items, n):
    """Settings files are read one after another."""
    rng.shuffle(items)
    for x in range(min(n, (len(items) + 19) // 20)):
        s = Scn(rng, "mc_settings", x)
        for y in items[20 * x:20 * x + 20]:
            s.op("settings", yaml={k: (plain(v) or {}) for k, v in y.items()}, mayfail=True)
        yield s.sc


def build(fam, seed, n, stdout):
    return list(MODELS[fam][3](random.Random("%s/%s" % (fam, seed)), parse(stdout), n))
