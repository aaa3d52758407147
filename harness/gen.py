"""Scenario generators.  A family is a function f(rng, n) yielding scenarios; families are registered in FAMILIES.

Numbers are dyadic (exact in binary floating point) so that boundary cases are decided exactly.
"""
import random

FAMILIES = {}


def family(name):
    def deco(f):
        FAMILIES[name] = f
        return f
    return deco


NAMES = ["Alpha", "Beta", "Gamma", "Delta", "Eps", "Zeta", "Eta", "Theta", "Iota", "Kappa", "Lam", "Mu"]


def dy(rng, lo, hi, q=4):
    """A dyadic number between lo and hi, as a decimal string."""
    return repr(rng.randint(int(lo * q), int(hi * q)) / float(q))


class Scn:
    def __init__(self, rng, fam, num):
        self.rng = rng
        self.sc = {"id": "%s-%d" % (fam, num), "family": fam, "seed": rng.randint(1, 10 ** 6), "ops": []}
        self.names = []
        self.kinds = []
        self.countries = []
        self.links = []          # (a, b, dist) one per addition

    def op(self, op, **kw):
        self.sc["ops"].append(dict(op=op, **kw))
        return self

    def settings(self, move=None, spawn=None, log=None, **top):
        y = {"log_levels": log or {}, "spawn_rules": spawn or {}, "move_rules": move or {}}
        y.update(top)
        self.op("settings", yaml=y)
        return self

    def new(self, mode="serial", **kw):
        return self.op("new", mode=mode, **kw)

    def loc(self, kind=None, **kw):
        name = kw.pop("name", None) or NAMES[len(self.names)]
        d = {"name": name}
        if kind:
            d["location_type"] = kind
        d.update(kw)
        self.names.append(name)
        self.kinds.append(kind)
        self.countries.append(kw.get("country", "unknown"))
        return self.op("loc", kw=d)

    def link(self, i, j, dist, **kw):
        self.links.append((i, j, dist))
        return self.op("link", a=self.names[i], b=self.names[j], dist=str(dist), **kw)

    def call(self, f, *args, **kw):
        return self.op("call", f=f, args=list(args), kw=kw)

    def evolve(self, n=1):
        for _ in range(n):
            self.op("evolve")
        return self


KINDS = ["town", "conflict_zone", "camp", "idpcamp", "forwarding_hub", "marker", "default", "flood_zone"]


def graph(rng, n, extra):
    """A connected graph on n nodes: a random tree plus extra edges; no self loops, no parallel edges."""
    es = []
    for i in range(1, n):
        es.append((rng.randint(0, i - 1), i))
    for _ in range(extra):
        a, b = rng.randrange(n), rng.randrange(n)
        if a != b and (a, b) not in es and (b, a) not in es:
            es.append((a, b))
    rng.shuffle(es)
    return [(a, b) if rng.random() < .5 else (b, a) for a, b in es]


def kernel_moves(rng, **fix):
    m = {"awareness_level": rng.choice([1, 1, 2, 2, 3]),
         "max_move_speed": rng.choice([100.0, 200.0, 360.0, 128.0]),
         "max_walk_speed": rng.choice([25.0, 35.0, 50.0]),
         "softening": rng.choice([0.0, 10.0, 4.0]) + 0.0,
         "camp_weight": rng.choice([1.0, 2.0, 4.0]),
         "foreign_weight": rng.choice([1.0, 2.0, 0.5]),
         "conflict_weight": rng.choice([0.25, 0.5, 1.0]),
         "conflict_movechance": rng.choice([1.0, 1.0, 0.5]),
         "default_movechance": rng.choice([0.3, 0.5, 1.0]),
         "camp_movechance": rng.choice([0.001, 0.0, 0.25]),
         "idpcamp_movechance": rng.choice([0.1, 0.5]),
         "avoid_short_stints": rng.random() < .4,
         "start_on_foot": rng.random() < .3,
         "capacity_buffer": rng.choice([0.5, 0.75, 0.9]),
         "capacity_scaling": rng.choice([1.0, 1.0, 2.0, 0.5]),
         "pruning_threshold": rng.choice([1.0, 1.0, 2.0, 8.0])}
    m.update(fix)
    return m


def kernel_world(s, rng, n=None, extra=None, attrs=True, kinds=None, capprob=.6, flood=False):
    n = n or rng.randint(3, 6)
    v = next((o["yaml"]["move_rules"].get("max_move_speed", 360.0) for o in s.sc["ops"] if o["op"] == "settings"), 360.0)
    pool = kinds or ["town", "town", "conflict_zone", "camp", "camp", "idpcamp", "forwarding_hub", "marker", "default"]
    for i in range(n):
        k = rng.choice(pool) if i else rng.choice(["conflict_zone", "conflict_zone", "town"])
        kw = {"x": dy(rng, -8, 8), "y": dy(rng, -8, 8), "country": rng.choice(["P", "P", "Q"]), "region": rng.choice(["r1", "r2"]),
              "pop": rng.choice([0, 100, 1000, 5000])}
        kw["foreign"] = kw["country"] == "Q"
        if "camp" in k and rng.random() < capprob:
            kw["capacity"] = rng.choice([1, 2, 3, 4, 6, 8, 10])
        if k.startswith("conflict"):
            kw["pop"] = rng.choice([100, 1000, 4000])
        s.loc(k, **kw)
    for a, b in graph(rng, n, rng.randint(0, 3) if extra is None else extra):
        kw = {}
        if attrs and rng.random() < .15:
            kw["attrs"] = {"max_move_speed": dy(rng, 20, 300)}
        elif attrs and rng.random() < .12:
            kw["attrs"] = {"walk_probability": rng.choice(["0.5", "1.0", "0.0"])}
        if rng.random() < .1:
            kw["forced"] = True
        s.link(a, b, repr(max(v / 4, float(rng.choice(["50.0", "100.0", "200.0", "360.0", dy(rng, 5, 120), dy(rng, 5, 500), dy(rng, 300, 900)])))), **kw)


def some_network_op(s, rng):
    """A random public network operation."""
    r = rng.random()
    nm = lambda: rng.choice(s.names)
    if s.links and r < .45:
        i, j, _ = rng.choice(s.links)
        a, b = (i, j) if rng.random() < .5 else (j, i)
        args = [s.names[a], s.names[b]] + ([rng.random() < .5] if rng.random() < .6 else [])
        if rng.random() < .05:
            args[rng.randrange(2)] = "Nowhere"
        s.call(rng.choice(["close_link", "close_link", "reopen_link", "reopen_link", "remove_link"]), *args)
    elif r < .65:
        x = nm() if rng.random() < .95 else "Nowhere"
        s.call(rng.choice(["close_location", "reopen_location"]), x, *([rng.random() < .5] if rng.random() < .5 else []))
    elif r < .8:
        s.call(rng.choice(["close_border", "reopen_border"]), rng.choice(["P", "Q", "unknown"]), rng.choice(["P", "Q", "Z"]),
               *([rng.random() < .5] if rng.random() < .5 else []))
    elif r < .87:
        camps = [n for n, k in zip(s.names, s.kinds) if k and "camp" in k]
        if camps:
            s.call(rng.choice(["open_camp", "close_camp"]), rng.choice(camps), rng.random() < .5)
    elif r < .93:
        plain = [n for n, k in zip(s.names, s.kinds) if k in ("town", "default", "conflict_zone")]
        if plain:
            x = rng.choice(plain)
            c = rng.random()
            if c < .4:
                s.call("add_conflict_zone", x, *([rng.choice([0.5, 1.0, 2.0])] if rng.random() < .7 else []))
            elif c < .7:
                s.call("remove_conflict_zone", x)
            else:
                s.call("set_conflict_intensity", x, rng.choice([0.0, 0.5, 1.5]))
    elif r < .97:
        i = rng.randrange(len(s.names))
        k = rng.choice(["town", "camp", "idpcamp", "conflict_zone", "forwarding_hub", "marker", "Town", "DEFAULT"])
        s.kinds[i] = "changed"
        s.call("change_location_type", s.names[i], k)
    elif s.links:
        i, j, _ = rng.choice(s.links)
        s.call("set_forced_redirection", s.names[i], s.names[j], rng.random() < .5)


def people(s, rng, total, where=None):
    while total > 0:
        n = min(total, rng.randint(1, 5))
        s.op("insert", i=(where or rng.randrange(len(s.names))) + 1 if where is not None else rng.randrange(len(s.names)) + 1, n=n)
        total -= n


@family("kernel")
def kernel(rng, n):
    """Mixed days: random networks, settings, people, and network changes between days."""
    for x in range(n):
        s = Scn(rng, "kernel", x)
        s.settings(move=kernel_moves(rng), log={"agent": rng.choice([0, 1]), "camp": rng.choice([0, 1, 1])},
                   spawn={"take_from_population": rng.random() < .3})
        s.new()
        kernel_world(s, rng)
        people(s, rng, rng.randint(4, 14))
        for _ in range(rng.randint(4, 8)):
            if rng.random() < .35:
                some_network_op(s, rng)
            if rng.random() < .2:
                s.op(rng.choice(["insert", "add"]), i=rng.randrange(len(s.names)) + 1, n=rng.randint(1, 3))
            if rng.random() < .08:
                s.op("clear", names=rng.sample(s.names, rng.randint(1, len(s.names))) + (["Nowhere"] if rng.random() < .2 else []))
            s.evolve()
        yield s.sc


@family("travel")
def travel(rng, n):
    """Lengths at, just below and just above whole days of travel; walking; several roads in one day."""
    for x in range(n):
        s = Scn(rng, "travel", x)
        v = rng.choice([100.0, 200.0, 64.0])
        wk = rng.choice([25.0, 32.0])
        s.settings(move=kernel_moves(rng, max_move_speed=v, max_walk_speed=wk, awareness_level=rng.choice([1, 2, 3]),
                                     conflict_movechance=1.0, default_movechance=rng.choice([1.0, 0.5, 0.0]),
                                     start_on_foot=rng.random() < .5, pruning_threshold=1.0,
                                     avoid_short_stints=rng.random() < .6),
                   log={"agent": rng.choice([0, 1, 2]), "camp": 1})
        s.new()
        k = rng.randint(2, 6)
        for i in range(k):
            s.loc(rng.choice(["conflict_zone", "forwarding_hub", "town", "town", "camp"]) if i else "conflict_zone", pop=100)
        for i in range(1, k):
            base = rng.choice([v, v, 2 * v, 3 * v, wk, 2 * wk, v / 4, v / 2, v - wk])
            d = base + rng.choice([0, 0, 0.25, -0.25, 8, -8])
            a = {}
            if rng.random() < .25:
                a["max_move_speed"] = repr(rng.choice([v / 2, v * 2, 40.0, 16.0, 24.0]))
            if rng.random() < .25:
                a["walk_probability"] = rng.choice(["1.0", "0.5", "0"])
            s.link(i - 1 if rng.random() < .7 else rng.randrange(i), i, repr(max(1.0, d)), **({"attrs": a} if a else {}))
        people(s, rng, rng.randint(3, 8), where=0)
        for _ in range(rng.randint(5, 9)):
            s.evolve()
            if rng.random() < .1:
                s.op("insert", i=1, n=2)
        yield s.sc


@family("camps")
def camps(rng, n):
    """Small camps filling up: occupancy around the near-capacity margin, several routes, re-planning."""
    for x in range(n):
        s = Scn(rng, "camps", x)
        s.settings(move=kernel_moves(rng, conflict_movechance=1.0, default_movechance=1.0,
                                     camp_movechance=rng.choice([0.0, 0.3]), awareness_level=rng.choice([1, 2, 3]),
                                     capacity_buffer=rng.choice([0.0, 0.5, 0.75, 0.9]), max_move_speed=rng.choice([100.0, 150.0, 200.0]),
                                     start_on_foot=False),
                   log={"camp": 1})
        s.new()
        s.loc("conflict_zone", pop=1000)
        k = rng.randint(2, 4)
        for i in range(k):
            s.loc(rng.choice(["camp", "idpcamp", "camp", "town"]), capacity=rng.choice([1, 2, 3, 4, 5, 8, 10, -1]))
        for i in range(1, k + 1):
            s.link(0 if rng.random() < .7 else rng.randrange(i), i, dy(rng, 60, 400))
        if k > 2:
            s.link(1, 2, dy(rng, 60, 120))
        for i in range(1, k + 1):
            if rng.random() < .5:
                s.op("insert", i=i + 1, n=rng.randint(1, 6))
        people(s, rng, rng.randint(4, 16), where=0)
        for _ in range(rng.randint(3, 6)):
            s.evolve()
            if rng.random() < .3:
                s.op("insert", i=1, n=rng.randint(1, 3))
            if rng.random() < .2:
                s.op("clear", names=rng.sample(s.names, rng.choice([1, 1, k])))
        yield s.sc


@family("sinks")
def sinks(rng, n):
    for x in range(n):
        s = Scn(rng, "sinks", x)
        s.settings(move=kernel_moves(rng, conflict_movechance=1.0, camp_movechance=rng.choice([0.0, 0.3, 1.0])),
                   spawn={"camps_are_sinks": rng.random() < .85}, log={"agent": rng.choice([0, 1]), "camp": 1, "link": rng.choice([0, 1])})
        s.new()
        k = rng.randint(3, 5)
        for i in range(k):
            kind = rng.choice(["camp", "camp", "idpcamp", "town"]) if i else "conflict_zone"
            kw = {}
            if rng.random() < .8:
                kw["attributes"] = {"deactivation_probability": rng.choice(["0.0", "1.0", "1.0", "0.5"])}
            s.loc(kind, pop=500, **kw)
        for a, b in graph(rng, k, 2):
            s.link(a, b, dy(rng, 20, 400))
        people(s, rng, rng.randint(5, 12))
        for _ in range(rng.randint(3, 6)):
            s.evolve()
            if rng.random() < .3:
                s.op("insert", i=rng.randint(1, k), n=2)
            if rng.random() < .15:
                s.op("clear", names=[rng.choice(s.names)])
            if rng.random() < .15:
                some_network_op(s, rng)
        yield s.sc


@family("leave")
def leave(rng, n):
    """Move chances of zero, one and beyond, in every kind of place, with population scaling and floods."""
    for x in range(n):
        s = Scn(rng, "leave", x)
        mv = kernel_moves(rng, conflict_movechance=rng.choice([0.0, 1.0]), default_movechance=rng.choice([0.0, 1.0]),
                          camp_movechance=rng.choice([0.0, 1.0]), idpcamp_movechance=rng.choice([0.0, 1.0]), awareness_level=1)
        if rng.random() < .5:
            mv["movechance_pop_base"] = rng.choice([1000.0, 10000.0, 16.0])
            mv["movechance_pop_scale_factor"] = rng.choice([1.0, 0.5, 2.0])
        fl = rng.random() < .4
        if fl:
            mv["flood_rules"] = {"max_flood_level": 3, "flood_movechances": [0.0, rng.choice([0.0, 1.0]), 0.0, 1.0],
                                 "flood_loc_weights": [1.0, 0.5, 0.25, 0.125]}
        s.settings(move=mv, log={"camp": 1})
        s.new()
        k = rng.randint(3, 6)
        for i in range(k):
            s.loc(rng.choice(["town", "conflict_zone", "camp", "idpcamp", "forwarding_hub", "flood_zone", None]),
                  pop=rng.choice([0, 500, 1000, 4000, 10000]), capacity=rng.choice([-1, -1, 2000, 20000]))
        for a, b in graph(rng, k, 2):
            s.link(a, b, dy(rng, 40, 300))
        for i in range(k):
            s.op("insert", i=i + 1, n=rng.randint(1, 3))
        if fl:
            for i in range(k):
                if rng.random() < .6:
                    s.op("attr", i=i + 1, name="flood_level", value=rng.randint(0, 3))
        for _ in range(rng.randint(2, 4)):
            s.evolve()
            if rng.random() < .3:
                s.op("setloc", i=rng.randint(1, k), set={"pop": rng.choice([0, 700, 9000])})
        for q in range(1, 3):
            s.op("chance", k=q, force=rng.random() < .5)
        yield s.sc


@family("bulk")
def bulk(rng, n):
    """Frequencies: thousands of people decide on one day."""
    for x in range(n):
        s = Scn(rng, "bulk", x)
        aw = rng.choice([0, 1, 1, 2, 2, 3])
        mv = kernel_moves(rng, awareness_level=aw, max_move_speed=2.0, max_walk_speed=1.0, start_on_foot=False,
                          pruning_threshold=rng.choice([1.0, 1.0, 1.5, 2.0, 4.0]), conflict_movechance=rng.choice([1.0, 0.5, 0.75]),
                          default_movechance=rng.choice([1.0, 0.3]), capacity_scaling=1.0)
        if rng.random() < .4:
            mv.update(weight_power=rng.choice([0.5, 2.0, 0.0]), distance_power=rng.choice([0.5, 2.0]), weight_softening=rng.choice([0.0, 0.5]))
        if rng.random() < .3:
            mv.update(movechance_pop_base=1000.0, movechance_pop_scale_factor=rng.choice([0.5, 1.0, 0.25]))
        if rng.random() < .25:
            mv.update(use_pop_for_loc_weight=True, pop_power_for_loc_weight=rng.choice([0.5, 0.25]))
        sink = rng.random() < .2
        s.settings(move=mv, spawn={"camps_are_sinks": sink})
        s.new()
        k = rng.randint(3, 6)
        for i in range(k):
            kind = rng.choice(["town", "town", "camp", "conflict_zone", "marker"]) if i else rng.choice(["conflict_zone", "town", "camp" if sink else "town"])
            s.loc(kind, pop=rng.choice([200, 500, 1000, 2000]), x=dy(rng, -5, 5), y=dy(rng, -5, 5), foreign=rng.random() < .3,
                  **({"attributes": {"deactivation_probability": rng.choice(["0.3", "0.75"])}} if sink else {}))
        if aw == 0:
            s.sc["ops"] = [o for o in s.sc["ops"]]
        for a, b in graph(rng, k, rng.randint(0, 4)):
            at = {"walk_probability": rng.choice(["0.25", "0.7"])} if rng.random() < .25 else {}
            s.link(a, b, rng.choice(["50.0", "100.0", dy(rng, 8, 300)]), **({"attrs": at} if at else {}))
        for q in range(rng.randint(1, 3)):
            s.op("bulk", i=rng.randint(1, k) if q else 1, n=1500, seed=rng.randint(1, 10 ** 6))
        yield s.sc


@family("routes")
def routes(rng, n):
    """All weighted routes of a person under every personal and structural rule."""
    for x in range(n):
        s = Scn(rng, "routes", x)
        mv = kernel_moves(rng, awareness_level=rng.choice([1, 2, 3, 3, 4]), pruning_threshold=1.0,
                          weight_softening=rng.choice([0.0, 0.0, 0.25]), weight_power=rng.choice([1.0, 1.0, 2.0, 0.5]),
                          distance_power=rng.choice([1.0, 1.0, 2.0, 0.5]))
        eth = rng.random() < .3
        if rng.random() < .3:
            mv["ChildrenAvoidHazards"] = True
            mv["BoysTakeRisk"] = rng.random() < .6
        elif rng.random() < .1:
            mv["BoysTakeRisk"] = True
        if rng.random() < .3:
            mv.update(stay_close_to_home=True, home_distance_power=rng.choice([0.5, 1.0, 2.0]))
        if rng.random() < .3:
            mv.update(use_pop_for_loc_weight=True, pop_power_for_loc_weight=rng.choice([0.1, 0.5, 1.0]))
        if eth:
            for q in ("MatchCampEthnicity", "MatchTownEthnicity", "MatchConflictEthnicity"):
                mv[q] = rng.random() < .5
        fl = rng.random() < .3
        fc = fl and rng.random() < .5
        if fl:
            mv["flood_rules"] = {"max_flood_level": 3, "flood_movechances": [0.0, 0.25, 0.5, 1.0], "flood_loc_weights": [1.0, 0.5, 0.25, 0.125]}
            if fc:
                mv["flood_rules"].update(flood_forecaster=True, flood_forecaster_timescale=rng.choice([2, 3, 5]),
                                         flood_forecaster_end_time=rng.choice([2, 4, 8]),
                                         flood_forecaster_weights=[1.0, 0.75, 0.5, 0.5, 0.25, 0.25, 0.125, 0.5, 1.0, 1.0],
                                         flood_awareness_weights=[0.0, 0.5, 1.0])
        sp = {}
        if rng.random() < .4:
            sp = {"conflict_spawn_decay": rng.choice([[1.0, 0.5], [1.0, 0.75, 0.25, 0.0], [0.5]]), "conflict_spawn_decay_interval": rng.choice([1, 2])}
        s.settings(move=mv, spawn=sp)
        s.new()
        k = rng.randint(3, 6)
        for i in range(k):
            kind = rng.choice(["town", "town", "camp", "idpcamp", "conflict_zone", "marker", "forwarding_hub", "flood_zone" if fl else "town"])
            at = {}
            if eth:
                at = {"kin": rng.choice([10, 50, 100]), "oth": rng.choice([0, 20])}
            s.loc(kind, x=dy(rng, -10, 10), y=dy(rng, -10, 10), pop=rng.choice([100, 1000, 50000]), foreign=rng.random() < .3,
                  capacity=rng.choice([-1, 2, 4, 8]), attributes=at)
        for a, b in graph(rng, k, rng.randint(1, 5)):
            s.link(a, b, dy(rng, 5, 400))
        nag = rng.randint(2, 5)
        for _ in range(nag):
            at = {"age": rng.choice([5, 14, 15, 18, 19, 40]), "gender": rng.choice(["male", "female"])}
            if eth:
                at["ethnicity"] = rng.choice(["kin", "oth"])
            if fc:
                at["floodawareness"] = rng.choice([0, 1, 2])
            s.op("insert", i=rng.randint(1, k), n=1, attrs=at)
        if fl:
            for i in range(k):
                if rng.random() < .7 or fc:
                    s.op("attr", i=i + 1, name="flood_level", value=rng.randint(0, 3))
                if fc:
                    s.op("attr", i=i + 1, name="forecast_flood_levels", value=[rng.randint(0, 3) for _ in range(12)])
        for _ in range(rng.randint(1, 4)):
            s.evolve()
            if rng.random() < .5:
                plain = [m for m, kk in zip(s.names, s.kinds) if kk == "town"]
                if plain:
                    s.call("add_conflict_zone", rng.choice(plain), rng.choice([0.5, 1.0, 2.0]))
            if rng.random() < .4:
                i, j, _ = rng.choice(s.links)
                s.call(rng.choice(["close_link", "reopen_link"]), s.names[i], s.names[j])
            for q in range(1, nag + 1):
                s.op("routes", k=q)
            s.op("capmult", i=rng.randint(1, k), n=[0, 1, 2, 3, 4, 5, 8])
            s.op("decay", ages=[0, 1, 2, 3, 4, 7, 50])
            s.op("chance", k=rng.randint(1, nag), force=rng.random() < .5)
        yield s.sc


@family("aware")
def aware(rng, n):
    """Who may go where: markers, loops, dead ends, isolated places, every awareness level."""
    for x in range(n):
        s = Scn(rng, "aware", x)
        aw = rng.choice([0, 1, 1, 2, 2, 3, 4])
        s.settings(move=kernel_moves(rng, awareness_level=aw, conflict_movechance=1.0, default_movechance=1.0,
                                     max_move_speed=rng.choice([10.0, 60.0, 200.0]), start_on_foot=False, pruning_threshold=1.0),
                   log={"camp": rng.choice([0, 1])})
        s.new()
        k = rng.randint(3, 7)
        for i in range(k):
            s.loc(rng.choice(["town", "marker", "marker", "camp", "conflict_zone", "forwarding_hub"]), pop=100)
        left = rng.random() < .3        # the last place stays isolated
        for a, b in graph(rng, k - (1 if left else 0), rng.randint(0, 4)):
            s.link(a, b, dy(rng, 30, 200))
            if rng.random() < .1:
                s.link(a, b, dy(rng, 30, 200))
        nag = 0
        for i in range(k):
            if s.kinds[i] != "marker" or rng.random() < .3:
                m = rng.randint(1, 3)
                s.op("insert", i=i + 1, n=m)
                nag += m
        for _ in range(rng.randint(2, 4)):
            if aw > 0:
                for q in range(1, nag + 1, 2):
                    s.op("routes", k=q)
            s.evolve()
            if rng.random() < .3:
                i, j, _ = rng.choice(s.links)
                s.call(rng.choice(["close_link", "reopen_link", "remove_link"]), s.names[i], s.names[j])
        yield s.sc


@family("closetravel")
def closetravel(rng, n):
    """Roads close and reopen under people who are on their way."""
    for x in range(n):
        s = Scn(rng, "closetravel", x)
        s.settings(move=kernel_moves(rng, conflict_movechance=1.0, default_movechance=rng.choice([1.0, 0.5]), max_move_speed=100.0,
                                     awareness_level=rng.choice([1, 2, 3])), log={"agent": rng.choice([0, 1]), "camp": 1})
        s.new()
        k = rng.randint(2, 4)
        for i in range(k):
            s.loc(rng.choice(["town", "camp", "forwarding_hub", "town"]) if i else "conflict_zone", pop=100, country=rng.choice("PQ"))
        for a, b in graph(rng, k, 1):
            s.link(a, b, rng.choice(["150.0", "250.0", "300.0", "90.0", "1000.0"]))
        people(s, rng, rng.randint(3, 8), where=0)
        more, shut = rng.random() < .5, None
        for _ in range(rng.randint(5, 9)):
            if more and rng.random() < .6:
                s.op("insert", i=rng.choice([1, 1, rng.randint(1, k)]), n=rng.randint(1, 2))
            if shut and rng.random() < .5:
                s.call("reopen_link", *shut)
                shut = None
            elif rng.random() < .5:
                i, j, _ = rng.choice(s.links)
                a, b = (s.names[i], s.names[j]) if rng.random() < .5 else (s.names[j], s.names[i])
                r = rng.random()
                shut = [a, b, True] if r < .35 else shut
                if r < .35:
                    s.call("close_link", a, b, rng.random() < .7)
                elif r < .65:
                    s.call("reopen_link", a, b, rng.random() < .7)
                elif r < .75:
                    s.call("close_location", a)
                elif r < .85:
                    s.call("reopen_location", a)
                elif r < .92:
                    s.call(rng.choice(["close_border", "reopen_border"]), "P", "Q", rng.random() < .7)
                else:
                    s.call("remove_link", a, b, rng.random() < .7)
            s.evolve()
        yield s.sc


@family("netops")
def netops(rng, n):
    """Long random sequences of network operations on multi-country networks, with parallel roads."""
    for x in range(n):
        s = Scn(rng, "netops", x)
        s.settings(move=kernel_moves(rng))
        s.new()
        k = rng.randint(2, 5)
        for i in range(k):
            s.loc(rng.choice(["town", "camp", "idpcamp", "conflict_zone", "default", "forwarding_hub"]), pop=100,
                  country=rng.choice("PPQZ"))
        for a, b in graph(rng, k, 3):
            kw = {"attrs": {"kind": rng.choice(["road", "river"])}} if rng.random() < .3 else {}
            s.link(a, b, dy(rng, 5, 400), forced=rng.random() < .3, **kw)
            if rng.random() < .15:
                s.link(a, b, dy(rng, 5, 400))
        if rng.random() < .5:
            people(s, rng, 4)
        for _ in range(rng.randint(8, 16)):
            some_network_op(s, rng)
            if rng.random() < .1:
                s.evolve()
            if rng.random() < .1:
                s.op("graph")
        yield s.sc


@family("schedule")
def schedule(rng, n):
    for x in range(n):
        s = Scn(rng, "schedule", x)
        s.settings(move=kernel_moves(rng))
        s.new()
        k = rng.randint(3, 5)
        for i in range(k):
            s.loc(rng.choice(["town", "camp", "camp", "idpcamp", "conflict_zone"]), pop=100, country=rng.choice("PQ"))
        for a, b in graph(rng, k, 3):
            s.link(a, b, dy(rng, 5, 400), forced=rng.random() < .4)
        cl = []
        end = rng.randint(5, 8)
        for _ in range(rng.randint(1, 6)):
            t = rng.choice(["country", "location", "link", "link", "camp", "idpcamp", "remove_forced_redirection"])
            a = b = ""
            if t == "country":
                a, b = rng.sample(["P", "Q"], 2)
            elif t == "location":
                a = rng.choice(s.names)
                b = "-"
            elif t in ("camp", "idpcamp"):
                c = [m for m, kk in zip(s.names, s.kinds) if kk == t]
                if not c:
                    continue
                a, b = rng.choice(c), "-"
            else:
                i, j, _ = rng.choice(s.links)
                a, b = s.names[i], s.names[j]
                if rng.random() < .05:
                    b = "Nowhere"
            st = rng.randint(0, end)
            en = rng.choice([st + rng.randint(1, 4), st + rng.randint(0, 2), -1, rng.randint(0, end)])
            cl.append([t, a, b, st, en])
        s.op("closures", list=cl)
        if rng.random() < .6:
            people(s, rng, 4)
        tw = {"twoway": False} if rng.random() < .2 else {}
        for t in range(end + 1):
            s.op("enact", time=t, **tw)
            s.evolve()
        yield s.sc


@family("kinds")
def kinds(rng, n):
    """Creation and change of kinds under extreme move chance settings."""
    for x in range(n):
        s = Scn(rng, "kinds", x)
        s.settings(move=kernel_moves(rng, default_movechance=rng.choice([0.3, 0.004, 0.0]), conflict_movechance=rng.choice([1.0, 0.5])))
        s.new()
        for i in range(rng.randint(3, 7)):
            k = rng.choice(KINDS + ["Camp", "IDPCamp", "idp_camp", "CONFLICT", "conflict", "forward", "Town", "town", "Marker", "bogus", None])
            kw = {}
            if rng.random() < .4:
                kw["movechance"] = rng.choice(["0.001", "0.005", "0.0049", "0.25", "1.0"])
            if k and "conflict" in k.lower() and rng.random() < .4:
                kw["attributes"] = {"conflict_intensity": rng.choice(["0.5", "2.0"])}
            s.loc(k, pop=rng.choice([0, 10, 1000]), capacity=rng.choice([-1, 0, 50]), **kw)
        for _ in range(rng.randint(4, 10)):
            r = rng.random()
            m = rng.choice(s.names) if rng.random() < .95 else "Nowhere"
            if r < .45:
                s.call("change_location_type", m, rng.choice(KINDS + ["Camp", "IDPcamp", "Conflict_Zone", "TOWN", "default"]))
            elif r < .6:
                s.call("open_camp", m, rng.random() < .5)
            elif r < .75:
                s.call("close_camp", m, rng.random() < .5)
            elif r < .85:
                s.call("add_conflict_zone", m, *([rng.choice([0.5, 2.0])] if rng.random() < .5 else []))
            elif r < .93:
                s.call("remove_conflict_zone", m)
            else:
                s.call("set_conflict_intensity", m, rng.choice([0.0, 0.25]))
            if rng.random() < .15:
                s.evolve()
            if rng.random() < .3:
                s.op(rng.choice(["campnames", "numidps"]))
        yield s.sc


# In every other scenario, names, countries and regions are parts of one another (a name is compared as a whole, never by a part of it).
ALIKE = dict(zip(NAMES, ["Al", "Alpha", "Alph", "Al2", "lpha", "alpha", "Al 2", "pha", "Alphabet", "l", "Alpha2", "2"]))
ALIKE2 = {"P": ["Nigeria", "Niger"], "Q": ["Niger", "Nigeria"], "r1": ["r12", "r"], "r2": ["r1", "r2"]}


def alike(v, k):
    if isinstance(v, str):
        w = v.strip(" #")
        return v.replace(w, ALIKE.get(w) or ALIKE2[w][k]) if w in ALIKE or w in ALIKE2 else v
    if isinstance(v, dict):
        return {(ALIKE.get(x, x) if isinstance(x, str) else x): alike(y, k) for x, y in v.items()}
    if isinstance(v, (list, tuple)):
        return [alike(y, k) for y in v]
    return v


def generate(fam, seed, n):
    scs = list(FAMILIES[fam](random.Random("%s/%s" % (fam, seed)), n))
    scs = [alike(s, x // 2 % 2) if x % 2 else s for x, s in enumerate(scs)]
    for x, s in enumerate(scs):
        if x % 3 == 1 and fam != "settings":
            deeper(s, random.Random(x))
    return scs


def deeper(s, rng):
    """A fifth flood level."""
    y = next((o["yaml"] for o in s["ops"] if o["op"] == "settings"), {})
    f = y.get("move_rules", {}).get("flood_rules")
    if not f or f.get("max_flood_level") != 3:
        return
    up = lambda v: v + rng.randint(0, 1) if v == 3 else v
    f.update(max_flood_level=4, flood_movechances=f["flood_movechances"] + [0.75], flood_loc_weights=f["flood_loc_weights"] + [0.0625])
    d = y.get("spawn_rules", {}).get("flood_driven_spawning", {})
    if isinstance(d.get("displaced_per_flood_day"), list):
        d["displaced_per_flood_day"].append(6)
    for o in s["ops"]:
        if o["op"] == "attr" and o["name"] == "flood_level":
            o["value"] = up(o["value"])
        elif o["op"] == "attr" and o["name"] == "forecast_flood_levels":
            o["value"] = [up(v) for v in o["value"]]
        elif o["op"] == "input" and o.get("flood"):
            o["flood"] = o["flood"][:1] + [r[:1] + [str(up(int(v))) for v in r[1:]] for r in o["flood"][1:]]


import gen_ext, gen_cp, gen_run  # noqa  (more families)
