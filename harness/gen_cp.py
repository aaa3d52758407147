"""Scenario families about coupled models."""
from gen import family, Scn, dy, graph, kernel_moves, people, some_network_op


def cp_world(s, rng, k=None):
    k = k or rng.randint(3, 6)
    for i in range(k):
        s.loc(rng.choice(["town", "conflict_zone", "camp", "forwarding_hub"]), pop=100, country=rng.choice("PQ"))
    for a, b in graph(rng, k, 2):
        s.link(a, b, dy(rng, 60, 300))
    return k


def coupled(s, rng, k, interval, explicit):
    cl = []
    for i in rng.sample(range(k), rng.randint(1, min(4, k))):
        name = s.names[i] if rng.random() < .5 else "x%d" % i
        d = rng.choice(["in", "out", "inout", "inout"])
        s.op("cpadd", i=i + 1, name=name, dir=d, interval=interval, explicit=explicit)
        cl.append((i, name, d))
    if rng.random() < .2:
        s.op("cpadd", i=cl[0][0] + 1, name="again", dir="in", interval=interval, explicit=explicit)
    return cl


def inbox(rng, names, n):
    out = []
    for r in range(n):
        m = [[x, rng.randint(0, 9)] for x in names if rng.random() < .85]
        if rng.random() < .2:
            m.append(["Elsewhere", rng.randint(1, 9)])
        rng.shuffle(m)
        out.append(m)
    return out


def days(s, rng, cl, n, kind, sub, interval):
    names = [x[1] for x in cl]
    last = rng.randint(3, 6)
    for t in range(last):
        if rng.random() < .4:
            s.op("insert", i=rng.randint(1, len(s.names)), n=rng.randint(1, 4))
        if rng.random() < .15 and sub in ("macro", "micro"):
            some_network_op(s, rng)
        if rng.random() < .4:
            s.op("cpnewlog", time=t, n=rng.randint(-3, 20))
        kw = {"late": rng.randrange(n)} if kind == "file" and rng.random() < .2 and t % interval == 0 else {}
        s.op("couple", time=t, inbox=inbox(rng, names, n), **kw)
        if rng.random() < .8:
            s.evolve()


@family("couple")
def couple(rng, n):
    """One model; its partners are played by the harness."""
    for x in range(n):
        s = Scn(rng, "couple", x)
        s.sc["ext"] = True
        s.settings(move=kernel_moves(rng, conflict_movechance=1.0, default_movechance=0.5))
        s.new()
        k = cp_world(s, rng)
        people(s, rng, rng.randint(3, 12))
        kind = rng.choice(["file", "file", "muscle3"])
        sub = rng.choice(["macro", "micro"] if kind == "file" or rng.random() < .5 else ["macro_manager", "micro_manager"])
        m = rng.randint(1, 3)
        interval = rng.choice([1, 1, 2, 3])
        ex = rng.random() < .5
        s.op("cpnew", kind=kind, sub=sub, index=rng.randrange(m), n=m, out="o2i" if sub == "macro" else "i2o", explicit=ex,
             **{"in": "i2o" if sub == "macro" else "o2i"})
        cl = coupled(s, rng, k, interval, ex)
        days(s, rng, cl, m if kind == "file" or "manager" in sub else 1, kind, sub, interval)
        s.op("cpsave")
        if rng.random() < .3:
            head = ["Day", "Camp sim", "Camp data", "Camp error"][:rng.randint(2, 4)]
            last = rng.randint(1, 4)
            s.op("cpsum", head=head, tables=[[[d] + [rng.choice([0, 1, 2, 7, 10]) if "error" not in h else rng.choice([0.5, 0.25, 0.0]) for h in head[1:]]
                                              for d in range(last)] for _ in range(m)])
        yield s.sc


@family("couplepair")
def couplepair(rng, n):
    """Instances of two models exchange files as separate processes."""
    for x in range(n):
        m = rng.choice([1, 1, 2])
        interval = rng.choice([1, 1, 2])
        last = rng.randint(3, 5)
        sides = []
        for q, sub in enumerate(("macro", "micro")):
            for r in range(m):
                s = Scn(rng, "couplepair", x)
                s.sc.update(id="couplepair-%d/%s%d" % (x, sub, r), ext=True, partners=[y for y in range(2 * m) if (y >= m) == (q == 0)])
                s.settings(move=kernel_moves(rng, conflict_movechance=1.0, default_movechance=1.0))
                s.new()
                k = cp_world(s, rng, rng.randint(2, 4))
                people(s, rng, rng.randint(2, 8))
                s.op("cpnew", kind="file", sub=sub, index=r, n=m, root="../out", out="a" if q == 0 else "b", **{"in": "b" if q == 0 else "a"})
                for i in range(rng.randint(1, k)):
                    s.op("cpadd", i=i + 1, name="x%d" % i, dir=rng.choice(["in", "out", "inout", "inout"]), interval=interval)
                for t in range(last):
                    s.op("couple", time=t)
                    s.evolve()
                    if rng.random() < .3:
                        s.op("insert", i=rng.randint(1, k), n=2)
                s.op("cpsave")
                sides.append(s.sc)
        yield {"id": "couplepair-%d" % x, "family": "couplepair", "ext": True, "sides": sides, "ops": []}


@family("couplepar")
def couplepar(rng, n):
    """A coupled model on several ranks."""
    for x, sc in enumerate(couple(rng, 3 * n)):
        if any(o["op"] == "cpnew" and o["kind"] != "file" for o in sc["ops"]):
            continue
        sc.update(id="couplepar-%d" % x, family="couplepar", ranks=rng.choice([2, 3]))
        ops = []
        for o in sc["ops"]:
            if o["op"] == "new":
                o = dict(o, mode="par", pm=rng.choice(["classic", "loc-par"]), lm=rng.choice(["low_latency", "high_latency"]))
            if o["op"] == "cpnew":
                o = dict(o, root="../out")
            if o["op"] != "cpsum":
                ops.append(o)
        sc["ops"] = ops
        yield sc
        n -= 1
        if n <= 0:
            return
