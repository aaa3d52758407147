"""Scenario families about the main programs: a run from its input files to its output table."""
from gen import family, Scn, NAMES
from gen_ext import dataset, date, demography, input_files, input_settings, STARTS


def period_rows(rng, start, days):
    rows = [["StartDate", start], ["Length", str(days)]]
    if rng.random() < .3:
        rows = [[k.lower(), v] for k, v in rows]
    if rng.random() < .3:
        rows.reverse()
    if rng.random() < .3:
        rows.insert(rng.randint(0, 2), ["#note", "x"])
    return rows


def a_run(rng, fam, x, main="run.py"):
    s = Scn(rng, fam, x)
    mode = rng.choice(["table", "table", "table", "flood"])
    long = rng.random() < .15
    days = rng.randint(4, 7) if not long else rng.randint(25, 33)
    st = input_settings(rng, mode, days + 2)
    sp = st["spawn"]
    sp.update(insert_day0=rng.random() < .7, empty_camps_on_day0=rng.random() < .25, sum_from_camps=rng.random() < .6)
    if main != "run.py":
        sp["take_from_population"] = False
        for k in ("flood_driven_spawning", "flood_zone_spawning_only", "conflict_zone_spawning_only"):
            sp.pop(k, None)
    if mode == "table":
        if rng.random() < .15:
            sp["conflict_driven_spawning"] = {"spawn_mode": "constant", "displaced_per_conflict_day": rng.choice([1, 3])}
        if rng.random() < .3:
            sp.update(conflict_spawn_decay=[1.0, 0.5, 0.25], conflict_spawn_decay_interval=2)
    log = {}
    if rng.random() < .4:
        log["idp_totals"] = rng.choice([1, 2])
    logs = rng.random() < .25
    if logs:
        log.update(agent=rng.choice([0, 1]), link=rng.choice([0, 1]), camp=rng.choice([0, 1]))
    scale = rng.choice([1, 1, 1, 2, 10])
    opt = st.pop("optimisations", {})
    opt["hasten"] = scale
    st["move"].get("flood_rules", {}).pop("flood_forecaster", None)
    y = {"log_levels": log, "spawn_rules": sp, "move_rules": st["move"], "optimisations": opt}
    input_files(s, rng, mode, days + 2)
    inp = {k: v for k, v in s.sc["ops"].pop().items() if k != "op"}
    if main != "run.py":
        for r in inp["locations"]:
            if r and r[0] in s.names:
                r[7] = str(int(r[7] or 0) + 5000 * scale)
    elif rng.random() < .9:
        for r in inp["locations"]:
            if r and r[0] in s.names and "onf" in r[5].lower():
                r[7] = str(int(r[7] or 0) + 3000)
        if inp["conflicts"] and rng.random() < .9:     # somewhere to flee from
            z = [n for n, r in zip(s.names, s.kinds) if r in ("conflict_zone", "town", "CONFLICT", "Town")]
            w = inp["conflicts"][0]
            if z and all(v.strip() not in z for v in w[1:]):
                w[1] = z[0]
            for r in inp["conflicts"][1:]:
                for c in range(1, len(w)):
                    if w[c].strip() in z and rng.random() < .6:
                        r[c] = "1"
    if mode == "flood" and not sp.get("flood_zone_spawning_only"):
        sp["conflict_zone_spawning_only"] = rng.random() < .5
    people = None
    if rng.random() < .25:
        sp["read_from_agents_csv_file"] = True
        heads = rng.sample(["age", "gender", "ethnicity"], rng.randint(1, 2))
        val = {"age": ["5", "40", "17.5"], "gender": ["male", "female"], "ethnicity": ["kin", "oth"]}
        people = {"heads": heads, "rows": [{"loc": rng.choice(s.names) if rng.random() < .9 else "Nowhere", "attrs": {h: rng.choice(val[h]) for h in heads}}
                                           for _ in range(rng.randint(1, 6))]}
    dm = None
    if rng.random() < .25:
        demography(s, rng, s.names)
        dm = s.sc["ops"].pop()["dm"]
    start = rng.choice(STARTS)
    small = long or mode == "flood"
    files = dataset(s, rng, s.names, start, last=days + 6, lo=0, hi=6 * scale if small else 14 * scale, scale=scale, empty=False, multi=rng.random() < .3)
    d = s.sc["ops"].pop()
    l1 = None
    if rng.random() < .3:
        l1 = [[]]
        for _ in range(rng.randint(1, 2)):
            k = rng.randrange(len(s.names))
            ds = [r for r in files["c%d.csv" % k] if len(r) > 1 and r[0][:1].isdigit() and r[1]]
            ok = [b[0] for a, b in zip(ds, ds[1:]) if int(a[1]) >= scale]
            l1.append([s.names[k], rng.choice(ok) if ok else date(start, 999)])
    arg = rng.choice([0, 0, days, days - 1])
    length = days if arg == 0 else rng.choice([1, 9, 400])
    named = rng.random() < .8
    s.op("program", main=main, input=inp, data={"layout": d["layout"], "files": d["files"]}, period=period_rows(rng, start, length), days=arg,
         yaml=y, yamlname="settings.yml" if named else "simsetting.yml", named=named, l1=l1, people=people, dm=dm, logs=logs)
    s.sc["ext"] = True
    return s.sc


@family("run")
def run(rng, n):
    for x in range(n):
        yield a_run(rng, "run", x)


@family("runpar")
def runpar(rng, n):
    for x in range(n):
        sc = a_run(rng, "runpar", x, "run_par.py")
        sc["ranks"] = rng.choice([1, 2, 2, 3, 4])
        sc["ops"][0].update(pm=rng.choice(["classic", "loc-par"]), lm=rng.choice(["low_latency", "high_latency"]))
        yield sc
