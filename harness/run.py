#!/usr/bin/env python3
"""Runs the check of one property: run.py <property> <tier>.

Scenarios (random, and behaviours generated by TLC from the specification) are executed by the code in /repo, the
recorded traces are validated by TLC against the specification, and the specification itself is model checked.
"""
import concurrent.futures, glob, json, os, re, shutil, subprocess, sys, tempfile, time, traceback

HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
REPO = os.environ.get("VERIF_REPO", "/repo")
TLA = "/opt/veriftools/tla"
CPU = 8
sys.path.insert(0, HERE)
import gen, gen_mc    # noqa
import props          # noqa


def env_under_test(work):
    e = {k: v for k, v in os.environ.items() if not k.startswith("FLEE_")}
    e.update(HOME=work, LANG="C.UTF-8", PATH="/opt/venv/bin:" + os.environ.get("PATH", "/usr/bin:/bin"),
             PYTHONPATH=REPO, PYTHONDONTWRITEBYTECODE="1", PYTHONHASHSEED="0", PYTHONUNBUFFERED="1", MPLBACKEND="Agg",
             MPLCONFIGDIR=os.path.join(work, "mpl"), OMPI_ALLOW_RUN_AS_ROOT="1", OMPI_ALLOW_RUN_AS_ROOT_CONFIRM="1",
             OMPI_MCA_btl="self", OMP_NUM_THREADS="1", OPENBLAS_NUM_THREADS="1", MKL_NUM_THREADS="1")
    return e


class Broken(Exception):
    pass


class Check:
    def __init__(self, pid, tier):
        self.pid, self.tier = pid, tier
        self.seed = int(os.environ.get("VERIF_SEED", "1"))
        self.p = props.PROPS[pid]
        self.work = tempfile.mkdtemp(prefix="verif-%s-" % pid)
        self.t0 = time.time()
        self.cls = os.path.join(self.work, "cls")
        self.fails = {}          # (scenario, clause, op) -> first event
        self.scen = {}
        self.ntrace = self.nevent = self.unjudged = 0
        self.states = self.distinct = 0
        self.fam_counts = {}
        self.samples = []
        self.models = []

    # ------------------------------------------------------------------ TLC
    def build(self):
        os.makedirs(self.cls)
        r = subprocess.run(["javac", "-cp", TLA + "/tla2tools.jar", "-d", self.cls] + glob.glob(VERIF + "/java/*.java"),
                           capture_output=True, text=True)
        if r.returncode:
            raise Broken("javac: " + r.stderr)

    def tlc(self, module, cfg, env=None, workers=1, extra=(), heap="2g", timeout=800):
        meta = tempfile.mkdtemp(dir=self.work)
        cmd = ["java", "-XX:+UseParallelGC", "-XX:ParallelGCThreads=2", "-Xmx" + heap, "-Xss16m", "-cp",
               self.cls + ":" + TLA + "/tla2tools.jar:" + TLA + "/CommunityModules-deps.jar", "tlc2.TLC", "-workers", str(workers),
               "-metadir", meta, "-noGenerateSpecTE", "-config", cfg] + list(extra) + [module]
        e = dict(os.environ)
        e.update(env or {})
        try:
            r = subprocess.run(cmd, cwd=os.path.join(VERIF, "spec"), env=e, capture_output=True, text=True, timeout=timeout)
        except subprocess.TimeoutExpired as x:
            r = subprocess.CompletedProcess(cmd, 124, (x.stdout or b"").decode(errors="replace"), "time limit")
        shutil.rmtree(meta, ignore_errors=True)
        return r

    # ------------------------------------------------------------------ one batch of scenarios
    def drive(self, scs, tag):
        d = os.path.join(self.work, tag)
        os.makedirs(d)
        f = os.path.join(d, "sc.json")
        json.dump(scs, open(f, "w"))
        out = os.path.join(d, "out")
        ranks = scs[0].get("ranks")
        e = env_under_test(d)
        if ranks:
            os.makedirs(out)
            trs = []
            late = 0
            for n, sc in enumerate(scs):
                if time.time() - self.t0 > (500 if self.tier == "quick" else 2500):
                    self.unjudged += len(scs) - n
                    break
                t = self.drive_mpi(sc, os.path.join(out, "m%d" % n), e, 20 if late else 90)
                late += any("TimeLimit" in x.get("exc", "") for x in t["ev"])
                trs.append(t)
            res = os.path.join(out, "traces.ndjson")
            with open(res, "w") as fh:
                for t in trs:
                    fh.write(json.dumps(t) + "\n")
            return res
        r = subprocess.run(["/opt/venv/bin/python", os.path.join(HERE, "drive.py"), f, out], env=e, cwd=d, capture_output=True, text=True)
        if r.returncode == 3 or not os.path.exists(os.path.join(out, "traces.ndjson")):
            # the code under test cannot even be imported (or the driver is broken)
            raise Broken("driver: " + r.stderr[-2000:])
        return os.path.join(out, "traces.ndjson")

    def drive_mpi(self, sc, d, e, limit):
        import par
        try:
            return par.run(sc, d, e, HERE, limit)
        except par.NoStart as x:
            raise Broken(str(x))

    def validate(self, trace):
        left = self.t0 + (700 if self.tier == "quick" else 3000) - time.time()
        if left < 5:       # out of time: what was not validated is not judged
            return [], set(), (0, 0), subprocess.CompletedProcess([], 124, "", "time limit")
        r = self.tlc("FleeTrace.tla", "FleeTrace.cfg", {"TRACE": trace}, timeout=left)
        v = [x[1:-1] for x in r.stdout.splitlines() if x.startswith('"V|')]
        done = {x[3:-1] for x in r.stdout.splitlines() if x.startswith('"D|')}
        m = re.search(r"(\d+) states generated, (\d+) distinct", r.stdout)
        return v, done, (int(m.group(1)), int(m.group(2))) if m else (0, 0), r

    def batch(self, scs, tag):
        tr = self.drive(scs, tag)
        v, done, st, r = self.validate(tr)
        lines = open(tr).read().splitlines()
        ids = [json.loads(x)["id"] for x in lines]
        if r.returncode == 124:
            self.unjudged += len([i for i in ids if i not in done])
            return v, st, len(done), sum(len(json.loads(x)["ev"]) for x in lines if json.loads(x)["id"] in done), (lines or [""])[0][:1500]
        rest = [i for i in ids if i not in done]
        if rest:
            # A trace the specification cannot interpret: find it, and go on with the others.
            v = [x for x in v if x.split("|")[1] in done]
            bad = 0
            for x in lines:
                i = json.loads(x)["id"]
                if i in done:
                    continue
                if bad >= 4:       # enough is known
                    self.unjudged += 1
                    continue
                one = tr + "." + i
                open(one, "w").write(x + "\n")
                v1, d1, st1, r1 = self.validate(one)
                v += v1
                st = (st[0] + st1[0], st[1] + st1[1])
                if r1.returncode == 124:
                    self.unjudged += 1
                elif not d1:
                    bad += 1
                    msg = [y for y in r1.stdout.splitlines() if y.startswith("Error")][:3] + \
                          [y.strip() for y in r1.stdout.splitlines() if "line" in y and "module" in y][:2]
                    if os.environ.get("VERIF_DEBUG"):
                        sys.stderr.write(r1.stdout[-6000:] + r1.stderr[-2000:])
                    v.append("V|%s|0|?|uninterpretable|%s" % (i, " ".join(msg)[:300].replace("|", "/")))
        return v, st, len(ids), sum(len(json.loads(x)["ev"]) for x in lines), (lines or [""])[0][:1500]

    # ------------------------------------------------------------------
    def scenarios(self):
        k = 0 if self.tier == "quick" else 1
        out = []
        for fam, cnt in self.p["fams"].items():
            scs = self.behaviours(fam, cnt[k]) if fam in gen_mc.MODELS else gen.generate(fam, self.seed, cnt[k])
            self.fam_counts[fam] = len(scs)
            out += scs
        return out

    def behaviours(self, fam, n):
        """TLC explores a model of the specification, checks its invariants and prints its transitions."""
        module, cfgq, cfgt, _ = gen_mc.MODELS[fam]
        r = self.run_model((module, cfgq, cfgt))
        return gen_mc.build(fam, self.seed, n, r.stdout)

    def relevant(self, clause):
        return any(re.fullmatch(c, clause) for c in self.p["clauses"] + props.ALWAYS)

    def run_model(self, m, workers=4):
        t = time.time()
        name, cfgq, cfgt = m
        cfg = cfgq if self.tier == "quick" else cfgt
        if cfg is None:
            return
        r = self.tlc(name + ".tla", cfg, workers=workers, heap="8g", timeout=850 if self.tier == "quick" else 3000)
        mm = re.search(r"(\d+) states generated, (\d+) distinct", r.stdout)
        ok = "No error has been found" in r.stdout
        if not ok or not mm:
            raise Broken("model %s/%s: %s" % (name, cfg, (r.stdout + r.stderr)[-3000:]))
        self.models.append({"model": name, "config": cfg, "states": int(mm.group(1)), "distinct": int(mm.group(2)), "s": round(time.time() - t, 1)})
        return r

    def run(self):
        self.build()
        scs = self.scenarios()
        self.scen = {x["id"]: s for s in scs for x in s.get("sides", [s])}
        groups = {}
        for s in scs:
            groups.setdefault((s.get("ranks") or 0, bool(s.get("par"))), []).append(s)
        batches = []
        for (ranks, par), g in groups.items():
            size = max(1, min(120, (len(g) + CPU - 1) // CPU))
            for i in range(0, len(g), size):
                batches.append(g[i:i + size])
        with concurrent.futures.ThreadPoolExecutor(CPU) as ex:
            fm = [ex.submit(self.run_model, m) for m in self.p.get("models", [])]
            fs = [ex.submit(self.batch, b, "b%d" % i) for i, b in enumerate(batches)]
            for f in fs:
                v, st, n, ne, sample = f.result()
                self.states += st[0]
                self.distinct += st[1]
                self.ntrace += n
                self.nevent += ne
                if len(self.samples) < 3:
                    self.samples.append(sample[:600])
                for x in v:
                    _, sid, ev, op, clause, detail = (x.split("|", 5) + [""] * 6)[:6]
                    if self.relevant(clause):
                        self.fails.setdefault((sid, clause, op), (int(ev), detail))
            for f in fm:
                f.result()

    # ------------------------------------------------------------------
    def finish(self):
        known = [k for k in json.load(open(os.path.join(VERIF, "known-findings.json")))["findings"]
                 if k["status"] == "known" and k["property"] == self.pid]
        seen, fresh = {}, []
        for (sid, clause, op), (ev, detail) in sorted(self.fails.items()):
            fam = self.scen[sid]["family"] if sid in self.scen else "?"
            hit = None
            for k in known:
                if fam in k["families"] and re.fullmatch(k["clause"], clause) and re.fullmatch(k.get("op", ".*"), op) \
                        and re.search(k.get("detail", ""), detail):
                    hit = k
            if hit:
                seen[hit["id"]] = hit
            else:
                fresh.append((sid, clause, op, ev, detail))
        for k in known:
            print("KNOWN-FINDING: property=%s %s" % (self.pid, k["what"]))
        rdir = os.path.join(VERIF, "evidence", "replay")
        shown = set()
        if fresh:
            os.makedirs(rdir, exist_ok=True)
        for sid, clause, op, ev, detail in fresh:
            if sid in shown or len(shown) >= 8:
                continue
            shown.add(sid)
            path = os.path.join(rdir, "%s-%s.json" % (self.pid, sid))
            json.dump({"scenario": self.scen.get(sid), "clause": clause, "event": ev, "op": op, "detail": detail}, open(path, "w"), indent=1)
            print("VIOLATION property=%s replay=%s" % (self.pid, path))
            print("  clause %s at event %d (%s) of %s %s" % (clause, ev, op, sid, detail))
        ev = {"property": self.pid, "tier": self.tier, "seed": self.seed, "level": "model_checking",
              "coverage": {"states": self.states + sum(m["states"] for m in self.models),
                           "transitions": self.nevent + sum(m["states"] for m in self.models),
                           "traces_validated_against_impl": self.ntrace, "events_validated": self.nevent,
                           "distinct_states": self.distinct + sum(m["distinct"] for m in self.models),
                           "scenarios_per_family": self.fam_counts, "traces_out_of_time": self.unjudged, "models": self.models,
                           "clauses": self.p["clauses"], "samples": self.samples or ["none"]},
              "assumptions": props.ASSUMPTIONS + self.p.get("assumptions", []),
              "wall_s": round(time.time() - self.t0, 1),
              "violations": len({(c, o) for _, c, o, _, _ in fresh})}
        os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
        json.dump(ev, open(os.path.join(VERIF, "evidence", self.pid + ".json"), "w"), indent=1)
        return 1 if fresh else 0


def main():
    pid = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick")
    c = Check(pid, tier)
    rc = 2
    try:
        c.run()
        rc = c.finish()
        print("%s %s: %d traces, %d events, %d models, %.1f s, exit %d" % (pid, tier, c.ntrace, c.nevent, len(c.models), time.time() - c.t0, rc))
    except Broken as x:
        print("BROKEN: %s" % x)
    except Exception:
        rc = 2
        print("BROKEN: " + traceback.format_exc())
    finally:
        if os.environ.get("VERIF_KEEP"):
            print("kept " + c.work)
        else:
            shutil.rmtree(c.work, ignore_errors=True)
    sys.exit(rc)


if __name__ == "__main__":
    main()
