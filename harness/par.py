"""Runs one scenario on several MPI ranks and merges the per-rank traces.

As a program (under mpirun): par.py scenario.json outdir
"""
import json, os, shutil, signal, subprocess, sys, tempfile, time


class NoStart(Exception):
    pass


def launch(f, d, n, env, here, limit):
    e = dict(env)
    tmp = tempfile.mkdtemp(prefix="mp")          # of its own: runs side by side must not share it
    e.update(OMPI_MCA_btl="self,vader", OMPI_MCA_btl_vader_single_copy_mechanism="none", OMPI_MCA_mpi_yield_when_idle="1",
             OMPI_MCA_rmaps_base_oversubscribe="1", OMPI_MCA_hwloc_base_binding_policy="none", OMPI_MCA_orte_tmpdir_base=tmp, TMPDIR=tmp)
    cmd = ["mpirun", "--oversubscribe", "-np", str(n), "/opt/venv/bin/python", os.path.join(here, "par.py"), f, d]
    timeout = False
    with open(os.path.join(d, "err"), "wb") as err:
        p = subprocess.Popen(cmd, env=e, cwd=d, stdin=subprocess.DEVNULL, stdout=subprocess.DEVNULL, stderr=err, start_new_session=True)
        try:
            p.wait(limit)
        except subprocess.TimeoutExpired:
            timeout = True
        try:
            os.killpg(p.pid, signal.SIGTERM if timeout else signal.SIGKILL)
        except ProcessLookupError:
            pass
        try:
            p.wait(10)
        except subprocess.TimeoutExpired:
            os.killpg(p.pid, signal.SIGKILL)
            p.wait()
    shutil.rmtree(tmp, ignore_errors=True)
    said = open(os.path.join(d, "err"), errors="replace").read()
    if os.environ.get("VERIF_DEBUG"):
        sys.stderr.write(said[-4000:])
    return timeout, said


def run(sc, d, env, here, limit):
    os.makedirs(d)
    f = os.path.join(d, "sc.json")
    json.dump(sc, open(f, "w"))
    n = sc["ranks"]
    started = lambda: all(os.path.exists(os.path.join(d, "r%d.ndjson" % r)) for r in range(n))
    for attempt in range(3):
        timeout, said = launch(f, d, n, env, here, limit)
        if started():
            break
        if "Traceback" in said:      # the code under test cannot be imported
            return {"id": sc["id"], "family": sc["family"], "ev": [{"op": "start", "exc": said[-200:].replace("|", "/")}]}
    else:
        raise NoStart("the ranks did not start: " + said[-1500:])
    evs = []
    for r in range(n):
        q = os.path.join(d, "r%d.ndjson" % r)
        lines = open(q).read().split("\n")
        evs.append([json.loads(x) for x in lines[:-1]])
    out = []
    total = max(len(sc["ops"]), *(len(ev) for ev in evs))
    for k in range(total):
        have = [ev[k] if k < len(ev) else None for ev in evs]
        exc = next((h["exc"] for h in have if h and h["exc"]), "")
        if all(have):
            e0 = dict(have[0])
            e0["exc"] = exc
            if exc and e0.get("mayfail") and not all(h["exc"] for h in have):
                e0["exc"] = "only some ranks: " + exc
            if not exc and all("post" in h for h in have):
                e0["posts"] = [h["post"] for h in have]
                e0.pop("post", None)
            if "lines" in e0:
                e0["lines"] = [y for h in have for y in h["lines"]]
            if "ret" in e0:
                e0["rets"] = [h["ret"] for h in have if h.get("ret") is not None]
            if "log" in e0:
                e0["logs"] = [h["log"] for h in have]
                e0.pop("log")
            out.append(e0)
            if e0["exc"] and not e0.get("mayfail"):
                break
        else:
            e0 = dict(next((h for h in have if h), sc["ops"][min(k, len(sc["ops"]) - 1)]))
            e0.pop("post", None)
            e0["exc"] = exc or ("TimeLimit: the ranks wait for each other" if timeout else "a rank ended early")
            out.append(e0)
            break
    return {"id": sc["id"], "family": sc["family"], "ev": out}


def main():
    sc = json.load(open(sys.argv[1]))
    d = sys.argv[2]
    here = os.path.dirname(os.path.abspath(__file__))
    sys.path.insert(0, here)
    from mpi4py import MPI
    import drive
    import flee.pflee, flee.moving, flee.scoring, flee.spawning  # noqa
    comm = MPI.COMM_WORLD
    rank = comm.Get_rank()
    sc = dict(sc, seed=sc.get("seed", 1) + 7919 * rank)      # ranks draw differently
    out = open(os.path.join(d, "r%d.ndjson" % rank), "w")
    os.makedirs(os.path.join(d, "w%d" % rank), exist_ok=True)
    os.chdir(os.path.join(d, "w%d" % rank))

    def write(ev):
        out.write(json.dumps(ev) + "\n")
        out.flush()
    ev = drive.Runner(sc, write).run()
    out.close()
    if ev and ev[-1]["exc"]:
        time.sleep(0.2)
        os._exit(1)
    MPI.Finalize()
    os._exit(0)


if __name__ == "__main__":
    main()
