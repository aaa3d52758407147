"""Further operations of the driver: coupled models."""
import builtins, csv, io, os, threading


def rows_of(s):
    return [[x.strip() for x in l.split(",")] for l in (s or "").split("\n") if l.strip() != ""]


class Tracked:
    """A file opened for writing by the code under test: what others can see is sampled along the way."""
    def __init__(self, f, sample):
        self.__dict__.update(_f=f, _s=sample)
        sample()

    def write(self, s):
        h = len(s) // 2
        self._f.write(s[:h])
        self._f.flush()
        self._s()
        r = self._f.write(s[h:])
        self._f.flush()
        self._s()
        return r

    def writelines(self, ls):
        for l in ls:
            self.write(l)

    def __enter__(self):
        self._f.__enter__()
        return self

    def __exit__(self, *a):
        r = self._f.__exit__(*a)
        self._s()
        return r

    def __getattr__(self, n):
        return getattr(self._f, n)


class Cp:
    def op_cpnew(self, o):
        import flee.coupling as K
        self.cp_o, self.cp_every = o, None
        self.cp_root = o.get("root", "out")
        for x in ("coupled", "log_exchange_data", o["sub"]):
            os.makedirs(os.path.join(self.cp_root, o["kind"], x), exist_ok=True)
        self.cp_msgs = []
        run = self
        if o["kind"] == "muscle3":
            class Inst:
                def __init__(self, ports):
                    self.ports = ports

                def send(self, port, msg, slot=None):
                    run.cp_msgs.append((slot, msg.timestamp, msg.data))

                def receive(self, port, slot=None):
                    text = "".join("%s,%s\n" % tuple(r) for r in run.cp_inbox[slot or 0])
                    from libmuscle import Message
                    return Message(float(run.cp_time), None, {"newAgents": text} if slot is not None else text)
            K.Instance = Inst
        else:
            def opened(path, mode="r", *a, **k):
                f = builtins.open(path, mode, *a, **k)
                return Tracked(f, run.cp_sample) if any(c in mode for c in "wax+") and "b" not in mode else f
            K.open = opened
        kw = {} if o["kind"] == "file" and not o.get("explicit") else {"coupling_type": o["kind"]}
        self.c = K.CouplingInterface(self.e, submodel=o["sub"], instance_index=o["index"], num_instances=o["n"], outputdir=self.cp_root, **kw)
        self.c.setCouplingChannel(outputchannel=o["out"], inputchannel=o["in"])
        self.cp_seen = None

    def cp_sample(self):
        if self.cp_seen is not None:
            s = self.cp_read(self.cp_final)
            if not self.cp_seen or self.cp_seen[-1] != s:
                self.cp_seen.append(s)

    @staticmethod
    def cp_read(f):
        try:
            return builtins.open(f).read()
        except OSError:
            return "-"

    def op_cpadd(self, o):
        kw = {}
        self.cp_every = getattr(self, "cp_every", None) or o["interval"]
        if o["dir"] != "inout" or o.get("explicit"):
            kw["direction"] = o["dir"]
        if o["interval"] != 1 or o.get("explicit"):
            kw["interval"] = o["interval"]
        self.c.addCoupledLocation(self.L(o["i"]), self.s(o["name"]), **kw)

    def op_couple(self, o):
        n, t, c = self.cp_o, o["time"], os.path.join(self.cp_root, "file", "coupled")
        lead = not self.par or self.e.mpi.rank == 0
        if self.par:
            self.e.updateNumAgents(log=False)
        self.cp_inbox, self.cp_time, self.cp_msgs = o.get("inbox"), t, []
        if n["kind"] == "file":
            self.cp_final = os.path.join(c, "%s[%d].%d.csv" % (n["out"], n["index"], t))
            ins = [os.path.join(c, "%s[%d].%d.csv" % (n["in"], r, t)) for r in range(n["n"])]
            late = []

            def put(f, rows):
                with builtins.open(f + ".part", "w") as fh:
                    fh.write("#\n" * (t % 2) + "".join("%s,%s\n" % tuple(r) for r in rows))
                os.replace(f + ".part", f)
            if "inbox" in o and lead:
                for f, m in list(zip(ins, o["inbox"])) + [(os.path.join(c, "%s[%d].%d.csv" % (n["in"], n["n"], t)), [["Alpha", 77], ["x0", 78]])]:
                    if f == ins[o.get("late", -1)] and "late" in o:
                        late.append(threading.Timer(0.25, put, (f, m)))
                    else:
                        put(f, m)
            before = set(os.listdir(c))
            self.cp_seen = [self.cp_read(self.cp_final)]
            for x in late:
                x.start()
            self.c.Couple(time=t)
            o["early"] = not all(os.path.exists(f) for f in ins) if t % self.cp_every == 0 else False
            for x in late:
                x.join()
            o["seen"], self.cp_seen = self.cp_seen, None
            o["raw"] = self.cp_read(self.cp_final)
            o["sent"] = [] if o["raw"] == "-" else rows_of(o["raw"])
            o["file"] = os.path.basename(self.cp_final)
            o["files"] = sorted(x for x in set(os.listdir(c)) - before if x.startswith("%s[%d]" % (n["out"], n["index"])) and x.endswith(".csv"))
        else:
            self.c.Couple(time=t)
            o.update(early=False, seen=[], raw="", sent=[], file="", files=[])
        o["msgs"] = [{"slot": -1 if s is None else s, "time": str(ts), "rows": rows_of(d["newAgents"] if isinstance(d, dict) else d)}
                     for s, ts, d in self.cp_msgs]
        if "inbox" in o:
            o["inbox"] = [[[a, str(b)] for a, b in m] for m in o["inbox"]]

    def op_cpnewlog(self, o):
        self.c.logNewAgents(t=o["time"], new_refs=o["n"])

    def op_cpsave(self, o):
        if self.par and self.e.mpi.rank:
            return None
        self.c.saveExchangeDataToFile()
        n = self.cp_o
        r = {}
        for k, f in (("total", "logTotalAgents"), ("at", "logLocationsNumAgents"), ("new", "logNewRefugees")):
            s = self.cp_read(os.path.join(self.cp_root, n["kind"], "log_exchange_data", "%s_%s[%d].csv" % (f, n["sub"], n["index"])))
            r[k] = [] if s == "-" else rows_of(s)
        return r

    def op_cpsum(self, o):
        n = self.cp_o
        d = os.path.join(self.cp_root, n["kind"], n["sub"])
        for r in range(n["n"]):
            with builtins.open(os.path.join(d, "out[%d].csv" % r), "w") as f:
                csv.writer(f).writerows([o["head"]] + o["tables"][r])
        self.c.sumOutputCSVFiles()
        rows = list(csv.reader(io.StringIO(self.cp_read(os.path.join(d, "out.csv")))))
        from drive import num
        o["tables"] = [[[num(x) for x in y] for y in t] for t in o["tables"]]
        o["err"] = ["error" in h.lower() for h in o["head"]]
        return {"head": rows[0] if rows else [], "rows": [[num(x) for x in y] for y in rows[1:]]}
