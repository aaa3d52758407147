----------------------------- MODULE FleeTrace -----------------------------
(***************************************************************************)
(* Trace validation: every event of every recorded trace must be a         *)
(* transition of the specification.  The state is resynchronised to the    *)
(* recorded one after every event; failing clauses are printed as lines    *)
(* V|trace|event|operation|clause|detail.                                  *)
(***************************************************************************)
EXTENDS FleeInput, FleeRoutes, FleeSettings, FleeLogs, FleeMetrics, FleePar, FleeCoupling, FleeRun, Json, IOUtils

Traces == ndJsonDeserialize(IOEnv.TRACE)

VARIABLES s, l, hid
vars == <<s, l, hid>>

NoHid == [S |-> <<>>, st |-> <<>>, posts |-> <<>>, dead |-> <<>>, sched |-> <<>>, has |-> FALSE,
          data |-> <<>>, sp |-> NoSpawn, geo |-> NoGeo, cp |-> NoCp, pg |-> NoPg]

(***************************************************************************)
(* One day                                                                 *)
(***************************************************************************)
RECURSIVE SumBag(_, _)
SumBag(bag, X) == IF X = {} THEN 0 ELSE LET x == CHOOSE y \in X : TRUE IN bag[x] + SumBag(bag, X \ {x})
Evolve(S, st, st2, e) ==
  LET locs == TLCEval([i \in DOMAIN st.locs |-> [st.locs[i] EXCEPT !.score = st2.locs[i].score, !.routes = st2.locs[i].routes] @@ [occ |-> st.locs[i].n]])
      day == TLCEval([t |-> st.t, locs |-> locs, par |-> st.par])
      samep == /\ Len(st.agents) = Len(st2.agents)
               /\ \A k \in DOMAIN st.agents : st.agents[k].id = st2.agents[k].id /\ st.agents[k].home = st2.agents[k].home
                                              /\ st.agents[k].attrs = st2.agents[k].attrs
      shape == /\ Len(st.locs) = Len(st2.locs)
               /\ \A i \in DOMAIN st.locs :
                    /\ [j \in DOMAIN st.locs[i].links |-> [RoadKey(st.locs[i].links[j]) EXCEPT !.cum = 0, !.by = {}]]
                       = [j \in DOMAIN st2.locs[i].links |-> [RoadKey(st2.locs[i].links[j]) EXCEPT !.cum = 0, !.by = {}]]
                    /\ Keys(st.locs[i].closed) = Keys(st2.locs[i].closed)
      score == \A i \in DOMAIN st.locs : RClose(st2.locs[i].score, Score(S, st.locs[i], st.t))
      lim == TLCEval([i \in DOMAIN st.locs |-> [j \in DOMAIN st.locs[i].links |-> st2.locs[i].links[j].cum - st.locs[i].links[j].cum]])
      F == TLCEval(DayOf(S, day, st.agents, WithHops(S, st, st2.agents, e), lim))
      cnt(z) == \A i \in DOMAIN st.locs : z.occ[i] = st2.locs[i].n
      enters(z, i, j, n, v) == SumBag(z.by, {x \in DOMAIN z.by : /\ x[1] = i /\ x[2] = j
                                                  /\ LET A == st.agents[x[3]].attrs IN n \in DOMAIN A /\ A[n] = v})
      by(z) == \A i \in DOMAIN st.locs : \A j \in DOMAIN st.locs[i].links :
                 LET b1 == Get(st.locs[i].links[j], "by", <<>>)  b2 == Get(st2.locs[i].links[j], "by", <<>>)
                     ps == {<<x[1], x[2]>> : x \in Range(b1) \cup Range(b2)} \cup
                           UNION {{<<n, st.agents[x[3]].attrs[n]>> : n \in DOMAIN st.agents[x[3]].attrs} : x \in DOMAIN z.by}
                 IN \A y \in ps : ByCount(b2, y[1], y[2]) = ByCount(b1, y[1], y[2]) + enters(z, i, j, y[1], y[2])
      cum(z) == \A i \in DOMAIN st.locs : \A j \in DOMAIN st.locs[i].links :
                  st2.locs[i].links[j].cum = st.locs[i].links[j].cum + z.ent[i][j]
      stat(z) == IF S.camp = 0 THEN st2.arr = st.arr
                 ELSE /\ st2.arr = Append(st.arr, z.jour.n)
                      /\ SameList(st2.dur, Append(st.dur, IF z.jour.n = 0 THEN "0" ELSE RDiv(z.jour.sum, z.jour.n)), EqR)
  IN C("evolve.time", st2.t = st.t + 1)
     \cup (IF shape THEN FixedRoutesOK(S, day, st2) ELSE {})
     \cup C("evolve.people", samep) \cup C("evolve.roads", shape)
     \cup FrameLocs(st, st2) \cup FrameSize(st, st2) \cup FrameKind(st, st2) \cup FrameAttr(st, st2)
     \cup C("evolve.score", score)
     \cup C("evolve.weights", SameList(st2.sw, SpawnWeights(S, st.locs, st.t), EqR))
     \cup (IF samep /\ shape
           THEN F.bad \cup (IF F.full
                            THEN C("evolve.counts", \E z \in F.zs : cnt(z)) \cup C("evolve.cum", \E z \in F.zs : cum(z))
                                 \cup (IF S.link > 1 THEN C("evolve.cumby", \E z \in F.zs : by(z)) ELSE {})
                                 \cup C("evolve.arrivals", \E z \in F.zs : stat(z))
                            ELSE {})
           ELSE {})

(***************************************************************************)
(* All operations                                                          *)
(***************************************************************************)
NetOp(S, st, st2, r) ==
  LET locs == r.locs IN
  FrameT(st, st2) \cup FrameLocs(st, st2) \cup FrameSize(st, st2) \cup FrameAttr(st, st2)
  \cup C("frame.people", /\ Len(st.agents) = Len(st2.agents)
                         /\ \A k \in DOMAIN st.agents : SameButPlace(st.agents[k], st2.agents[k]))
  \cup C("net.people", Len(st.agents) = Len(st2.agents) =>
         \A k \in DOMAIN st.agents : WhereAfter(st, locs, st.agents[k].at) = Where(st2, st2.agents[k].at))
  \cup FrameStats(st, st2) \cup FrameCounts(st, st2)
  \cup (IF Len(locs) # Len(st2.locs) THEN {} ELSE
        C("net.kind", \A i \in DOMAIN locs : SameKind(locs[i], st2.locs[i]))
        \cup C("net.roads", SameRoads(locs, st2.locs))
        \cup C("net.onlykinds", \A i \in DOMAIN locs :
              KindOK(st.locs[i]) /\ (r.w => Ordinary(st.locs[i])) => KindOK(st2.locs[i])))
  \cup (IF r.w THEN C("net.weights", SameList(st2.sw, SpawnWeights(S, locs, st.t), EqR)) ELSE FrameWeights(st, st2))

RetOf(e) == IF "ret" \in DOMAIN e THEN TF(e.ret) ELSE "-"

AddLoc(S, st, st2, e) ==
  LET n == Len(st.locs)
      L == st2.locs[n + 1]
  IN IF Len(st2.locs) # n + 1 THEN {"loc.added"} ELSE
     LET head == [st2 EXCEPT !.locs = SubSeq(@, 1, n)] IN
     NewLoc(S, st.par, L, e.kw) \cup C("loc.values", L.links = <<>> /\ L.closed = <<>>)
     \cup C("loc.weights", SameList(st2.sw, SpawnWeights(S, st2.locs, st2.t), EqR))
     \cup FrameT(st, head) \cup FrameLocs(st, head) \cup FrameSize(st, head) \cup FrameKind(st, head) \cup FrameAttr(st, head)
     \cup FrameRoads(st, head) \cup FramePeople(st, st2) \cup FrameStats(st, head) \cup FrameCounts(st, head)

LinkUp(S, st, st2, e) ==
  LET A == Index(st.locs, e.a)  B == Index(st.locs, e.b)
      road(x, y, f) == [from |-> x, to |-> y, dist |-> e.dist, closed |-> FALSE, forced |-> f, n |-> 0, nr |-> 0, cum |-> 0,
                        attrs |-> Get(e, "attrs", [z \in {} |-> ""])]
      x == CHOOSE i \in A : TRUE
      y == CHOOSE i \in B : TRUE
      want == [st.locs EXCEPT ![x].links = Append(@, road(x, y, Get(e, "forced", FALSE))), ![y].links = Append(@, road(y, x, FALSE))]
  IN FrameT(st, st2) \cup FrameLocs(st, st2) \cup FrameSize(st, st2) \cup FrameKind(st, st2) \cup FrameAttr(st, st2)
     \cup FramePeople(st, st2) \cup FrameStats(st, st2) \cup FrameWeights(st, st2) \cup FrameCounts(st, st2)
     \cup C("link.roads", SameRoads(want, st2.locs))

\* n people enter at location i; take: from its population
Enter(S, st, st2, i, n, attributes, take) ==
  LET m == Len(st.agents)
      old == SubSeq(st2.agents, 1, m)
      isNew(k) == NewPerson(st2.agents[k], i, attributes)
  IN FrameT(st, st2) \cup FrameLocs(st, st2) \cup FrameKind(st, st2) \cup FrameAttr(st, st2)
     \cup FrameRoads(st, st2) \cup FrameStats(st, st2) \cup FrameWeights(st, st2)
     \cup C("enter.total", st2.total = st.total + n)
     \cup C("enter.people", /\ Len(st2.agents) = m + n
                            /\ SamePeople(st, st2, st.agents, old) /\ \A k \in (m + 1)..Len(st2.agents) : isNew(k))
     \cup C("enter.counts", \A j \in DOMAIN st.locs : st2.locs[j].n = st.locs[j].n + (IF j = i THEN n ELSE 0))
     \cup C("enter.population", \A j \in DOMAIN st.locs :
              /\ REq(st2.locs[j].cap, st.locs[j].cap)
              /\ REq(st2.locs[j].pop, IF j = i /\ take THEN RMax(RSub(st.locs[j].pop, n), RMin(st.locs[j].pop, 0)) ELSE st.locs[j].pop)
              /\ st2.locs[j].spawned = st.locs[j].spawned + (IF j = i /\ take THEN n ELSE 0))

\* Everybody at the named locations (not on roads) leaves the simulation.
Clear(S, st, st2, names) ==
  LET I == {i \in DOMAIN st.locs : st.locs[i].name \in Range(names)}
      gone(a) == a.at.k = "L" /\ a.at.i \in I
      stay(a) == ~gone(a)
      kept == SelectSeq(st.agents, stay)
  IN FrameT(st, st2) \cup FrameLocs(st, st2) \cup FrameSize(st, st2) \cup FrameKind(st, st2) \cup FrameAttr(st, st2)
     \cup FrameRoads(st, st2) \cup FrameStats(st, st2) \cup FrameWeights(st, st2)
     \cup C("clear.people", SamePeople(st, st2, kept, st2.agents))
     \cup C("clear.counts", \A i \in DOMAIN st.locs :
             st2.locs[i].n = st.locs[i].n - (IF i \in I THEN Live(st, i) ELSE 0))

\* An attribute is set by its user.
SetAttr(st, st2, e) ==
  FrameT(st, st2) \cup FrameLocs(st, st2) \cup FrameSize(st, st2) \cup FrameKind(st, st2) \cup FrameRoads(st, st2)
  \cup FramePeople(st, st2) \cup FrameStats(st, st2) \cup FrameWeights(st, st2) \cup FrameCounts(st, st2)
  \cup C("frame.attrs", \A i \in DOMAIN st.locs :
         LET A == st.locs[i].attrs  B == st2.locs[i].attrs IN
         IF i = e.i /\ ~e.list THEN DOMAIN B = DOMAIN A \cup {e.name} /\ \A x \in DOMAIN B : B[x] = (IF x = e.name THEN e.value ELSE A[x])
         ELSE A = B)
\* Plain public fields of a location are set by its user.
SetLoc(st, st2, e) ==
  FrameT(st, st2) \cup FrameLocs(st, st2) \cup FrameAttr(st, st2) \cup FrameRoads(st, st2)
  \cup FramePeople(st, st2) \cup FrameStats(st, st2) \cup FrameWeights(st, st2) \cup FrameCounts(st, st2)
  \cup C("frame.size", \A i \in DOMAIN st.locs :
         IF i = e.i THEN /\ REq(st2.locs[i].pop, Get(e.set, "pop", st.locs[i].pop)) /\ REq(st2.locs[i].cap, Get(e.set, "capacity", st.locs[i].cap))
         ELSE SameSize(st.locs[i], st2.locs[i]))

\* The schedule as recorded: entries [type, a, b, start, end]
Apply(h, e, st2) ==
  LET S == h.S  st == h.st IN
  CASE e.op = "loc"    -> AddLoc(S, st, st2, e)
    [] e.op = "link"   -> LinkUp(S, st, st2, e)
    [] e.op = "insert" -> Enter(S, st, st2, e.i, e.n, e.attrs, FALSE)
    [] e.op = "add"    -> Enter(S, st, st2, e.i, e.n, e.attrs, S.TakeFromPopulation)
    [] e.op = "clear"  -> Clear(S, st, st2, e.names)
    [] e.op = "evolve" -> Evolve(S, st, st2, e) \cup (IF "log" \in DOMAIN e /\ Len(st.agents) = Len(st2.agents) THEN DayLogs(S, st, st2, e) ELSE {})
    [] e.op = "call"   -> LET r == CallOp(S, st, e) IN NetOp(S, st, st2, r) \cup C("net.ret", r.ret = RetOf(e))
    [] e.op = "reweigh" -> StdFrame(st, [st2 EXCEPT !.sw = st.sw]) \cup C("evolve.weights", SameList(st2.sw, SpawnWeights(S, st.locs, st.t), EqR))
    [] e.op = "closures" -> StdFrame(st, st2)
    [] e.op = "enact"  -> NetOp(S, st, st2, Res(Enact(S, st.locs, h.sched, e.time, Get(e, "twoway", TRUE)), "-", FALSE))
    [] e.op = "attr"   -> SetAttr(st, st2, e)
    [] e.op = "setloc" -> SetLoc(st, st2, e)
    [] e.op = "bulk"   -> IF S.FixedRoutes /\ S.AwarenessLevel > 0 THEN BulkFixed(S, st, st2, e) ELSE Bulk(S, st, st2, e)
    [] e.op = "major"  -> StdFrame(st, st2)
    [] e.op = "routes"    -> StdFrame(st, st2) \cup (IF "ret" \in DOMAIN e THEN Routes(S, st, e) ELSE {})
    [] e.op = "chance"    -> StdFrame(st, st2) \cup (IF "ret" \in DOMAIN e THEN Chance(S, st, e) ELSE {})
    [] e.op = "capmult"   -> StdFrame(st, st2) \cup (IF "ret" \in DOMAIN e THEN CapMults(S, st, e) ELSE {})
    [] e.op = "decay"     -> StdFrame(st, st2) \cup (IF "ret" \in DOMAIN e THEN Decays(S, e) ELSE {})
    [] e.op = "wlog"      -> StdFrame(st, st2) \cup OnRequest(S, st, e)
    [] e.op = "numidps"   -> StdFrame(st, st2) \cup NumIDPs(S, st, e)
    [] e.op = "campnames" -> StdFrame(st, st2) \cup CampNames(S, st, e)
    [] e.op = "graph"     -> StdFrame(st, st2) \cup Graph(S, st, e)
    [] e.op \in CpOps -> CpEvent(S, h.cp, st, st2, e)
    [] e.op \in SpawnOps -> SpawnEvent(S, h.data, h.sp, st, st2, e)
    [] e.op = "input"     -> Input(S, st, st2, e)
    [] e.op = "day"       -> Day(S, h.geo, st, st2, e)
    [] e.op = "refresh"   -> StdFrame(st, st2) \cup (IF "absent" \in DOMAIN e THEN {} ELSE C("evolve.score", \A i \in DOMAIN st.locs : RClose(st2.locs[i].score, Score(S, st.locs[i], st.t))))
    [] OTHER -> StdFrame(st, st2)

Failed(h, e) ==
  LET known == e.exc # "" IN
  IF e.op = "settings"
  THEN IF Refused(e.yaml) THEN C("settings.refused", e.exc # "")
       ELSE C("raised", e.exc = "") \cup (IF e.exc # "" THEN {} ELSE IF "mr" \in DOMAIN e THEN SettingsEvent(TLCEval(Settings(e.yaml)), e)
            ELSE C("settings.steps", REq(e.ret, Settings(e.yaml).number_of_steps)))
  ELSE IF e.op = "program" /\ e.exc # "" /\ h.pg.refused THEN {}
  ELSE IF e.op = "metric" THEN IF e.exc # "" THEN {"raised"} ELSE Metric(e)
  ELSE IF e.op = "valid" THEN IF e.exc # "" THEN {"raised"} ELSE Valid(e)
  ELSE IF e.op \in DataOps
  THEN IF e.exc # "" THEN (IF DataMayFail(h.data, e) THEN {} ELSE {"raised"})
       ELSE (IF DataMayFail(h.data, e) THEN {"notrefused"} ELSE {}) \cup DataEvent(h.data, e)
  ELSE IF h.has /\ Refusal(h.S, h.data, h.sp, h.st, e) THEN C("notrefused", known)
  ELSE IF e.exc # "" THEN {"raised"}
  ELSE IF e.op = "freq" THEN Freq(h.S, h.sp, h.st, e)
  ELSE IF "post" \notin DOMAIN e THEN {}
  ELSE IF ~WellFormed(e.post) THEN {"inv.wellformed"}
  ELSE IF ~h.has THEN {}
  ELSE LET st2 == e.post
           dead2 == IF Len(st2.locs) # Len(h.dead) THEN h.dead
                    ELSE IF e.op = "evolve" THEN [i \in DOMAIN h.dead |-> st2.locs[i].n - Live(st2, i)] ELSE h.dead
           d3 == IF Len(st2.locs) = Len(dead2) THEN dead2 ELSE [i \in DOMAIN st2.locs |-> IF i <= Len(dead2) THEN dead2[i] ELSE 0]
       IN Apply(h, e, st2) \cup Invariants(h.S, d3, st2)

After(h, e) ==
  LET h0 == IF e.op = "settings" /\ e.exc = "" THEN [h EXCEPT !.S = TLCEval(Settings(e.yaml))]
            ELSE IF e.exc # "" THEN h
            ELSE IF e.op = "closures" THEN [h EXCEPT !.sched = e.list]
            ELSE IF e.op = "input" THEN [h EXCEPT !.geo = GeoOf(h.S, e), !.sched = e.ret.closures]
            ELSE IF e.op \in CpOps THEN [h EXCEPT !.cp = CpAfter(@, h.st, e)]
            ELSE IF e.op \in DataOps THEN [h EXCEPT !.data = DataAfter(@, e)]
            ELSE IF e.op \in SpawnOps \cup {"demog", "loaddm"}
            THEN [h EXCEPT !.sp = SpawnAfter(h.S, @, e), !.data = IF "dp" \in DOMAIN e THEN DataAfter(@, e) ELSE @]
            ELSE h
      h1 == [h0 EXCEPT !.pg = PgAfter(h0.S, h0.data, h0.sp, @, e)]
  IN IF "post" \in DOMAIN e /\ WellFormed(e.post)
     THEN LET st2 == e.post IN
          [h1 EXCEPT !.st = st2, !.has = TRUE, !.posts = Get(e, "posts", <<>>),
             !.dead = [i \in DOMAIN st2.locs |-> IF e.op = "evolve" THEN st2.locs[i].n - Live(st2, i)
                                                 ELSE IF i <= Len(@) THEN @[i] ELSE 0]]
     ELSE h1

Report(tr, k, e, fs) == \A f \in fs : PrintT("V|" \o tr.id \o "|" \o ToString(k) \o "|" \o e.op \o "|" \o f \o "|" \o (IF f = "raised" THEN e.exc ELSE ""))

\* Events of parallel runs: the ranks' states are compared and merged.
People(h) == IF h.has THEN h.st.agents ELSE <<>>
World(h, e) == IF "posts" \in DOMAIN e /\ \A r \in DOMAIN e.posts : WellFormed(e.posts[r])
               THEN [post |-> TLCEval(Merge(People(h), e.posts))] @@ e ELSE e
RankLogs(h, e) ==
  IF "logs" \notin DOMAIN e \/ h.posts = <<>> THEN {}
  ELSE UNION {DayLogs(h.S, h.posts[r], e.posts[r], [log |-> e.logs[r]]) : r \in {q \in DOMAIN e.posts : Len(h.posts[q].agents) = Len(e.posts[q].agents)}}
Judged(h, e) ==
  Lines(h.S, h.pg, e) \cup Place(h.S, h.pg, h.st, e) \cup
  IF "posts" \notin DOMAIN e THEN Failed(h, e)
  ELSE IF \E r \in DOMAIN e.posts : ~WellFormed(e.posts[r]) THEN {"inv.wellformed"}
  ELSE LET f == Ranks(People(h), e) IN IF "par.network" \in f THEN f ELSE f \cup Failed(h, World(h, e)) \cup RankLogs(h, e)

Init == s = 1 /\ l = 1 /\ hid = NoHid
Step == /\ s <= Len(Traces) /\ l <= Len(Traces[s].ev)
        /\ LET e == Traces[s].ev[l]
               fs == TLCEval(Judged(hid, e))
           IN /\ Report(Traces[s], l, e, fs)
              /\ hid' = After(hid, IF "par.network" \in fs THEN e ELSE World(hid, e))
              \* a trace that cannot be interpreted further is given up
              /\ IF \E f \in fs : f \in {"raised", "inv.wellformed", "par.network"}
                 THEN s' = s /\ l' = Len(Traces[s].ev) + 1
                 ELSE s' = s /\ l' = l + 1
NextTrace == /\ s <= Len(Traces) /\ l > Len(Traces[s].ev)
             /\ PrintT("D|" \o Traces[s].id)
             /\ s' = s + 1 /\ l' = 1 /\ hid' = NoHid
Next == Step \/ NextTrace
Spec == Init /\ [][Next]_vars
=============================================================================
