----------------------------- MODULE FleeSpawn ------------------------------
(***************************************************************************)
(* New people: initial populations, daily displacement driven by data, by  *)
(* conflicts or by floods, where they start and what attributes they get.  *)
(*                                                                         *)
(* sp  [raw, debt, dm, on]: running total and debt of data-driven runs,    *)
(*     demographic tables, and whether these have been loaded              *)
(* dm  attribute -> [cols, rows]; the first cell of a row is the value,    *)
(*     the others are weights by column (Default or a location's name)     *)
(***************************************************************************)
EXTENDS FleeFrame, FleeData

NoSpawn == [raw |-> 0, debt |-> 0, dm |-> [x \in {} |-> <<>>], on |-> FALSE]

DmCol(d, name) ==
  LET has == {c \in DOMAIN d.cols : c > 1 /\ d.cols[c] = name}
  IN IF has # {} THEN CHOOSE c \in has : TRUE ELSE CHOOSE c \in DOMAIN d.cols : d.cols[c] = "Default"
SameVal(a, b) == IF StrIsNum(a) /\ StrIsNum(b) THEN REq(a, b) ELSE a = b
DmTotal(d, c) == RSumSeq([r \in DOMAIN d.rows |-> d.rows[r][c]])
\* probability that attribute A takes value v for people who start in a location of this name
DmProb(d, name, v) ==
  LET c == DmCol(d, name)
      hit(r) == SameVal(r[1], v)
      rs == SelectSeq(d.rows, hit)
  IN RDiv(RSumSeq([k \in DOMAIN rs |-> rs[k][c]]), DmTotal(d, c))
DmOK(sp, name, attributes) ==
  IF ~sp.on THEN attributes = [x \in {} |-> ""]
  ELSE /\ DOMAIN attributes = DOMAIN sp.dm
       /\ \A x \in DOMAIN attributes : RLt(0, DmProb(sp.dm[x], name, attributes[x]))

Newcomers(st, st2) == TLCEval(SubSeq(st2.agents, Len(st.agents) + 1, Len(st2.agents)))
NewAt(st, st2, i) == Cardinality({k \in (Len(st.agents) + 1)..Len(st2.agents) : st2.agents[k].at.k = "L" /\ st2.agents[k].at.i = i})

NewCounts(st, st2) == TLCEval([i \in DOMAIN st.locs |-> NewAt(st, st2, i)])

\* People enter; everything but head counts, populations and spawn counts stays.  take: from the population
EnterMany(S, sp, st, st2, take, cap0) ==
  LET m == Len(st.agents)
      old == TLCEval(SubSeq(st2.agents, 1, m))
      nw == Newcomers(st, st2)
      cnt == NewCounts(st, st2)
      n(i) == cnt[i]
  IN FrameT(st, st2) \cup FrameLocs(st, st2) \cup FrameKind(st, st2) \cup FrameAttr(st, st2)
     \cup FrameRoads(st, st2) \cup FrameStats(st, st2)
     \cup (IF Len(st2.agents) < m \/ Len(st.locs) # Len(st2.locs) THEN {"spawn.people"} ELSE
        C("spawn.people", SamePeople(st, st2, st.agents, old) /\ st2.total = Len(st2.agents)
                          /\ \A k \in DOMAIN nw : nw[k].at.k = "L" /\ NewPerson(nw[k], nw[k].at.i, nw[k].attrs))
        \cup C("spawn.attributes", \A k \in DOMAIN nw : nw[k].at.k = "L" => DmOK(sp, st.locs[nw[k].at.i].name, nw[k].attrs))
        \cup C("spawn.counts", \A i \in DOMAIN st.locs : st2.locs[i].n = st.locs[i].n + n(i))
        \cup C("spawn.capacity", \A i \in DOMAIN st.locs : REq(st2.locs[i].cap, RSub(st.locs[i].cap, cap0[i])))
        \cup C("spawn.population", \A i \in DOMAIN st.locs :
              /\ REq(st2.locs[i].pop, IF take THEN RMax(RSub(st.locs[i].pop, n(i)), RMin(st.locs[i].pop, 0)) ELSE st.locs[i].pop)
              /\ st2.locs[i].spawned = st.locs[i].spawned + (IF take THEN n(i) ELSE 0)))
NoCap(st) == [i \in DOMAIN st.locs |-> 0]

\* Initial population of location i.
Initial(S, D, L) ==
  IF S.EmptyCampsOnDay0 THEN {0}
  ELSE LET idp == RTrunc(Get(L.attrs, "initial_idps", "0"))
       IN IF S.InsertDayZeroRefugeesInCamps THEN {x + idp : x \in Field(D, L.name, 0, TRUE)} ELSE {idp}
Loaded(sp) == [sp EXCEPT !.on = DOMAIN sp.dm # {}]
SpawnInit(S, D, sp, st, st2, e) ==
  EnterMany(S, Loaded(sp), st, st2, FALSE, NoCap(st)) \cup FrameWeights(st, st2)
  \cup C("init.number", \E x \in Initial(S, D, st.locs[e.i]) : NewAt(st, st2, e.i) = Max2(0, x) /\ Len(st2.agents) - Len(st.agents) = Max2(0, x))

(***************************************************************************)
(* Where people start: in proportion to the weights of the current state.  *)
(***************************************************************************)
DrawOK(st, w, n(_)) ==
  LET tot == RSumSeq(w)
      all == ISumSeq([i \in DOMAIN st.locs |-> n(i)])
  IN C("pick.where", \A i \in DOMAIN st.locs : RLe(w[i], 0) => n(i) = 0)
     \cup (IF RLe(tot, 0) THEN {} ELSE C("pick.freq", \A i \in DOMAIN st.locs : RBinomOk(n(i), all, RDiv(w[i], tot))))
Pick(S, st, st2, e) ==
  LET w == SpawnWeights(S, st.locs, st.t)
      n(i) == e.ret.n[i]
  IN DrawOK(st, w, n) \cup C("pick.where", e.ret.bad = 0) \cup C("pick.total", ISumSeq(e.ret.n) = e.n)
     \cup C("pick.weights", SameList(st2.sw, w, EqR))
     \cup FrameT(st, st2) \cup FrameLocs(st, st2) \cup FrameSize(st, st2) \cup FrameKind(st, st2) \cup FrameAttr(st, st2)
     \cup FrameRoads(st, st2) \cup FramePeople(st, st2) \cup FrameStats(st, st2) \cup FrameCounts(st, st2)
\* Refused: drawing people when nobody can be displaced.
PickMayFail(S, st, e) == RLe(RSumSeq(SpawnWeights(S, st.locs, st.t)), 0)

(***************************************************************************)
(* Daily displacement                                                      *)
(***************************************************************************)
\* Data-driven: arrivals [new, raw, debt] after the change diff on day t
Arrivals(S, sp, t, diff) ==
  LET held == S.InsertDayZeroRefugeesInCamps /\ t = 0
      due == IF held THEN 0 ELSE diff - sp.debt
  IN [new |-> Max2(0, due), raw |-> sp.raw + diff,
      debt |-> IF due < 0 THEN -due ELSE 0]

\* Driven by conflicts or floods: expected number per location: <<exact?, value>>
PerPlace(S, L) ==
  IF S.conflict_driven_spawning
  THEN IF ~InConflict(L) THEN "0"
       ELSE IF S.conflict_spawn_mode = "pop_ratio" THEN RMul(S.displaced_per_conflict_day, RMul(L.pop, L.conflict))
       ELSE RMul(S.displaced_per_conflict_day, L.conflict)
  ELSE IF Level(L) <= 0 THEN "0"
       ELSE LET v == S.displaced_per_flood_day[Level(L) + 1]
            IN IF S.flood_spawn_mode = "pop_ratio" THEN RMul(v, L.pop) ELSE R(RTrunc(v))
Mode(S) == StrLower(IF S.conflict_driven_spawning THEN S.conflict_spawn_mode ELSE S.flood_spawn_mode)

\* With EXCEPT on locs where capacity shrinks by the initial populations.
Cap0(S, D, st, t) ==
  [i \in DOMAIN st.locs |->
     IF S.conflict_driven_spawning \/ S.flood_driven_spawning \/ ~S.InsertDayZeroRefugeesInCamps \/ t # 0 \/ RLe(st.locs[i].cap, 0) THEN 0
     ELSE Day0(D, st.locs[i].name)]

SpawnDay(S, D, sp, st, st2, e) ==
  LET driven == S.conflict_driven_spawning \/ S.flood_driven_spawning
      D2 == IF "dp" \in DOMAIN e THEN DataAfter(D, e) ELSE D
      cnt == NewCounts(st, st2)
      n(i) == cnt[i]
      new == Len(st2.agents) - Len(st.agents)
      want == Arrivals(S, sp, e.t, e.diff)
      w == SpawnWeights(S, st.locs, st.t)
  IN EnterMany(S, sp, st, st2, S.TakeFromPopulation, Cap0(S, D2, st, e.t))
     \cup C("spawn.total", e.ret[1] = new)
     \cup (IF driven
           THEN C("spawn.owed", e.ret[2] = sp.raw /\ e.ret[3] = sp.debt)
                \cup FrameWeights(st, st2)
                \cup C("spawn.places", \A i \in DOMAIN st.locs : REq(PerPlace(S, st.locs[i]), 0) => n(i) = 0)
                \cup C("spawn.number", \A i \in DOMAIN st.locs :
                       IF Mode(S) = "poisson" THEN RPoisOk(n(i), PerPlace(S, st.locs[i])) ELSE n(i) \in TruncSet(PerPlace(S, st.locs[i])))
           ELSE C("spawn.due", new = want.new) \cup C("spawn.owed", e.ret[2] = want.raw /\ e.ret[3] = want.debt)
                \cup (IF new = 0 THEN {} ELSE DrawOK(st, w, n))
                \cup C("spawn.weights", SameList(st2.sw, w, EqR) \/ (new = 0 /\ SameList(st2.sw, st.sw, EqR))))
SpawnAfter(S, sp, e) == IF e.op = "spawnday" THEN [sp EXCEPT !.raw = e.ret[2], !.debt = e.ret[3]]
                        ELSE IF e.op \in {"spawninit", "loaddm"} THEN Loaded(sp)
                        ELSE IF e.op = "demog" THEN [sp EXCEPT !.dm = e.dm]
                        ELSE sp
\* Refused: arrivals are due, and nobody can be displaced.
SpawnMayFail(S, sp, st, e) ==
  ~S.conflict_driven_spawning /\ ~S.flood_driven_spawning /\ Arrivals(S, sp, e.t, e.diff).new > 0
  /\ RLe(RSumSeq(SpawnWeights(S, st.locs, st.t)), 0)

\* e.n people are displaced at once.
SpawnMore(S, sp, st, st2, e) ==
  LET cnt == NewCounts(st, st2)
      n(i) == cnt[i]
      w == SpawnWeights(S, st.locs, st.t)
  IN EnterMany(S, sp, st, st2, S.TakeFromPopulation, NoCap(st))
     \cup C("spawn.total", Len(st2.agents) - Len(st.agents) = e.n)
     \cup (IF S.TakeFromPopulation THEN C("pick.where", \A i \in DOMAIN st.locs : RLe(w[i], 0) => n(i) = 0) ELSE DrawOK(st, w, n))

(***************************************************************************)
(* Frequencies: repeated days or draws, only the counts are kept.          *)
(* rep: e.ret.n[i] the numbers of people started in location i, one per    *)
(* repetition; e.ret.at[i]: attribute -> value -> number                   *)
(***************************************************************************)
RECURSIVE SqDev(_, _)
SqDev(s, m) == IF s = <<>> THEN "0" ELSE RAdd(RMul(RSub(Head(s), m), RSub(Head(s), m)), SqDev(Tail(s), m))
\* s looks like a sample of independent Poisson numbers of mean m: total and dispersion
PoissonSample(s, m) ==
  /\ RPoisOk(ISumSeq(s), RMul(m, Len(s)))
  /\ (RLe(1, m) /\ Len(s) >= 100) =>
       LET d == RDiv(SqDev(s, m), m)
           sd == RSqrt(RMul(RMul(2, Len(s)), RAdd(1, RDiv(1, RMul(2, m)))))
       IN RLe(RAbs(RSub(d, Len(s))), RMul("6.5", sd))
FreqPlaces(S, st, e) ==
  C("spawn.places", \A i \in DOMAIN st.locs : REq(PerPlace(S, st.locs[i]), 0) => \A k \in DOMAIN e.ret.n[i] : e.ret.n[i][k] = 0)
  \cup C("spawn.number", \A i \in DOMAIN st.locs :
        LET m == PerPlace(S, st.locs[i]) IN
        IF Mode(S) = "poisson" THEN PoissonSample(e.ret.n[i], m) ELSE \A k \in DOMAIN e.ret.n[i] : e.ret.n[i][k] \in TruncSet(m))
FreqAttrs(sp, st, e) ==
  C("spawn.attributes", \A i \in DOMAIN st.locs :
     LET at == e.ret.at[i]
         tot == e.ret.tot[i]
     IN tot > 0 =>
        /\ DOMAIN at = (IF sp.on THEN DOMAIN sp.dm ELSE {})
        /\ \A x \in DOMAIN at :
             /\ \A v \in DOMAIN at[x] : RLt(0, DmProb(sp.dm[x], st.locs[i].name, v))
             /\ \A r \in DOMAIN sp.dm[x].rows :
                  LET v == sp.dm[x].rows[r][1] IN RBinomOk(Get(at[x], v, 0), tot, DmProb(sp.dm[x], st.locs[i].name, v)))
FreqMore(S, st, e) == LET n(i) == e.ret.tot[i] IN DrawOK(st, SpawnWeights(S, st.locs, st.t), n) \cup C("spawn.total", ISumSeq(e.ret.tot) = e.n)
Freq(S, sp, st, e) ==
  FreqAttrs(sp, st, e) \cup (IF e.kind = "day" THEN FreqPlaces(S, st, e) ELSE FreqMore(S, st, e))
FreqMayFail(S, st, e) == e.kind = "more" /\ RLe(RSumSeq(SpawnWeights(S, st.locs, st.t)), 0)

\* People listed in a file: rows [location, {attribute: value}]
Listed(S, st, st2, e) ==
  LET m == Len(st.agents)
      nw == Newcomers(st, st2)
      placed(r) == Index(st.locs, r.loc) # {}
      rows == SelectSeq(e.rows, placed)          \* people at unknown places are reported and left out
      n(i) == Cardinality({k \in DOMAIN rows : rows[k].loc = st.locs[i].name})
  IN IF Len(nw) # Len(rows) THEN {"agents.listed"} ELSE
     C("agents.listed", \A k \in DOMAIN nw :
         LET i == CHOOSE j \in Index(st.locs, rows[k].loc) : TRUE
         IN NewPerson([nw[k] EXCEPT !.attrs = [x \in {} |-> ""]], i, [x \in {} |-> ""])
            /\ DOMAIN nw[k].attrs = DOMAIN rows[k].attrs
            /\ \A x \in DOMAIN nw[k].attrs : LET g == nw[k].attrs[x]  v == rows[k].attrs[x]
                                             IN IF StrIsNum(v) THEN StrIsNum(g) /\ REq(g, v) ELSE g = v)
     \cup C("agents.counts", \A i \in DOMAIN st.locs : st2.locs[i].n = st.locs[i].n + n(i))
     \cup C("agents.people", SamePeople(st, st2, st.agents, TLCEval(SubSeq(st2.agents, 1, m))) /\ st2.total = Len(st2.agents))
     \cup C("agents.population", \A i \in DOMAIN st.locs :
              /\ REq(st2.locs[i].pop, IF S.TakeFromPopulation THEN RMax(RSub(st.locs[i].pop, n(i)), RMin(st.locs[i].pop, 0)) ELSE st.locs[i].pop)
              /\ st2.locs[i].spawned = st.locs[i].spawned + (IF S.TakeFromPopulation THEN n(i) ELSE 0))
     \cup FrameT(st, st2) \cup FrameLocs(st, st2) \cup FrameKind(st, st2) \cup FrameAttr(st, st2)
     \cup FrameRoads(st, st2) \cup FrameStats(st, st2) \cup FrameWeights(st, st2)

SpawnOps == {"spawninit", "spawnday", "spawnmore", "pick", "agentscsv", "freq"}
SpawnEvent(S, D, sp, st, st2, e) ==
  CASE e.op = "spawninit" -> SpawnInit(S, D, sp, st, st2, e)
    [] e.op = "spawnday"  -> SpawnDay(S, D, sp, st, st2, e)
    [] e.op = "spawnmore" -> SpawnMore(S, sp, st, st2, e)
    [] e.op = "pick"      -> Pick(S, st, st2, e)
    [] e.op = "agentscsv" -> Listed(S, st, st2, e)
    [] OTHER -> {}
\* Is a failure of the operation a refusal the specification asks for?
Refusal(S, D, sp, st, e) ==
  CASE e.op = "pick" -> PickMayFail(S, st, e)
    [] e.op = "spawnmore" -> e.n > 0 /\ PickMayFail(S, st, e)
    [] e.op = "spawnday" -> SpawnMayFail(S, sp, st, e)
    [] e.op = "freq" -> FreqMayFail(S, st, e)
    [] OTHER -> FALSE
=============================================================================
