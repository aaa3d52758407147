------------------------------ MODULE FleeFrame ------------------------------
(***************************************************************************)
(* Comparison of recorded states, invariants of every state, and frame     *)
(* conditions: the parts of the state an operation does not name.          *)
(***************************************************************************)
EXTENDS FleeObs

(***************************************************************************)
(* Comparisons                                                             *)
(***************************************************************************)
SameBag(x, y) == /\ Len(x) = Len(y)
                 /\ \A i \in DOMAIN x : Cardinality({j \in DOMAIN x : x[j] = x[i]}) = Cardinality({j \in DOMAIN y : y[j] = x[i]})
RoadKey(r) == [to |-> r.to, dist |-> R(r.dist), forced |-> r.forced, closed |-> r.closed, attrs |-> r.attrs, cum |-> r.cum, by |-> Range(Get(r, "by", <<>>)), n |-> 0]
OpenKey(r) == [RoadKey(r) EXCEPT !.n = r.n]
Keys(rs) == TLCEval([j \in DOMAIN rs |-> RoadKey(rs[j])])
OpenKeys(rs) == TLCEval([j \in DOMAIN rs |-> OpenKey(rs[j])])

SameStatic(L, M) == /\ L.name = M.name /\ L.region = M.region /\ L.country = M.country
                    /\ REq(L.x, M.x) /\ REq(L.y, M.y) /\ L.foreign = M.foreign
SameSize(L, M) == REq(L.cap, M.cap) /\ REq(L.pop, M.pop) /\ L.spawned = M.spawned
SameRoads(locs, locs2) == \A i \in DOMAIN locs : /\ SameBag(Keys(locs[i].links), Keys(locs2[i].links))
                                                 /\ SameBag(Keys(locs[i].closed), Keys(locs2[i].closed))
SameOpenCounts(locs, locs2) == \A i \in DOMAIN locs : SameBag(OpenKeys(locs[i].links), OpenKeys(locs2[i].links))

\* Where a person is, independent of the order of roads.
Where(st, at) == CASE at.k = "L" -> <<"L", at.i, 0, "0", FALSE>>
                   [] at.k = "N" -> <<"N", 0, 0, "0", FALSE>>
                   [] at.k = "K" -> LET r == st.locs[at.i].links[at.j] IN <<"R", at.i, r.to, R(r.dist), FALSE>>
                   [] OTHER -> <<"R", at.lk.from, at.lk.to, R(at.lk.dist), at.lk.closed>>
\* ... and after a network operation that leads from st to the locations locs
WhereAfter(st, locs, at) == IF at.k = "K" THEN RoadAfter(locs, at.i, st.locs[at.i].links[at.j]) ELSE Where(st, at)
SameButPlace(a, b) ==
  /\ a.id = b.id /\ a.home = b.home /\ a.tsd = b.tsd /\ a.places = b.places /\ REq(a.recent, b.recent)
  /\ REq(a.moved, b.moved) /\ a.trav = b.trav /\ REq(a.dol, b.dol) /\ a.route = b.route /\ a.attrs = b.attrs
  /\ REq(a.dtrav, b.dtrav)
SamePerson(st, st2, a, b) == SameButPlace(a, b) /\ Where(st, a.at) = Where(st2, b.at)
SamePeople(st, st2, ag, ag2) == Len(ag) = Len(ag2) /\ \A k \in DOMAIN ag : SamePerson(st, st2, ag[k], ag2[k])

NewPerson(b, i, attributes) ==
  /\ b.at.k = "L" /\ b.at.i = i /\ b.home = i /\ b.tsd = 0 /\ b.places = 1 /\ REq(b.recent, 0) /\ REq(b.moved, 0)
  /\ ~b.trav /\ REq(b.dol, 0) /\ b.route = <<>> /\ b.attrs = attributes /\ REq(b.dtrav, 0)

SameList(x, y, Eq(_, _)) == Len(x) = Len(y) /\ \A i \in DOMAIN x : Eq(x[i], y[i])
EqR(x, y) == RClose(x, y)

Live(st, i) == Cardinality({k \in DOMAIN st.agents : st.agents[k].at.k = "L" /\ st.agents[k].at.i = i})
OnLink(st, i, j) == Cardinality({k \in DOMAIN st.agents : st.agents[k].at.k = "K" /\ st.agents[k].at.i = i /\ st.agents[k].at.j = j})

(***************************************************************************)
(* What every recorded state must satisfy                                  *)
(***************************************************************************)
WellFormed(st) ==
  /\ \A i \in DOMAIN st.locs :
       /\ \A j \in DOMAIN st.locs[i].links : st.locs[i].links[j].to > 0 /\ st.locs[i].links[j].from = i
       /\ \A j \in DOMAIN st.locs[i].closed : st.locs[i].closed[j].to > 0 /\ st.locs[i].closed[j].from = i
  /\ \A k \in DOMAIN st.agents :
       /\ st.agents[k].home > 0
       /\ st.agents[k].at.k = "O" => st.agents[k].at.lk.from > 0 /\ st.agents[k].at.lk.to > 0
       /\ \A x \in DOMAIN st.agents[k].route : st.agents[k].route[x] > 0

Invariants(S, dead, st) ==
  C("inv.names", st.names = [i \in DOMAIN st.locs |-> st.locs[i].name])
  \cup C("inv.ids", Cardinality({st.agents[k].id : k \in DOMAIN st.agents}) = Len(st.agents))
  \cup C("inv.trav", \A k \in DOMAIN st.agents : st.agents[k].trav <=> OnRoad(st.agents[k].at))
  \cup C("inv.closedflag", \A i \in DOMAIN st.locs :
           /\ \A j \in DOMAIN st.locs[i].links : ~st.locs[i].links[j].closed
           /\ \A j \in DOMAIN st.locs[i].closed : st.locs[i].closed[j].closed)
  \cup C("inv.count", \A i \in DOMAIN st.locs : st.locs[i].n = Live(st, i) + dead[i])
  \cup C("inv.roadcount", \A i \in DOMAIN st.locs : \A j \in DOMAIN st.locs[i].links : st.locs[i].links[j].n = OnLink(st, i, j))
  \cup C("inv.total", st.total = Len(st.agents))

\* Frame conditions: the parts of the state an operation does not name.
FrameT(st, st2) == C("frame.time", st2.t = st.t)
FrameLocs(st, st2) ==
  C("frame.locs", Len(st2.locs) = Len(st.locs) /\ \A i \in DOMAIN st.locs : SameStatic(st.locs[i], st2.locs[i]))
FrameSize(st, st2) == C("frame.size", \A i \in DOMAIN st.locs : SameSize(st.locs[i], st2.locs[i]))
FrameKind(st, st2) == C("frame.kind", \A i \in DOMAIN st.locs : SameKind(st.locs[i], st2.locs[i]))
FrameAttr(st, st2) == C("frame.attrs", \A i \in DOMAIN st.locs : st.locs[i].attrs = st2.locs[i].attrs /\ st.locs[i].fc = st2.locs[i].fc)
FrameRoads(st, st2) == C("frame.roads", SameRoads(st.locs, st2.locs))
FramePeople(st, st2) == C("frame.people", SamePeople(st, st2, st.agents, st2.agents))
FrameStats(st, st2) == C("frame.stats", st.arr = st2.arr /\ SameList(st.dur, st2.dur, EqR))
FrameWeights(st, st2) == C("frame.weights", SameList(st.sw, st2.sw, EqR))
FrameCounts(st, st2) == C("frame.counts", \A i \in DOMAIN st.locs : st.locs[i].n = st2.locs[i].n)
StdFrame(st, st2) == FrameT(st, st2) \cup FrameLocs(st, st2) \cup FrameSize(st, st2) \cup FrameKind(st, st2) \cup FrameAttr(st, st2)
                     \cup FrameRoads(st, st2) \cup FramePeople(st, st2) \cup FrameStats(st, st2) \cup FrameWeights(st, st2)
                     \cup FrameCounts(st, st2)
=============================================================================
