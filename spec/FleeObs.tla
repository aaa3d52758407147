------------------------------ MODULE FleeObs ------------------------------
(***************************************************************************)
(* Observations: questions put to the code between steps (routes of a      *)
(* person, move chances, crowding factors, frequencies of decisions), and  *)
(* the answers the specification gives.                                    *)
(***************************************************************************)
EXTENDS FleeDay

C(name, cond) == IF cond THEN {} ELSE {name}

\* Two sequences of [r, w] hold the same routes with the same weights, in any order.
SameRouteBag(x, y) ==
  /\ Len(x) = Len(y)
  /\ \A i \in DOMAIN x :
       LET like(s) == Cardinality({j \in DOMAIN s : s[j].r = x[i].r /\ RClose(s[j].w, x[i].w)})
       IN like(x) = like(y)
SameRouteSet(x, y) == \A i \in DOMAIN x :
   Cardinality({j \in DOMAIN x : x[j].r = x[i].r}) = Cardinality({j \in DOMAIN y : y[j].r = x[i].r})

\* All weighted routes of person e.k (not pruned).
Routes(S, st, e) ==
  LET a == st.agents[e.k]
      u == a.at.i
      occ == [i \in DOMAIN st.locs |-> st.locs[i].n]
      ws == WeightedRoutes(S, st, a, occ, u, st.t)
      want == TLCEval([k \in DOMAIN ws |-> [r |-> ws[k].route, w |-> ws[k].w]])
      got == TLCEval([k \in 1..Len(e.ret.r) |-> [r |-> e.ret.r[k], w |-> e.ret.w[k]]])
  IN IF a.at.k # "L" THEN {}
     ELSE IF Len(want) # Len(got) \/ ~SameRouteSet(want, got) \/ ~SameRouteSet(got, want) THEN {"routes.set"}
     ELSE C("routes.weight", SameRouteBag(want, got))

Chance(S, st, e) ==
  LET a == st.agents[e.k] IN
  IF a.at.k # "L" THEN {} ELSE C("chance", RClose(e.ret, MoveChance(S, st.locs[a.at.i], a, e.force, st.t)))

CapMults(S, st, e) == C("capmult", \A x \in DOMAIN e.n : RClose(e.ret[x], CapMult(S, st.locs[e.i], e.n[x])))
Decays(S, e) == C("decay", \A x \in DOMAIN e.ages : RClose(e.ret[x], Decay(S, e.ages[x])))

RECURSIVE SumOver(_, _, _)
SumOver(s, P(_), k) == IF k > Len(s) THEN 0 ELSE (IF P(s[k]) THEN s[k].n ELSE 0) + SumOver(s, P, k + 1)

NumIDPs(S, st, e) == LET idp(L) == L.idp IN C("numidps", e.ret = SumOver(st.locs, idp, 1))
CampNames(S, st, e) == C("campnames", e.ret = LET isc(L) == L.camp  cs == SelectSeq(st.locs, isc) IN [i \in DOMAIN cs |-> cs[i].name])
Graph(S, st, e) ==
  LET es == Flatten([i \in DOMAIN st.locs |-> [j \in DOMAIN st.locs[i].links |->
                <<st.locs[i].name, st.locs[st.locs[i].links[j].to].name, R(st.locs[i].links[j].dist)>>]])
      got == [k \in DOMAIN e.ret.e |-> <<e.ret.e[k][1], e.ret.e[k][2], R(e.ret.e[k][3])>>]
      cnt(s, x) == Cardinality({k \in DOMAIN s : s[k] = x})
  IN C("graph", /\ e.ret.v = [i \in DOMAIN st.locs |-> st.locs[i].name]
                /\ Len(es) = Len(got) /\ \A k \in DOMAIN es : cnt(es, es[k]) = cnt(got, es[k]))

(***************************************************************************)
(* Many identical newcomers of one location on one day.  Speeds are so low *)
(* that everybody who leaves ends the day on their first road.             *)
(* Outcomes e.ret: [k, from, to, dist, rest, dol, n].                      *)
(***************************************************************************)
Newcomer(i, attributes) ==
  [at |-> AtLoc(i), home |-> i, tsd |-> 0, places |-> 1, recent |-> "0", moved |-> "0", trav |-> FALSE,
   dol |-> "0", route |-> <<>>, attrs |-> attributes, dtrav |-> "0", hops |-> <<>>]

Bulk(S, st, st2, e) ==
  LET i == e.i
      now == [t |-> st.t, par |-> st.par, locs |-> [x \in DOMAIN st.locs |-> [st.locs[x] EXCEPT !.score = st2.locs[x].score]]]
      a == Newcomer(i, e.attrs)
      occ == [x \in DOMAIN st.locs |-> IF x = i THEN e.n ELSE st.locs[x].n]
      L == st.locs[i]
      p == MoveChance(S, L, a, FALSE, st.t)
      out == e.ret
      isStay(o) == o.k \in {"L", "N"}
      isGone(o) == o.k = "R"
      stay == SumOver(out, isStay, 1)
      gone == SumOver(out, isGone, 1)
      all == IF S.AwarenessLevel = 0 THEN CandidateRoutes(S, now, a, occ, i, st.t)
             ELSE WeightedRoutes(S, now, a, occ, i, st.t)
      full == S.AwarenessLevel > 0
      \* decided by rounding at the pruning threshold?
      close == full /\ Len(Survive(S, all, TRUE)) # Len(Survive(S, all, FALSE))
      kept == IF full THEN Survive(S, all, TRUE) ELSE all
      cs == TLCEval([k \in DOMAIN kept |-> [route |-> IF full THEN Tail(kept[k].route) ELSE kept[k].route, w |-> kept[k].w]])
      \* possible classes of departure: next stop and the rest of the route
      classes == {cs[k].route : k \in DOMAIN cs}
      prob(c) == RSumSeq([k \in DOMAIN cs |-> IF cs[k].route = c THEN ChoiceProb(cs, k) ELSE "0"])
      count(c) == LET is(o) == o.k = "R" /\ <<o.to>> \o o.rest = c IN SumOver(out, is, 1)
      roads(v) == {j \in DOMAIN L.links : L.links[j].to = v}
      \* destinations that count as full would keep people from leaving: not in these scenarios
      none == cs = <<>>
      walkers(j) == LET is(o) == o.k = "R" /\ o.to = L.links[j].to /\ REq(o.dol, S.MaxWalkSpeed) IN SumOver(out, is, 1)
      drivers(j) == LET is(o) == o.k = "R" /\ o.to = L.links[j].to IN SumOver(out, is, 1)
      dp == DeactP(S, st, a)
      isN(o) == o.k = "N"
      isAway(o) == o.k = "L" /\ o.from # i
  IN C("bulk.where", /\ \A x \in DOMAIN out : /\ out[x].k = "L" => out[x].from = i
                                              /\ out[x].k = "R" => out[x].from = i /\ out[x].to \in {L.links[j].to : j \in DOMAIN L.links}
                     /\ stay + gone = e.n)
     \cup C("bulk.leave", IF none THEN gone = 0 ELSE RBinomOk(gone, e.n, p))
     \cup (IF close \/ gone < 60 THEN {} ELSE
           C("bulk.route", /\ \A x \in DOMAIN out : out[x].k = "R" => (<<out[x].to>> \o out[x].rest) \in classes
                           /\ \A c \in classes : RBinomOk(count(c), gone, prob(c))))
     \cup C("bulk.speed", \A j \in DOMAIN L.links :
            Cardinality(roads(L.links[j].to)) = 1 =>
              RBinomOk(walkers(j), drivers(j), Get(L.links[j].attrs, "walk_probability", "0")))
     \cup C("bulk.sink", RBinomOk(SumOver(out, isN, 1), stay, dp))
=============================================================================
