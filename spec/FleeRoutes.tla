----------------------------- MODULE FleeRoutes -----------------------------
(***************************************************************************)
(* Location-based routing (fixed_routes): every day each location that is  *)
(* not a marker offers the best route to every place within reach, and     *)
(* major routes to places that are not otherwise offered.                  *)
(*                                                                         *)
(* An offer is a record [dest, w, route], route without the origin.        *)
(***************************************************************************)
EXTENDS FleeObs

\* Attractiveness of a location, the same for everybody.
LocScore(S, L) == IF S.FloodRulesEnabled THEN RMul(L.score, FloodWeight(S, L)) ELSE R(L.score)
OfferWeight(S, L, d) ==
  RPow(RDiv(RAdd(S.WeightSoftening, LocScore(S, L)), RPow(d, S.DistancePower)), S.WeightPower)

\* All ways to reach other places, as offers.
Ways(S, st, u) ==
  LET rs == TLCEval(RoutesFrom(S, st.locs, u))
  IN TLCEval([k \in DOMAIN rs |-> [dest |-> Last(rs[k].route), route |-> Tail(rs[k].route),
                                    w |-> OfferWeight(S, st.locs[Last(rs[k].route)], RAdd(S.DistanceSoftening, rs[k].dist))]])
Weighty(ws) == LET pos(w) == RLt(0, w.w) IN SelectSeq(ws, pos)
Dests(ws) == {ws[k].dest : k \in DOMAIN ws}
To(ws, d) == LET to(w) == w.dest = d IN SelectSeq(ws, to)
Best(ws) == LET m == RMaxSeq([k \in DOMAIN ws |-> ws[k].w]) IN {k \in DOMAIN ws : RClose(ws[k].w, m)}

\* Length of the walk p from location u along open roads, the first one that leads to each stop; -1 if there is none.
RECURSIVE Walk(_, _, _)
Walk(locs, u, p) ==
  IF p = <<>> THEN "0"
  ELSE LET js == {j \in DOMAIN locs[u].links : locs[u].links[j].to = Head(p)}
           j == CHOOSE x \in js : \A y \in js : x <= y
           rest == Walk(locs, Head(p), Tail(p))
       IN IF js = {} \/ RLt(rest, 0) THEN "-1" ELSE RAdd(locs[u].links[j].dist, rest)

\* Major routes of the location itself and of the places it offers (offers: what is offered regularly).
MajorWays(S, st, u, offers) ==
  LET hubs == <<[dest |-> u, route |-> <<>>]>> \o [k \in DOMAIN offers |-> [dest |-> offers[k].dest, route |-> offers[k].route]]
      from(h) == LET ms == st.locs[h.dest].major IN [x \in DOMAIN ms |-> h.route \o ms[x]]
      all == TLCEval(Flatten([k \in DOMAIN hubs |-> from(hubs[k])]))
      new(p) == p # <<>> /\ Last(p) # u /\ Last(p) \notin Dests(offers) /\ ~RLt(Walk(st.locs, u, p), 0)
      open == TLCEval(SelectSeq(all, new))
  IN TLCEval([k \in DOMAIN open |-> [dest |-> Last(open[k]), route |-> open[k],
                 w |-> OfferWeight(S, st.locs[Last(open[k])], RDiv(RAdd(S.DistanceSoftening, Walk(st.locs, u, open[k])), 4))]])

\* The offers of location u are right (st: with the scores of the day).
Offers(S, st, u, offers) ==
  IF st.locs[u].marker \/ S.AwarenessLevel = 0 THEN C("fixed.none", offers = <<>>)
  ELSE
    LET ways == TLCEval(Weighty(Ways(S, st, u)))
        near == Dests(ways)
        isNear(o) == o.dest \in near
        isFar(o) == o.dest \notin near
        regular == TLCEval(SelectSeq(offers, isNear))
        major == TLCEval(SelectSeq(offers, isFar))
        far == TLCEval(Weighty(MajorWays(S, st, u, regular)))
        right(o, ws, Same(_, _)) ==
           LET c == TLCEval(To(ws, o.dest)) IN
           c # <<>> /\ \E k \in Best(c) : Same(o.route, c[k].route) /\ RClose(o.w, c[k].w)
        equal(x, y) == x = y
        cut(x, y) == x = y \/ x = Tail(y)
    IN C("fixed.places", Dests(regular) = near /\ Len(regular) = Cardinality(near))
       \cup C("fixed.best", \A k \in DOMAIN regular : right(regular[k], ways, equal))
       \cup C("fixed.majorplaces", Dests(major) = Dests(far) /\ Len(major) = Cardinality(Dests(far)))
       \cup C("fixed.major", \A k \in DOMAIN major : right(major[k], far, cut))
       \cup C("fixed.firsthop", \A k \in DOMAIN major : right(major[k], far, cut) => right(major[k], far, equal))

FixedRoutesOK(S, st, st2) ==
  IF ~S.FixedRoutes THEN {} ELSE UNION {Offers(S, st, u, st2.locs[u].routes) : u \in DOMAIN st.locs}

\* Many newcomers of one place: they choose among the offers; a route that does not start with an open road is given up.
BulkFixed(S, st, st2, e) ==
  LET i == e.i
      now == [t |-> st.t, par |-> st.par, locs |-> [x \in DOMAIN st.locs |-> [st.locs[x] EXCEPT !.score = st2.locs[x].score, !.routes = st2.locs[x].routes]]]
      a == Newcomer(i, e.attrs)
      occ == [x \in DOMAIN st.locs |-> IF x = i THEN e.n ELSE st.locs[x].n]
      p == MoveChance(S, st.locs[i], a, FALSE, st.t)
      cs == TLCEval(CandidateRoutes(S, now, a, occ, i, st.t))
      ends == {st.locs[i].links[j].to : j \in DOMAIN st.locs[i].links}
      out == e.ret
      isGone(o) == o.k = "R"
      gone == SumOver(out, isGone, 1)
      classes == {cs[k].route : k \in DOMAIN cs}
      prob(c) == RSumSeq([k \in DOMAIN cs |-> IF cs[k].route = c THEN ChoiceProb(cs, k) ELSE "0"])
      go(c) == IF c[1] \in ends THEN RMul(p, prob(c)) ELSE "0"
      count(c) == LET is(o) == o.k = "R" /\ <<o.to>> \o o.rest = c IN SumOver(out, is, 1)
  IN C("bulk.where", \A x \in DOMAIN out : out[x].k = "R" => out[x].from = i /\ (<<out[x].to>> \o out[x].rest) \in classes)
     \cup C("bulk.route", \A c \in classes : RBinomOk(count(c), e.n, go(c)))
     \cup FixedRoutesOK(S, now, st2)
=============================================================================
