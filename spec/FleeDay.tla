------------------------------ MODULE FleeDay ------------------------------
(***************************************************************************)
(* Is an observed day a day of FleeKernel?                                 *)
(* Persons act one after the other; where a person ended up tells whether  *)
(* they left in the morning, so the head counts every decision saw are     *)
(* known, and each person's day can be decided on its own: is there a way  *)
(* through Morning and Travel that ends in the observed state?             *)
(***************************************************************************)
EXTENDS FleeNet

OnRoad(at) == at.k \in {"K", "O"}
SameAt(x, y) == /\ x.k = y.k
                /\ CASE x.k = "L" -> x.i = y.i
                     [] x.k = "K" -> x.i = y.i /\ x.j = y.j
                     [] x.k = "O" -> x.lk.from = y.lk.from /\ x.lk.to = y.lk.to /\ REq(x.lk.dist, y.lk.dist)
                     [] OTHER -> TRUE

\* Did person a, at rest in the morning, set out?  (p: the person in the evening)
Left(a, p) == p.places > a.places \/ OnRoad(p.at)

\* Person q at the end of travel may be observed as p.
Lands(S, st, q, p) ==
  /\ IF p.at.k = "N" THEN q.at.k = "N" \/ RLt(0, DeactP(S, st, q))
     ELSE SameAt(q.at, p.at) /\ RLt(DeactP(S, st, q), 1)
  /\ q.places = p.places
  /\ q.trav = p.trav
  /\ RClose(q.dol, p.dol)
  /\ q.route = p.route
NewRecent(S, q) == RDiv(RAdd(q.recent, RDiv(q.moved, S.MaxMoveSpeed)), 2)
ClocksOK(S, q, p) ==
  /\ q.at.k = "N" \/ p.tsd = q.tsd + 1
  /\ RClose(NewRecent(S, q), p.recent)
  /\ REq(p.moved, 0)
\* The roads passed today, when the observation tells them.
HopsSeen(q, p) == "seen" \in DOMAIN p => q.hops = p.hops
TravelledOK(S, q, p) == S.agent = 0 \/ RClose(q.dtrav, p.dtrav)

One(w, occ, a) == [occ |-> occ, vis |-> w.vis, ag |-> <<a>>, ent |-> <<>>, jour |-> [n |-> 0, sum |-> 0]]

\* Morning of person k, given the head counts occ.
MorningOf(S, st, w0, occ, a, p) ==
  LET ms == Morning(S, st, One(w0, occ, a), 1)
  IN IF a.at.k # "L" THEN ms
     ELSE IF Left(a, p)
          THEN {m \in ms : /\ m.ag[1].at.k = "K"
                           /\ (p.places = a.places /\ p.at.k # "N") =>
                                SameAt(m.ag[1].at, p.at) /\ m.ag[1].route = p.route}
          ELSE {m \in ms : m.ag[1].at.k = "L" /\ m.ag[1].route = p.route}

\* Head counts before each person's morning; entry Len + 1 is noon.
RECURSIVE OccM(_, _, _, _)
OccM(occ, ag, pst, k) ==
  IF k > Len(ag) THEN <<occ>>
  ELSE <<occ>> \o OccM(IF ag[k].at.k = "L" /\ Left(ag[k], pst[k]) THEN [occ EXCEPT ![ag[k].at.i] = @ - 1] ELSE occ,
                       ag, pst, k + 1)

\* Travel of the single person in the worlds W towards the observed p: worlds that have gone further than
\* p are dropped (with known, also those that covered more ground than p's clocks tell).
RECURSIVE RunTo(_, _, _, _, _, _)
RunTo(S, st, W, p, known, ground) ==
  LET go == {w \in W : Going(w, 1)}
      ok(w) == /\ w.ag[1].places <= p.places
               /\ known => RLe(w.ag[1].moved, ground)
  IN IF go = {} THEN W
     ELSE (W \ go) \cup RunTo(S, st, {w \in UNION {Hop(S, st, v, 1) : v \in go} : ok(w)}, p, known, ground)

\* Evenings of a person compatible with p, from the mornings ms.
Evenings(S, st, vis, occ, ms, p) ==
  LET start == {[m EXCEPT !.occ = occ, !.vis = vis] : m \in ms}
      rest == {w \in start : w.ag[1].at.k \notin {"K", "O"}}
      first == UNION {Hop(S, st, w, 1) : w \in start \ rest}
      run(known, ground) == TLCEval({v \in rest \cup RunTo(S, st, first, p, known, ground) : Lands(S, st, v.ag[1], p)})
      a == (CHOOSE m \in ms : TRUE).ag[1]
      ground == RAdd(RMul(RSub(RMul(p.recent, 2), a.recent), S.MaxMoveSpeed), "0.001")
      quick == IF ms # {} /\ p.places > a.places + 2 THEN run(TRUE, ground) ELSE {}
  IN IF quick # {} THEN quick ELSE run(FALSE, "0")

AddEnt(ent, es) ==
  LET RECURSIVE Go(_, _)
      Go(f, s) == IF s = <<>> THEN f
                  ELSE Go([f EXCEPT ![Head(s)[2]] = [@ EXCEPT ![Head(s)[3]] = @ + 1]], Tail(s))
  IN Go(ent, es)

\* Who entered which road, by attributes: a bag of <<location, road, class>>, where the class of a person is
\* the first person with the same attributes.
AttrClass(ag, k) == CHOOSE c \in 1..k : ag[c].attrs = ag[k].attrs /\ \A d \in 1..(c - 1) : ag[d].attrs # ag[k].attrs
RECURSIVE AddBy(_, _, _)
AddBy(bag, es, c) ==
  IF es = <<>> THEN bag
  ELSE LET y == <<Head(es)[2], Head(es)[3], c>>
       IN AddBy([x \in DOMAIN bag \cup {y} |-> (IF x \in DOMAIN bag THEN bag[x] ELSE 0) + (IF x = y THEN 1 ELSE 0)], Tail(es), c)

\* Totals that the evening's counts of entries still allow: counts only grow.  If there are none, the counts of entries
\* are wrong, which is for others to say.
Within(zs, lim) ==
  LET ok(z) == \A i \in DOMAIN lim : \A j \in DOMAIN lim[i] : z.ent[i][j] <= lim[i][j]
      Z == {z \in zs : ok(z)}
  IN IF Cardinality(zs) < 2 THEN zs ELSE IF Z = {} THEN {CHOOSE z \in zs : TRUE} ELSE Z

\* Fold over the persons; a fold state is [zs, bad]: the possible totals and the failing clauses so far.
RECURSIVE FoldDay(_, _, _, _, _, _, _, _, _, _)
FoldDay(S, st, w0, om, vis2, ag, pst, lim, k, F) ==
  IF k > Len(ag) THEN F
  ELSE
    LET a == ag[k]  p == pst[k]
        ms == TLCEval(MorningOf(S, st, w0, om[k], a, p))
        seen(V) == LET G == {v \in V : HopsSeen(v.ag[1], p)} IN IF G = {} THEN V ELSE G
        ev == TLCEval([o \in {z.occ : z \in F.zs} |-> seen(Evenings(S, st, vis2, o, ms, p))])
        pairs == TLCEval(UNION {{<<z, v>> : v \in ev[z.occ]} : z \in F.zs})
        all == {x[2] : x \in pairs}
        zs2 == TLCEval(Within({[by |-> IF S.link > 1 THEN AddBy(x[1].by, x[2].ent, AttrClass(ag, k)) ELSE <<>>,
                         occ |-> x[2].occ, ent |-> AddEnt(x[1].ent, x[2].ent),
                         jour |-> [n |-> x[1].jour.n + x[2].jour.n, sum |-> x[1].jour.sum + x[2].jour.sum]] : x \in pairs}, lim))
        bad == TLCEval(IF ms = {} THEN {"evolve.depart"}
               ELSE IF zs2 = {} THEN {"evolve.travel"}
               ELSE (IF \E v \in all : ClocksOK(S, v.ag[1], p) THEN {} ELSE {"evolve.clocks"})
                    \cup (IF \E v \in all : HopsSeen(v.ag[1], p) THEN {} ELSE {"evolve.hops"})
                    \cup (IF \E v \in all : TravelledOK(S, v.ag[1], p) THEN {} ELSE {"evolve.dtrav"}))
        who == IF bad = {} THEN F.who ELSE F.who \cup {k}
    IN IF zs2 = {} THEN [F EXCEPT !.bad = @ \cup bad, !.who = who, !.full = FALSE]
       ELSE FoldDay(S, st, w0, om, vis2, ag, pst, lim, k + 1, [zs |-> zs2, bad |-> F.bad \cup bad, who |-> who, full |-> TRUE])

\* The whole day: st (with scores, routes and occ of the day), persons before and after, entries of roads seen.
DayOf(S, st, ag, pst, lim) ==
  LET w0 == TLCEval(StartWorld(st, ag))
      om == TLCEval(OccM(w0.occ, ag, pst, 1))
      noon == om[Len(ag) + 1]
      z0 == TLCEval([occ |-> noon, jour |-> [n |-> 0, sum |-> 0], by |-> <<>>,
                     ent |-> [i \in DOMAIN st.locs |-> [j \in DOMAIN st.locs[i].links |-> 0]]])
  IN FoldDay(S, st, w0, om, noon, ag, pst, lim, 1, [zs |-> {z0}, bad |-> {}, who |-> {}, full |-> TRUE])
=============================================================================
