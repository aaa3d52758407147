----------------------------- MODULE FleeKernel -----------------------------
(***************************************************************************)
(* One day of the displacement model as a nondeterministic transition.     *)
(*                                                                         *)
(* A world is the state within a day:                                      *)
(*   occ   head count of every location                                    *)
(*   vis   head count that decisions see (live in serial mode, frozen      *)
(*         within a phase in parallel mode)                                *)
(*   ag    the persons, in order                                           *)
(*   ent   the roads entered today: <<person, location, road>>             *)
(*   jour  [n, sum] arrivals at camps today and their days since departure *)
(* Every operator maps a world to the set of possible next worlds.         *)
(* Person: [at, home, tsd, places, recent, moved, trav, dol, route, attrs, *)
(*          dtrav, hops]; at is [k |-> "L", i, ...] at location i,         *)
(*          "K" on open road j of location i, "O" on a road lk that is no  *)
(*          longer part of the open network, "N" deactivated.              *)
(***************************************************************************)
EXTENDS FleeBase

AtLoc(i) == [k |-> "L", i |-> i, j |-> 0, lk |-> <<>>]
AtRoad(i, j) == [k |-> "K", i |-> i, j |-> j, lk |-> <<>>]
RoadOf(st, at) == IF at.k = "K" THEN st.locs[at.i].links[at.j] ELSE at.lk
RoadStart(at) == IF at.k = "K" THEN at.i ELSE at.lk.from

Seen(st, w) == IF st.par THEN w.vis ELSE w.occ

\* Leave the current location on route r, if that is possible.
Depart(S, st, w, k, r) ==
  LET a == w.ag[k]
      u == a.at.i
      js == IF r = <<>> THEN {} ELSE {j \in 1..Len(st.locs[u].links) : st.locs[u].links[j].to = r[1]}
      stay == [w EXCEPT !.ag[k].route = <<>>]
      enter(j) == [w EXCEPT !.occ[u] = @ - 1, !.ag[k].at = AtRoad(u, j), !.ag[k].trav = TRUE,
                            !.ag[k].dol = "0", !.ag[k].route = Tail(r), !.ent = Append(@, <<k, u, j>>)]
  IN IF js = {} THEN {stay}
     ELSE UNION {IF full THEN {stay} ELSE {enter(j) : j \in js}
                 : full \in FullAnswers(S, st.locs[Last(r)], Seen(st, w)[Last(r)])}

\* Decide whether to leave, and where to.
Decide(S, st, w, k, force) ==
  LET a == w.ag[k]
      u == a.at.i
      p == TLCEval(MoveChance(S, st.locs[u], a, force, st.t))
      stay == IF RLt(p, 1) THEN {w} ELSE {}
      rs == IF a.route # <<>> THEN {a.route}
            ELSE LET c == TLCEval(Choosable(CandidateRoutes(S, st, a, Seen(st, w), u, st.t)))
                 IN IF c = {} THEN {<<>>} ELSE c
      go == IF RLt(0, p) THEN UNION {Depart(S, st, w, k, r) : r \in rs} ELSE {}
  IN stay \cup go

\* Start of the day.
Morning(S, st, w, k) ==
  IF w.ag[k].at.k = "L" THEN Decide(S, st, w, k, FALSE) ELSE {w}

\* One stretch of travel of a person on a road: to its end or to the end of the day; on arrival with
\* time left the person decides again.
Hop(S, st, w, k) ==
  LET a == w.ag[k]
      lk == RoadOf(st, a.at)
      v0 == Get(lk.attrs, "max_move_speed", S.MaxMoveSpeed)
      v1 == IF a.places = 1 /\ S.StartOnFoot THEN S.MaxWalkSpeed ELSE v0
      wp == Get(lk.attrs, "walk_probability", "0")
      speeds == (IF RLt(wp, 1) THEN {R(v1)} ELSE {}) \cup (IF RLt(0, wp) THEN {R(S.MaxWalkSpeed)} ELSE {})
      step(v) ==
        LET dol == RAdd(a.dol, v)
            far == RAdd(a.moved, v)
            moved == TLCEval(RAdd(far, RSub(lk.dist, dol)))
            back == RoadStart(a.at)
        IN IF ~RLt(lk.dist, dol)
           THEN {[w EXCEPT !.ag[k].dol = dol, !.ag[k].moved = far]}
           ELSE IF lk.closed
           THEN {[w EXCEPT !.occ[back] = @ + 1, !.ag[k].at = AtLoc(back), !.ag[k].trav = FALSE,
                           !.ag[k].dol = "0", !.ag[k].moved = moved, !.ag[k].places = @ + 1,
                           !.ag[k].dtrav = RAdd(@, lk.dist)]}
           ELSE
             LET more == RLt(moved, v)
                 camp == S.camp > 0 /\ st.locs[lk.to].camp
                 w2 == [w EXCEPT !.occ[lk.to] = @ + 1, !.ag[k].at = AtLoc(lk.to), !.ag[k].trav = FALSE,
                                 !.ag[k].dol = "0", !.ag[k].moved = moved, !.ag[k].places = @ + 1,
                                 !.ag[k].dtrav = RAdd(@, lk.dist),
                                 !.ag[k].hops = IF more THEN Append(@, <<back, lk.to>>) ELSE @,
                                 !.jour = IF camp THEN [n |-> @.n + 1, sum |-> @.sum + a.tsd] ELSE @]
                 force == S.AvoidShortStints /\
                          RLt(RDiv(RAdd(a.recent, RDiv(moved, S.MaxMoveSpeed)), 2), "0.5")
             IN IF more THEN Decide(S, st, w2, k, force) ELSE {w2}
  IN UNION {step(v) : v \in speeds}

\* Has person k another stretch before them today?  (those who stay on a road at night have covered some of it)
Going(w, k) == w.ag[k].at.k \in {"K", "O"} /\ w.ag[k].dol = "0"

\* The rest of the day of a person on a road.
RECURSIVE TravelOn(_, _, _, _)
TravelOn(S, st, W, k) ==
  LET go == {w \in W : Going(w, k)}
  IN IF go = {} THEN W ELSE (W \ go) \cup TravelOn(S, st, UNION {Hop(S, st, w, k) : w \in go}, k)
Travel(S, st, w, k) ==
  IF w.ag[k].at.k \in {"K", "O"} THEN TravelOn(S, st, Hop(S, st, w, k), k) ELSE {w}

\* End of the day: personal clocks.
Clocks(S, st, w) ==
  [w EXCEPT !.ag = [k \in DOMAIN @ |->
     LET a == @[k] IN
     [a EXCEPT !.tsd = IF a.at.k = "N" THEN @ ELSE @ + 1,
               !.recent = RDiv(RAdd(@, RDiv(a.moved, S.MaxMoveSpeed)), 2),
               !.moved = "0"]]]

\* Deactivation in camps that are sinks: the possible fates of person a at the end of the day.
DeactP(S, st, a) ==
  IF S.camps_are_sinks /\ a.at.k = "L" /\ st.locs[a.at.i].camp
  THEN R(Get(st.locs[a.at.i].attrs, "deactivation_probability", "0")) ELSE "0"

StartWorld(st, ag) ==
  [ occ |-> [i \in DOMAIN st.locs |-> st.locs[i].occ],
    vis |-> [i \in DOMAIN st.locs |-> st.locs[i].n],
    ag |-> [k \in DOMAIN ag |-> [ag[k] EXCEPT !.hops = <<>>]],
    ent |-> <<>>, jour |-> [n |-> 0, sum |-> 0] ]

Noon(w) == [w EXCEPT !.vis = w.occ]

\* All possible days, for exhaustive exploration.
RECURSIVE Fold(_, _, _, _)
Fold(Op(_, _), W, k, n) == IF k > n THEN W ELSE Fold(Op, UNION {Op(w, k) : w \in W}, k + 1, n)
Days(S, st, ag) ==
  LET mo(w, k) == Morning(S, st, w, k)
      tr(w, k) == Travel(S, st, w, k)
      W1 == Fold(mo, {StartWorld(st, ag)}, 1, Len(ag))
      W2 == Fold(tr, {Noon(w) : w \in W1}, 1, Len(ag))
  IN {Clocks(S, st, w) : w \in W2}
=============================================================================
