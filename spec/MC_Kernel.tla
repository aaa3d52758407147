----------------------------- MODULE MC_Kernel -----------------------------
(***************************************************************************)
(* All possible courses of a small displacement crisis over a few days:    *)
(* a conflict zone, a town and a small camp, with a road that may close    *)
(* and reopen, serial or in phases as on several ranks.  Each combination  *)
(* of rules is an initial state.                                           *)
(***************************************************************************)
EXTENDS FleeNet, Json

CONSTANTS People, LastDay, Speeds, Lengths, Awareness
VARIABLES c, t, locs, ag, dead, born, last
vars == <<c, t, locs, ag, dead, born, last>>
\* c: the case; dead[i]: deactivated at i; born[k]: day on which person k entered; last: [ent, jour, ag] of the last day

Yaml(x) == [move_rules |-> [max_move_speed |-> x.v, max_walk_speed |-> "40", awareness_level |-> x.aw, conflict_movechance |-> "1",
                            default_movechance |-> "0.5", camp_movechance |-> "0", start_on_foot |-> x.foot, avoid_short_stints |-> x.shorty],
            spawn_rules |-> [camps_are_sinks |-> x.sink], log_levels |-> [camp |-> 1]]
S == TLCEval(Settings(Yaml(c)))
Road(i, j, d) == [from |-> i, to |-> j, dist |-> d, closed |-> FALSE, forced |-> FALSE, n |-> 0, nr |-> 0, cum |-> 0, attrs |-> <<>>]
Place(n, k, cap, at, ls) == [name |-> n, country |-> "P", x |-> "0", y |-> "0", links |-> ls, closed |-> <<>>, attrs |-> at, toc |-> 0, n |-> 0, occ |-> 0,
                         pop |-> "0", cap |-> cap, foreign |-> FALSE, routes |-> <<>>, score |-> "1"] @@ KindOf(S, k, <<>>)
Person(i) == [at |-> AtLoc(i), home |-> i, tsd |-> 0, places |-> 1, recent |-> "0", moved |-> "0", trav |-> FALSE, dol |-> "0",
              route |-> <<>>, attrs |-> <<>>, dtrav |-> "0", hops |-> <<>>]
Cases == [v : Speeds, d1 : Lengths, d2 : Lengths, aw : Awareness, foot : BOOLEAN, shorty : BOOLEAN, sink : BOOLEAN, par : BOOLEAN, shut : {0, 1, 2}]
\* shut: 0 the road stays open; 1 it closes before day 1 (both ways); 2 it closes before day 1 and reopens before day 2

Init ==
  /\ c \in Cases
  /\ t = 0 /\ dead = <<0, 0, 0>>
  /\ ag = [k \in 1..People |-> Person(1)]
  /\ born = [k \in 1..People |-> 0]
  /\ locs = << [Place("A", "conflict_zone", "0", <<>>, <<Road(1, 2, c.d1)>>) EXCEPT !.n = People],
               Place("B", "town", "0", <<>>, <<Road(2, 1, c.d1), Road(2, 3, c.d2)>>),
               Place("C", "camp", "2", [deactivation_probability |-> "0.5"], <<Road(3, 2, c.d2)>>) >>
  /\ last = [ent |-> <<>>, jour |-> [n |-> 0, sum |-> 0], ag |-> <<>>, from |-> <<>>, locs |-> <<>>]
  /\ PrintT("I|" \o ToJson(c))

\* Closing the road between A and B: those on it keep to the old, closed road.
AB(i, r) == (i = 1 /\ r.to = 2) \/ (i = 2 /\ r.to = 1)
Shut(x) == [x EXCEPT !.closed = TRUE, !.nr = 0]
\* the road of the same destination after a change of the network
Again(old, new, a) ==
  IF a.at.k # "K" THEN a
  ELSE LET r == old[a.at.i].links[a.at.j]
           js == {j \in DOMAIN new[a.at.i].links : new[a.at.i].links[j].to = r.to}
       IN IF js = {} THEN [a EXCEPT !.at = [k |-> "O", i |-> 0, j |-> 0, lk |-> Shut(r)]]
          ELSE [a EXCEPT !.at = AtRoad(a.at.i, CHOOSE j \in js : TRUE)]
Network == IF t = 1 /\ c.shut > 0 THEN CloseRoads(locs, AB) ELSE IF t = 2 /\ c.shut = 2 THEN ReopenRoads(locs, AB) ELSE locs

Next ==
  /\ t < LastDay
  /\ \E w \in LET net == Network
                  ls == [i \in DOMAIN net |-> [net[i] EXCEPT !.occ = net[i].n, !.score = Score(S, net[i], t)]]
                  st == [t |-> t, locs |-> ls, par |-> c.par]
                  a0 == [k \in DOMAIN ag |-> Again(locs, net, ag[k])]
              IN {<<net, a0, d>> : d \in Days(S, st, a0)} :
       \E gone \in SUBSET {k \in DOMAIN ag : w[3].ag[k].at.k # "N" /\ RLt(0, DeactP(S, [locs |-> w[1]], w[3].ag[k]))} :
         /\ ag' = [k \in DOMAIN ag |-> IF k \in gone THEN [w[3].ag[k] EXCEPT !.at = [k |-> "N", i |-> 0, j |-> 0, lk |-> <<>>]] ELSE w[3].ag[k]]
         /\ dead' = [i \in DOMAIN dead |-> dead[i] + Cardinality({k \in gone : w[3].ag[k].at.i = i})]
         /\ locs' = [i \in DOMAIN locs |-> [w[1][i] EXCEPT !.n = w[3].occ[i]]]
         /\ last' = [ent |-> w[3].ent, jour |-> w[3].jour, ag |-> w[2], from |-> [i \in DOMAIN locs |-> locs[i].n], locs |-> w[1]]
  /\ t' = t + 1 /\ UNCHANGED <<c, born>>

At(i) == Cardinality({k \in DOMAIN ag : ag[k].at.k = "L" /\ ag[k].at.i = i})
On(at) == at.k \in {"K", "O"}
\* Nobody is lost or duplicated, and head counts tell who is there (the deactivated are counted on).
Counts == \A i \in DOMAIN locs : locs[i].n = At(i) + dead[i]
Everybody == /\ Len(ag) = People
             /\ Cardinality({k \in DOMAIN ag : ag[k].at.k = "N"}) = ISumSeq(dead)
             /\ \A k \in DOMAIN ag : /\ ag[k].trav = On(ag[k].at)
                                     /\ ag[k].at.k = "K" => ag[k].at.j \in DOMAIN locs[ag[k].at.i].links
Sinks == (~c.sink => dead = <<0, 0, 0>>) /\ dead[1] = 0 /\ dead[2] = 0
Clocks2 == \A k \in DOMAIN ag : /\ ag[k].at.k # "N" => ag[k].tsd = t
                                /\ REq(ag[k].moved, 0) /\ RLe(0, ag[k].recent)
\* Whoever is still on a road has not covered more than its length.
NotThere == \A k \in DOMAIN ag : On(ag[k].at) =>
  LET r == RoadOf([locs |-> locs], ag[k].at) IN RLe(ag[k].dol, r.dist) /\ RLt(0, ag[k].dol)
\* On the first road: the distance is the days under way times the speed of the first journey.
FirstRoad == \A k \in DOMAIN ag :
  (ag[k].places = 1 /\ On(ag[k].at)) => REq(ag[k].dol, RMul(t, IF c.foot THEN "40" ELSE c.v))
ArrivedInTime == \A k \in DOMAIN ag : LET v == IF c.foot THEN "40" ELSE c.v IN
  (RLt(c.d1, RMul(t, v)) /\ ag[k].at.k # "N") => ag[k].places > 1
Distances == \A k \in DOMAIN ag : ag[k].places = 1 <=> REq(ag[k].dtrav, 0)
\* Those who were on the road when it closed come back to where they set out, and travel no further that day.
Back == \A k \in DOMAIN last.ag : last.ag[k].at.k = "O" =>
  LET o == last.ag[k].at.lk IN
  \/ ag[k].at.k = "O" /\ ag[k].places = last.ag[k].places
  \/ /\ ag[k].at.k = "L" /\ ag[k].at.i = o.from /\ ag[k].places = last.ag[k].places + 1
  \/ ag[k].at.k = "N"
\* Nobody enters a closed road, and nobody sets out for a camp that was full from the start.
Entering == \A x \in Range(last.ent) : LET r == last.locs[x[2]].links[x[3]] IN
  /\ ~r.closed
  /\ (r.to = 3 => RLt("0.499", CapMult(S, last.locs[3], last.from[3])))
Arrivals2 == /\ last.jour.n <= People
             /\ last.jour.n >= Cardinality({k \in DOMAIN last.ag : last.ag[k].at.k # "L" /\ last.ag[k].at.k # "N" /\ ag[k].at.k = "L" /\ ag[k].at.i = 3})
\* (for checking that these situations do occur)
NeverBoth == last.jour.n < 2
NeverCut == \A k \in DOMAIN ag : ag[k].at.k # "O"
NeverDead == dead[3] = 0
NeverFull == locs[3].n < 2
NeverHome == \A k \in DOMAIN last.ag : last.ag[k].at.k = "O" => ag[k].at.k # "L"
=============================================================================
