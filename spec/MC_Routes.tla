----------------------------- MODULE MC_Routes -----------------------------
(***************************************************************************)
(* The routes over which a person plans, on every network of four places.  *)
(* Roads may be closed in one direction.  The networks are printed.        *)
(***************************************************************************)
EXTENDS FleeBase, Json

CONSTANT OneWay       \* are there roads that are closed in one direction?
Places == 1..4
Pairs == {<<1, 2>>, <<1, 3>>, <<1, 4>>, <<2, 3>>, <<2, 4>>, <<3, 4>>}
Dist == (<<1, 2>> :> 10) @@ (<<1, 3>> :> 21) @@ (<<1, 4>> :> 43) @@ (<<2, 3>> :> 87) @@ (<<2, 4>> :> 171) @@ (<<3, 4>> :> 341)

VARIABLES roads, markers, aware      \* directed roads, marker places, awareness level
vars == <<roads, markers, aware>>
Init == /\ \E E \in SUBSET Pairs, x \in Pairs \cup {<<0, 0>>} :
             /\ x # <<0, 0>> => OneWay /\ x \in E
             /\ roads = E \cup {<<e[2], e[1]>> : e \in E \ {x}}
        /\ markers \in SUBSET Places /\ aware \in 1..3
        /\ PrintT("I|" \o ToJson([roads |-> roads, markers |-> markers, aware |-> aware]))
Next == UNCHANGED vars

Len2(i, j) == Dist[IF <<i, j>> \in Pairs THEN <<i, j>> ELSE <<j, i>>]
RECURSIVE Listing(_, _)
Listing(i, js) == IF js = {} THEN <<>> ELSE LET j == CHOOSE x \in js : \A y \in js : x <= y
                                           IN <<[from |-> i, to |-> j, dist |-> ToString(Len2(i, j))]>> \o Listing(i, js \ {j})
Locs == [i \in Places |-> [marker |-> i \in markers, links |-> Listing(i, {j \in Places : <<i, j>> \in roads})]]
S == [AwarenessLevel |-> aware]

\* Loop-free walks along roads that end elsewhere than at a marker, and stop at most "aware" times
Walks(u) == {p \in UNION {[1..n -> Places] : n \in 2..4} :
   /\ p[1] = u
   /\ \A k \in 1..(Len(p) - 1) : <<p[k], p[k + 1]>> \in roads
   /\ \A j, k \in DOMAIN p : j # k => p[j] # p[k]
   /\ p[Len(p)] \notin markers
   /\ Cardinality({k \in 2..Len(p) : p[k] \notin markers}) <= aware}
RECURSIVE Total(_)
Total(p) == IF Len(p) < 2 THEN 0 ELSE Len2(p[1], p[2]) + Total(Tail(p))
Exact == \A u \in Places :
  LET rs == RoutesFrom(S, Locs, u) IN
  /\ {rs[k].route : k \in DOMAIN rs} = Walks(u)
  /\ Len(rs) = Cardinality(Walks(u))
  /\ \A k \in DOMAIN rs : REq(rs[k].dist, Total(rs[k].route))
\* With more awareness there is nothing less to choose from.
Grows == \A u \in Places : {r.route : r \in Range(RoutesFrom(S, Locs, u))} \subseteq
                           {r.route : r \in Range(RoutesFrom([AwarenessLevel |-> aware + 1], Locs, u))}
=============================================================================
