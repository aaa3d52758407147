----------------------------- MODULE MC_Interp -----------------------------
(***************************************************************************)
(* Fields of every short table of registrations.                           *)
(***************************************************************************)
EXTENDS FleeData, Json

CONSTANTS LastDay, Counts
VARIABLES tab
DaySets == {d \in SUBSET (-1..LastDay) : d # {} /\ Cardinality(d) <= 3}
Init == /\ \E ds \in DaySets : LET q == SortedDays(ds) IN \E c \in [DOMAIN q -> Counts] : tab = [k \in DOMAIN q |-> <<q[k], ToString(c[k])>>]
        /\ PrintT("I|" \o ToJson(tab))
Next == UNCHANGED tab

D == [h |-> <<"x">>, t |-> <<tab>>, d0 |-> <<>>, empty |-> FALSE]
F(d, full) == Field(D, "x", d, full)
Range0 == -3..(LastDay + 3)
Cnt(k) == RTrunc(tab[k][2])
\* The registered value on dated rows, constant before and after
Dates == \A k \in DOMAIN tab : \A full \in BOOLEAN : RTrunc(Exact(tab, tab[k][1])) = Cnt(k) /\ Cnt(k) \in F(tab[k][1], full)
Ends == \A d \in Range0 : /\ d < tab[1][1] => REq(Exact(tab, d), tab[1][2]) /\ Registered(tab, d) = tab[1][2]
                          /\ d > Last(tab)[1] => REq(Exact(tab, d), Last(tab)[2]) /\ Registered(tab, d) = Last(tab)[2]
\* Between two rows: between their values, in equal steps; without interpolation the earlier one
Between == \A d \in Range0 : \A k \in DOMAIN tab : (k < Len(tab) /\ tab[k][1] < d /\ d < tab[k + 1][1]) =>
  LET lo == RMin(tab[k][2], tab[k + 1][2])  hi == RMax(tab[k][2], tab[k + 1][2]) IN
  /\ RLe(lo, Exact(tab, d)) /\ RLe(Exact(tab, d), hi)
  /\ REq(RSub(Exact(tab, d), Exact(tab, d - 1)), RSub(Exact(tab, d + 1), Exact(tab, d)))
  /\ Registered(tab, d) = tab[k][2]
=============================================================================
