---------------------------- MODULE MC_Timeline ----------------------------
(***************************************************************************)
(* Every conflict timeline of a place over a few days, from a table or     *)
(* from a date in the locations file, and every change of its type.        *)
(***************************************************************************)
EXTENDS FleeInput, Json

CONSTANTS NumDays, Values, ChangeTypes
VARIABLES tab, type, date, chg, t, locs
vars == <<tab, type, date, chg, t, locs>>

S == TLCEval(Settings(<<>>))
Place(n, k) == [name |-> n, country |-> "P", links |-> <<>>, closed |-> <<>>, attrs |-> [z \in {} |-> ""], toc |-> 0] @@ KindOf(S, k, <<>>)
Table == <<<<"#Day", "Alpha">>>> \o [d \in 1..NumDays |-> <<ToString(d - 1), tab[d]>>]
Listing == <<<<"Alpha", "", "P", "0", "0", type, ToString(date), "">>, <<"Beta", "", "P", "0", "0", "town", "0", "">>>>
Chg == IF chg = <<>> THEN <<>> ELSE <<<<"Alpha", chg[1], ToString(chg[2])>>>>

Init ==
  /\ type \in {"town", "conflict_zone"}
  /\ \/ tab \in [1..NumDays -> Values] /\ date = 0
     \/ tab = <<>> /\ date \in 0..(NumDays - 1)
  /\ chg \in {<<>>} \cup {<<k, d>> : k \in ChangeTypes, d \in 0..(NumDays - 1)}
  /\ t = -1
  /\ locs = <<Place("Alpha", IF tab = <<>> /\ date > 0 THEN "town" ELSE type), Place("Beta", "town")>>
  /\ PrintT("I|" \o ToJson([tab |-> tab, type |-> type, date |-> date, chg |-> chg, days |-> NumDays]))
Next ==
  /\ t < NumDays - 1
  /\ t' = t + 1
  /\ LET l1 == Changes(S, locs, Chg, t')
         r == [locs |-> l1, w |-> FALSE]
     IN locs' = (IF tab = <<>> THEN Dated(S, r, Listing, t', t') ELSE Tabled(S, r, Table, 1, t', t')).locs
  /\ UNCHANGED <<tab, type, date, chg>>

On(d) == Positive(tab[d + 1])
\* In conflict exactly while the table says so (a place listed as a conflict zone is one until its conflict ends)
ByTable == tab # <<>> /\ chg = <<>> /\ t >= 0 =>
  LET L == locs[1]
      since == {d \in 0..t : On(d) /\ \A e \in d..t : On(e)}
      start == CHOOSE d \in since : \A e \in since : d <= e
  IN IF On(t) THEN /\ InConflict(L) /\ ~L.town /\ REq(L.mc, S.ConflictMoveChance)
                   /\ L.toc = start /\ REq(L.conflict, tab[start + 1])
     ELSE IF \E d \in 0..t : On(d) \/ type = "town" THEN ~InConflict(L) /\ L.town /\ REq(L.mc, S.DefaultMoveChance)
     ELSE InConflict(L)
ByDate == tab = <<>> /\ chg = <<>> /\ t >= 0 =>
  LET L == locs[1] IN
  IF type = "conflict_zone" /\ t >= date THEN InConflict(L) /\ ~L.town /\ L.toc = date ELSE ~InConflict(L) /\ L.town
\* A change of type takes effect on its day (conflicts may go on or start again afterwards).
ByChange == chg # <<>> /\ t = chg[2] /\ (tab = <<>> \/ ~On(t)) /\ (tab = <<>> => date # t) =>
  LET L == locs[1]  k == KindOf(S, chg[1], <<>>) IN
  (tab = <<>> \/ t = 0 \/ ~On(t - 1)) => REq(L.mc, k.mc) /\ L.camp = k.camp /\ L.town = k.town /\ L.fwd = k.fwd
Untouched == SameKind(locs[2], Place("Beta", "town"))
=============================================================================
