---------------------------- MODULE MC_Schedule ----------------------------
(***************************************************************************)
(* Every schedule of at most two entries on the network of MC_Roads, day   *)
(* by day.  The schedules are printed (I|...) for the implementation.      *)
(***************************************************************************)
EXTENDS FleeNet, Json

CONSTANTS Starts, Ends
VARIABLES cs, tw, t, locs
vars == <<cs, tw, t, locs>>

S == TLCEval(Settings(<<>>))
Road(i, j, d, f) == [from |-> i, to |-> j, dist |-> d, closed |-> FALSE, forced |-> f, n |-> 0, nr |-> 0, cum |-> 0, attrs |-> <<>>]
Place(n, c, k, ls) == [name |-> n, country |-> c, links |-> ls, closed |-> <<>>, attrs |-> <<>>, toc |-> 0] @@ KindOf(S, k, <<>>)
Locs0 == << Place("Alpha", "P", "town", <<Road(1, 2, "100", TRUE), Road(1, 3, "250", FALSE), Road(1, 2, "80", TRUE)>>),
            Place("Beta",  "P", "town", <<Road(2, 1, "100", FALSE), Road(2, 3, "300", FALSE), Road(2, 1, "80", FALSE)>>),
            Place("Gamma", "Q", "camp", <<Road(3, 1, "250", FALSE), Road(3, 2, "300", FALSE)>>) >>
Things == { <<"country", "P", "Q">>, <<"country", "Q", "P">>, <<"location", "Beta", "-">>, <<"link", "Alpha", "Beta">>,
            <<"link", "Gamma", "Alpha">>, <<"camp", "Gamma", "-">>, <<"idpcamp", "Gamma", "-">>,
            <<"remove_forced_redirection", "Alpha", "Beta">> }
Entries == {x \o <<a, b>> : x \in Things, a \in Starts, b \in Ends}
Final == CHOOSE x \in Starts \cup Ends : \A y \in Starts \cup Ends : y <= x

Init == /\ \E x \in Entries : cs = <<x>> \/ \E y \in Entries : cs = <<x, y>>
        /\ tw \in BOOLEAN /\ t = -1 /\ locs = Locs0
        /\ PrintT("I|" \o ToJson([cs |-> cs, tw |-> tw]))
Next == /\ t < Final
        /\ t' = t + 1 /\ locs' = Enact(S, locs, cs, t', tw)
        /\ UNCHANGED <<cs, tw>>

(***************************************************************************)
(* What a schedule means: the last thing that happened to a road decides.  *)
(***************************************************************************)
\* Things that have happened to what P selects: <<day, entry, 1 for the beginning, 2 for the end>>
Happened(P(_)) == UNION {(IF P(cs[k]) /\ cs[k][4] \in 0..t THEN {<<cs[k][4], k, 1>>} ELSE {}) \cup
                         (IF P(cs[k]) /\ cs[k][5] \in 0..t THEN {<<cs[k][5], k, 2>>} ELSE {}) : k \in DOMAIN cs}
Before(x, y) == x[1] < y[1] \/ (x[1] = y[1] /\ (x[2] < y[2] \/ (x[2] = y[2] /\ x[3] <= y[3])))
Latest(H) == CHOOSE x \in H : \A y \in H : Before(y, x)
Begun(H) == H # {} /\ Latest(H)[3] = 1

NameOf(i) == Locs0[i].name
CountryOf(i) == Locs0[i].country
Touches(c, i, j) ==
  LET dir(x, y) == CASE c[1] = "country" -> CountryOf(x) = c[2] /\ CountryOf(y) = c[3]
                     [] c[1] = "location" -> NameOf(y) = c[2]
                     [] c[1] = "link" -> NameOf(x) = c[2] /\ NameOf(y) = c[3]
                     [] OTHER -> FALSE
  IN dir(i, j) \/ (tw /\ dir(j, i))
NumOn(ls, i, j, f) == Cardinality({x \in DOMAIN ls[i][f] : ls[i][f][x].to = j})
Roads == \A i \in DOMAIN locs : \A j \in DOMAIN locs :
  LET shut == Begun(Happened(LAMBDA c : Touches(c, i, j)))
      all == NumOn(Locs0, i, j, "links")
  IN /\ NumOn(locs, i, j, "links") = (IF shut THEN 0 ELSE all)
     /\ NumOn(locs, i, j, "closed") = (IF shut THEN all ELSE 0)
Camps == LET H == Happened(LAMBDA c : c[1] \in {"camp", "idpcamp"})
             idp == H # {} /\ cs[Latest(H)[2]][1] = "idpcamp"
         IN /\ locs[3].town = Begun(H) /\ locs[3].camp = ~Begun(H) /\ locs[3].idp = (idp /\ ~Begun(H))
            /\ REq(locs[3].mc, IF Begun(H) THEN S.DefaultMoveChance ELSE IF idp THEN S.IDPCampMoveChance ELSE S.CampMoveChance)
            /\ SameKind(locs[1], Locs0[1]) /\ SameKind(locs[2], Locs0[2])
\* A redirection is removed from its road (while that is open) and from no other.
Redirections == \A i \in DOMAIN locs : \A f \in {"links", "closed"} : \A x \in DOMAIN locs[i][f] :
  LET r == locs[i][f][x] IN
  /\ r.forced => i = 1 /\ r.to = 2
  /\ (i = 1 /\ r.to = 2 /\ \A k \in DOMAIN cs : cs[k][1] = "remove_forced_redirection" \/ ~Touches(cs[k], 1, 2))
       => r.forced = ~Begun(Happened(LAMBDA c : c[1] = "remove_forced_redirection"))
=============================================================================
