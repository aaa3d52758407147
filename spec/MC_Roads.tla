----------------------------- MODULE MC_Roads -----------------------------
(***************************************************************************)
(* Every sequence of road operations on a small network of two countries,  *)
(* with a pair of parallel roads and a redirected one.  The transitions of *)
(* the state graph are printed (E|from, operation, to); the harness takes  *)
(* the implementation through all of them.                                 *)
(***************************************************************************)
EXTENDS FleeNet, Json

CONSTANT Removing      \* are roads also removed for good?
VARIABLE locs

S == TLCEval(Settings(<<>>))
Names == {"Alpha", "Beta", "Gamma"}
Road(i, j, d, f) == [from |-> i, to |-> j, dist |-> d, closed |-> FALSE, forced |-> f, n |-> 0, nr |-> 0, cum |-> 0, attrs |-> <<>>]
Place(n, c, ls) == [name |-> n, country |-> c, links |-> ls, closed |-> <<>>]
Locs0 == << Place("Alpha", "P", <<Road(1, 2, "100", TRUE), Road(1, 3, "250", FALSE), Road(1, 2, "80", TRUE)>>),
            Place("Beta",  "P", <<Road(2, 1, "100", FALSE), Road(2, 3, "300", FALSE), Road(2, 1, "80", FALSE)>>),
            Place("Gamma", "Q", <<Road(3, 1, "250", FALSE), Road(3, 2, "300", FALSE)>>) >>

Key(r) == <<r.from, r.to, r.dist, r.forced>>
Bag(s) == [x \in {Key(s[k]) : k \in DOMAIN s} |-> Cardinality({k \in DOMAIN s : Key(s[k]) = x})]
View(ls) == [i \in DOMAIN ls |-> <<Bag(ls[i].links), Bag(ls[i].closed)>>]
StateView == View(locs)

Run(ls, e) == CallOp(S, [locs |-> ls, t |-> 0], e).locs
Ev(f, args) == [f |-> f, args |-> args, kw |-> <<>>]
Do(f, args) == LET e == Ev(f, args) IN
  /\ locs' = Run(locs, e)
  /\ PrintT("E|" \o ToJson([u |-> ToString(View(locs)), op |-> e, v |-> ToString(View(locs'))]))

Init == locs = Locs0 /\ PrintT("E|" \o ToJson([u |-> "", op |-> "", v |-> ToString(View(locs))]))
Next ==
  \/ \E a \in Names, b \in Names, tw \in BOOLEAN, f \in {"close_link", "reopen_link"} : a # b /\ Do(f, <<a, b, tw>>)
  \/ \E a \in Names, tw \in BOOLEAN, f \in {"close_location", "reopen_location"} : Do(f, <<a, tw>>)
  \/ \E c \in {"P", "Q"}, d \in {"P", "Q"}, tw \in BOOLEAN, f \in {"close_border", "reopen_border"} : c # d /\ Do(f, <<c, d, tw>>)
  \/ \E v \in BOOLEAN : Do("set_forced_redirection", <<"Alpha", "Beta", v>>)
  \/ Removing /\ \E a \in Names, b \in Names, tw \in BOOLEAN : a # b /\ Do("remove_link", <<a, b, tw>>)

(***************************************************************************)
(* What closing means, without reference to how it is done.                *)
(***************************************************************************)
Open(ls) == {<<i, k.to, k.dist>> : i \in DOMAIN ls, k \in UNION {Range(ls[x].links) : x \in DOMAIN ls}} \cap
            UNION {{<<i, r.to, r.dist>> : r \in Range(ls[i].links)} : i \in DOMAIN ls}
Shut(ls) == UNION {{<<i, r.to, r.dist>> : r \in Range(ls[i].closed)} : i \in DOMAIN ls}
All == Open(Locs0)
NRoads(ls) == ISumSeq([i \in DOMAIN ls |-> Len(ls[i].links) + Len(ls[i].closed)])
No(name) == CHOOSE i \in DOMAIN Locs0 : Locs0[i].name = name
In(c) == {i \in DOMAIN Locs0 : Locs0[i].country = c}
\* The roads an operation names, as pairs of places
Named(e) ==
  LET a == e.args[1] IN
  CASE e.f \in {"close_link", "reopen_link", "remove_link"} ->
         {<<No(a), No(e.args[2])>>} \cup (IF e.args[3] THEN {<<No(e.args[2]), No(a)>>} ELSE {})
    [] e.f \in {"close_location", "reopen_location"} ->
         ((DOMAIN Locs0) \X {No(a)}) \cup (IF e.args[2] THEN {No(a)} \X (DOMAIN Locs0) ELSE {})
    [] e.f \in {"close_border", "reopen_border"} ->
         (In(a) \X In(e.args[2])) \cup (IF e.args[3] THEN In(e.args[2]) \X In(a) ELSE {})
    [] OTHER -> {}
These(e) == {x \in All : <<x[1], x[2]>> \in Named(e)}
Closing == {"close_link", "close_location", "close_border"}
Opening == {"reopen_link", "reopen_location", "reopen_border"}

\* No road is lost or duplicated, and the flags tell where a road is.
Kept == /\ Open(locs) \cap Shut(locs) = {}
        /\ NRoads(locs) = Cardinality(Open(locs) \cup Shut(locs))
        /\ ~Removing => Open(locs) \cup Shut(locs) = All
        /\ \A i \in DOMAIN locs : /\ \A r \in Range(locs[i].links) : r.from = i /\ ~r.closed
                                  /\ \A r \in Range(locs[i].closed) : r.from = i /\ r.closed
LinkOps == {Ev(f, <<a, b, tw>>) : f \in {"close_link", "reopen_link"}, a \in Names, b \in Names, tw \in BOOLEAN}
LocOps == {Ev(f, <<a, tw>>) : f \in {"close_location", "reopen_location"}, a \in Names, tw \in BOOLEAN}
BorderOps == {Ev(f, <<c, d, tw>>) : f \in {"close_border", "reopen_border"}, c \in {"P", "Q"}, d \in {"P", "Q"}, tw \in BOOLEAN}
Undo(e) == [e EXCEPT !.f = CASE @ = "close_link" -> "reopen_link" [] @ = "close_location" -> "reopen_location" [] @ = "close_border" -> "reopen_border" [] OTHER -> @]
\* Exactly the named roads change, doing it twice changes nothing more, and reopening undoes closing.
Exactly(e) ==
  LET l2 == Run(locs, e)  gone == Open(locs) \cup Shut(locs) IN
  /\ e.f \in Closing => Open(l2) = Open(locs) \ These(e) /\ Shut(l2) = Shut(locs) \cup (These(e) \cap gone)
  /\ e.f \in Opening => Open(l2) = Open(locs) \cup (These(e) \cap gone) /\ Shut(l2) = Shut(locs) \ These(e)
  /\ View(Run(l2, e)) = View(l2)
  /\ View(Run(l2, Undo(e))) = View(Run(locs, Undo(e)))
  /\ e.f \in Closing /\ These(e) \cap Shut(locs) = {} => View(Run(l2, Undo(e))) = View(locs)
ExactLinks == \A e \in {x \in LinkOps : x.args[1] # x.args[2]} : Exactly(e)
ExactLocations == \A e \in LocOps : Exactly(e)
ExactBorders == \A e \in {x \in BorderOps : x.args[1] # x.args[2]} : Exactly(e)
=============================================================================
