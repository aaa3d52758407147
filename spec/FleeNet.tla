------------------------------ MODULE FleeNet ------------------------------
(***************************************************************************)
(* Network operations: kinds of locations, roads, closures and their       *)
(* schedule, as transitions on the sequence of locations.                  *)
(* A location has its open roads (links) and its closed roads (closed).    *)
(***************************************************************************)
EXTENDS FleeKernel

(***************************************************************************)
(* Kinds                                                                   *)
(***************************************************************************)
NoKind == [camp |-> FALSE, idp |-> FALSE, conflict |-> "-1", fwd |-> FALSE, marker |-> FALSE, flood |-> FALSE, town |-> FALSE]

\* What a type name requests: kind flags and move chance ("" if the name is not recognised).
KindOf(S, type, attributes) ==
  LET y == StrLower(type) IN
  IF StrHas(y, "camp") THEN IF StrHas(y, "idp") THEN [NoKind EXCEPT !.camp = TRUE, !.idp = TRUE] @@ [mc |-> S.IDPCampMoveChance]
                            ELSE [NoKind EXCEPT !.camp = TRUE] @@ [mc |-> S.CampMoveChance]
  ELSE IF StrHas(y, "conflict") THEN [NoKind EXCEPT !.conflict = Get(attributes, "conflict_intensity", "1")] @@ [mc |-> S.ConflictMoveChance]
  ELSE IF StrHas(y, "forward") THEN [NoKind EXCEPT !.fwd = TRUE] @@ [mc |-> "1"]
  ELSE IF StrHas(y, "marker") THEN [NoKind EXCEPT !.marker = TRUE] @@ [mc |-> "1"]
  ELSE IF StrHas(y, "flood_zone") THEN [NoKind EXCEPT !.flood = TRUE] @@ [mc |-> S.DefaultMoveChance]
  ELSE IF StrHas(y, "default") \/ StrHas(y, "town") THEN [NoKind EXCEPT !.town = TRUE] @@ [mc |-> S.DefaultMoveChance]
  ELSE NoKind @@ [mc |-> ""]
Recognised(S, type) == KindOf(S, type, <<>>).mc # ""

\* A location that is created with type name "type" ("" for none) and move chance mc.
CreatedKind(S, type, mc, attributes) ==
  LET k == IF type = "" THEN NoKind @@ [mc |-> mc]
           ELSE LET q == KindOf(S, type, attributes) IN IF q.mc = "" THEN [q EXCEPT !.mc = mc] ELSE q
  IN IF RLt(k.mc, "0.005") /\ ~k.camp /\ ~k.flood THEN [k EXCEPT !.camp = TRUE, !.town = FALSE] ELSE k

WithKind(L, k) == [L EXCEPT !.mc = k.mc, !.camp = k.camp, !.idp = k.idp, !.conflict = k.conflict, !.fwd = k.fwd,
                            !.marker = k.marker, !.flood = k.flood, !.town = k.town]
SameKind(L, M) == /\ REq(L.mc, M.mc) /\ REq(L.conflict, M.conflict) /\ L.toc = M.toc
                  /\ L.camp = M.camp /\ L.idp = M.idp /\ L.fwd = M.fwd /\ L.marker = M.marker
                  /\ L.flood = M.flood /\ L.town = M.town
KindCount(L) == Cardinality({x \in {"camp", "fwd", "marker", "flood", "town"} : L[x]}) + (IF InConflict(L) THEN 1 ELSE 0)
KindOK(L) == KindCount(L) <= 1 /\ (L.idp => L.camp)
\* Conflicts start and end in ordinary places (a camp or hub in conflict keeps its kind besides).
Ordinary(L) == ~L.camp /\ ~L.fwd /\ ~L.marker /\ ~L.flood

Index(locs, name) == {i \in DOMAIN locs : locs[i].name = name}
OnLocs(locs, I, Op(_)) == [i \in DOMAIN locs |-> IF i \in I THEN Op(locs[i]) ELSE locs[i]]

OpenCamp(S, locs, name, idp) ==
  OnLocs(locs, Index(locs, name), LAMBDA L : WithKind(L, KindOf(S, IF idp THEN "idpcamp" ELSE "camp", <<>>)))
CloseCamp(S, locs, name) == OnLocs(locs, Index(locs, name), LAMBDA L : WithKind(L, KindOf(S, "town", <<>>)))
ChangeType(S, locs, name, type) ==
  OnLocs(locs, Index(locs, name), LAMBDA L :
    LET k == KindOf(S, type, L.attrs) IN WithKind(L, IF k.mc = "" THEN [k EXCEPT !.mc = L.mc] ELSE k))
StartConflict(S, locs, name, intensity, change, t) ==
  OnLocs(locs, Index(locs, name), LAMBDA L :
    [L EXCEPT !.mc = IF change THEN S.ConflictMoveChance ELSE @, !.conflict = intensity, !.town = FALSE, !.toc = t])
EndConflict(S, locs, name, change) ==
  OnLocs(locs, Index(locs, name), LAMBDA L :
    [L EXCEPT !.mc = IF change THEN S.DefaultMoveChance ELSE @, !.conflict = "-1", !.town = TRUE])

(***************************************************************************)
(* Roads                                                                   *)
(***************************************************************************)
\* P(i, r) selects road r of location i.  Those on a road that closes stay on the old, closed road: nr = -1
\* marks a road that has been closed in this step, also if it has been reopened since.
Matched(locs, field, P(_, _)) == \E i \in DOMAIN locs : \E j \in DOMAIN locs[i][field] : P(i, locs[i][field][j])
CloseRoads(locs, P(_, _)) ==
  [i \in DOMAIN locs |->
     LET hit(r) == P(i, r)
         miss(r) == ~P(i, r)
         gone == SelectSeq(locs[i].links, hit)
     IN [locs[i] EXCEPT !.links = SelectSeq(@, miss),
                        !.closed = @ \o [j \in DOMAIN gone |-> [gone[j] EXCEPT !.closed = TRUE, !.n = 0, !.nr = -1]]]]
ReopenRoads(locs, P(_, _)) ==
  [i \in DOMAIN locs |->
     LET hit(r) == P(i, r)
         miss(r) == ~P(i, r)
         back == SelectSeq(locs[i].closed, hit)
     IN [locs[i] EXCEPT !.closed = SelectSeq(@, miss),
                        !.links = @ \o [j \in DOMAIN back |-> [back[j] EXCEPT !.closed = FALSE, !.n = 0]]]]
RemoveRoads(locs, P(_, _)) ==
  [i \in DOMAIN locs |-> LET miss(r) == ~P(i, r) IN [locs[i] EXCEPT !.links = SelectSeq(@, miss)]]

LinkSel(locs, a, b, twoway, i, r) ==
  \/ locs[i].name = a /\ locs[r.to].name = b
  \/ twoway /\ locs[i].name = b /\ locs[r.to].name = a
LocSel(locs, a, twoway, i, r) == locs[r.to].name = a \/ (twoway /\ locs[i].name = a)
BorderSel(locs, c, d, twoway, i, r) ==
  \/ locs[i].country = c /\ locs[r.to].country = d
  \/ twoway /\ locs[i].country = d /\ locs[r.to].country = c

\* The road a person is on after a step that turned locs into locs2: <<from, to, length, closed>>.
\* A road that was removed still leads to its end.
RoadAfter(locs2, i, r) ==
  LET same(x) == x.to = r.to /\ REq(x.dist, r.dist) /\ x.attrs = r.attrs /\ x.cum = r.cum
      cut == \E x \in Range(locs2[i].links) \cup Range(locs2[i].closed) : same(x) /\ x.nr = -1
  IN <<"R", i, r.to, R(r.dist), cut>>

Redirect(locs, a, b, v) ==
  OnLocs(locs, Index(locs, a), LAMBDA L :
    [L EXCEPT !.links = [j \in DOMAIN @ |-> IF locs[@[j].to].name = b THEN [@[j] EXCEPT !.forced = v] ELSE @[j]]])

(***************************************************************************)
(* Schedule: entries <<kind, a, b, start, end>>                            *)
(***************************************************************************)
Begin(S, locs, c, tw) ==
  LET a == c[2] b == c[3] IN
  CASE c[1] = "country"  -> CloseRoads(locs, LAMBDA i, r : BorderSel(locs, a, b, tw, i, r))
    [] c[1] = "location" -> CloseRoads(locs, LAMBDA i, r : LocSel(locs, a, tw, i, r))
    [] c[1] = "link"     -> CloseRoads(locs, LAMBDA i, r : LinkSel(locs, a, b, tw, i, r))
    [] c[1] \in {"camp", "idpcamp"} -> CloseCamp(S, locs, a)
    [] c[1] = "remove_forced_redirection" -> Redirect(locs, a, b, FALSE)
    [] OTHER -> locs
End(S, locs, c, tw) ==
  LET a == c[2] b == c[3] IN
  CASE c[1] = "country"  -> ReopenRoads(locs, LAMBDA i, r : BorderSel(locs, a, b, tw, i, r))
    [] c[1] = "location" -> ReopenRoads(locs, LAMBDA i, r : LocSel(locs, a, tw, i, r))
    [] c[1] = "link"     -> ReopenRoads(locs, LAMBDA i, r : LinkSel(locs, a, b, tw, i, r))
    [] c[1] = "camp"     -> OpenCamp(S, locs, a, FALSE)
    [] c[1] = "idpcamp"  -> OpenCamp(S, locs, a, TRUE)
    [] c[1] = "remove_forced_redirection" -> Redirect(locs, a, b, TRUE)
    [] OTHER -> locs
RECURSIVE Enact(_, _, _, _, _)
Enact(S, locs, cs, t, tw) ==
  IF cs = <<>> THEN locs
  ELSE LET c == Head(cs)
           l1 == IF c[4] = t THEN Begin(S, locs, c, tw) ELSE locs
           l2 == IF c[5] = t THEN End(S, l1, c, tw) ELSE l1
       IN Enact(S, l2, Tail(cs), t, tw)

(***************************************************************************)
(* Spawn weights                                                           *)
(***************************************************************************)
SpawnW(S, L, t) ==
  IF S.conflict_driven_spawning \/ ~InConflict(L) THEN "0"
  ELSE RMul(L.pop, RMul(L.conflict, Decay(S, t - L.toc)))
SpawnWeights(S, locs, t) == [i \in DOMAIN locs |-> SpawnW(S, locs[i], t)]

(***************************************************************************)
(* Named network operations                                                *)
(* Result: [locs, ret ("T", "F" or "-"), weights (are spawn weights         *)
(* recomputed?)]                                                           *)
(***************************************************************************)
Res(locs, ret, w) == [locs |-> locs, ret |-> ret, w |-> w]
TF(b) == IF b THEN "T" ELSE "F"
Arg(e, k, name, d) == IF k <= Len(e.args) THEN e.args[k] ELSE IF name \in DOMAIN e.kw THEN e.kw[name] ELSE d

CallOp(S, st, e) ==
  LET locs == st.locs
      a == Arg(e, 1, "x", "")
      b == Arg(e, 2, "y", "")
      tw == Arg(e, 3, "twoway", TRUE)
      tw2 == Arg(e, 2, "twoway", TRUE)
      link(i, r) == LinkSel(locs, a, b, tw, i, r)
      loc(i, r) == LocSel(locs, a, tw2, i, r)
      border(i, r) == BorderSel(locs, a, b, tw, i, r)
  IN CASE e.f = "close_link"  -> Res(CloseRoads(locs, link), TF(Matched(locs, "links", link)), FALSE)
       [] e.f = "remove_link" -> IF Arg(e, 4, "close_only", FALSE)
                                 THEN Res(CloseRoads(locs, link), TF(Matched(locs, "links", link)), FALSE)
                                 ELSE Res(RemoveRoads(locs, link), TF(Matched(locs, "links", link)), FALSE)
       [] e.f = "reopen_link" -> Res(ReopenRoads(locs, link), TF(Matched(locs, "closed", link)), FALSE)
       [] e.f = "close_location"  -> Res(CloseRoads(locs, loc), TF(Index(locs, a) # {}), FALSE)
       [] e.f = "reopen_location" -> Res(ReopenRoads(locs, loc), TF(Index(locs, a) # {}), FALSE)
       [] e.f = "close_border"  -> Res(CloseRoads(locs, border), "-", FALSE)
       [] e.f = "reopen_border" -> Res(ReopenRoads(locs, border), "-", FALSE)
       [] e.f = "set_forced_redirection" -> Res(Redirect(locs, a, b, e.args[3]), "-", FALSE)
       [] e.f = "open_camp"  -> Res(OpenCamp(S, locs, a, b), "-", FALSE)
       [] e.f = "close_camp" -> Res(CloseCamp(S, locs, a), "-", FALSE)
       [] e.f = "change_location_type" -> Res(ChangeType(S, locs, a, b), "-", FALSE)
       [] e.f = "add_conflict_zone" ->
            Res(StartConflict(S, locs, a, Arg(e, 2, "conflict_intensity", "1"), Arg(e, 3, "change_movechance", TRUE), st.t), "-", Index(locs, a) # {})
       [] e.f = "remove_conflict_zone" -> Res(EndConflict(S, locs, a, Arg(e, 2, "change_movechance", TRUE)), "-", TRUE)
       [] e.f = "set_conflict_intensity" ->
            IF RLt(b, "0.000001") THEN Res(EndConflict(S, locs, a, tw), "-", TRUE)
            ELSE Res(StartConflict(S, locs, a, b, tw, st.t), "-", Index(locs, a) # {})
       [] OTHER -> Res(locs, "-", FALSE)
=============================================================================
