----------------------------- MODULE MC_Kinds -----------------------------
(***************************************************************************)
(* Every way in which a location can be created and change its kind.       *)
(***************************************************************************)
EXTENDS FleeNet, Json

VARIABLES loc, low, pure      \* the location; are ordinary move chances tiny?; have conflicts touched camps or hubs?
Sof(l) == Settings([move_rules |-> [default_movechance |-> IF l THEN "0.004" ELSE "0.3"]])
S == Sof(low)
Types == {"", "town", "default", "Camp", "idpcamp", "conflict_zone", "forwarding_hub", "marker", "flood_zone", "bogus"}

Kind(L) == <<RMul(L.mc, 1), L.conflict, L.camp, L.idp, L.fwd, L.marker, L.flood, L.town>>
StateView == <<Kind(loc), low, pure>>
Id(L, w) == ToString(<<Kind(L), w>>)

Created(type, mc) == [name |-> "Alpha", attrs |-> <<>>, toc |-> 0] @@ CreatedKind(S, type, mc, <<>>)
Init ==
  /\ low \in BOOLEAN
  /\ pure = TRUE
  /\ \E type \in Types, mc \in {"0.001", "0.25"} :
       /\ loc = Created(type, mc)
       /\ PrintT("E|" \o ToJson([u |-> "", op |-> [f |-> "create", args |-> <<type, mc, low>>], v |-> Id(loc, low)]))
Run(e) == CallOp(S, [locs |-> <<loc>>, t |-> 0], e).locs[1]
Do(f, args) == LET e == [f |-> f, args |-> args, kw |-> <<>>] IN
  /\ loc' = Run(e)
  /\ low' = low
  /\ pure' = (pure /\ (f \in {"add_conflict_zone", "remove_conflict_zone", "set_conflict_intensity"} => Ordinary(loc)))
  /\ PrintT("E|" \o ToJson([u |-> Id(loc, low), op |-> e, v |-> Id(loc', low)]))
Next ==
  \/ \E type \in Types \ {"", "bogus"} : Do("change_location_type", <<"Alpha", type>>)
  \/ \E idp \in BOOLEAN : Do("open_camp", <<"Alpha", idp>>) \/ Do("close_camp", <<"Alpha", idp>>)
  \/ \E x \in {"0.5", "2.0"} : Do("add_conflict_zone", <<"Alpha", x>>) \/ Do("set_conflict_intensity", <<"Alpha", x>>)
  \/ Do("add_conflict_zone", <<"Alpha">>)
  \/ \E c \in BOOLEAN : Do("add_conflict_zone", <<"Alpha", "2.0", c>>) \/ Do("remove_conflict_zone", <<"Alpha", c>>)
                        \/ Do("set_conflict_intensity", <<"Alpha", "0.0", c>>)
  \/ Do("remove_conflict_zone", <<"Alpha">>)

\* Of one kind, as long as conflicts start and end in ordinary places
OneKind == pure => KindOK(loc)
\* What a type name requests does not depend on what the place was before, and no other kind remains.
Want(type) == LET y == StrLower(type) IN
  CASE y \in {"town", "default"} -> <<S.DefaultMoveChance, "town">>
    [] y = "camp" -> <<S.CampMoveChance, "camp">>
    [] y = "idpcamp" -> <<S.IDPCampMoveChance, "camp">>
    [] y = "conflict_zone" -> <<S.ConflictMoveChance, "conflict">>
    [] y = "forwarding_hub" -> <<"1", "fwd">>
    [] y = "marker" -> <<"1", "marker">>
    [] y = "flood_zone" -> <<S.DefaultMoveChance, "flood">>
IsExactly(L, type) ==
  LET w == Want(type) IN
  /\ REq(L.mc, w[1])
  /\ \A k \in {"town", "camp", "fwd", "marker", "flood"} : L[k] = (w[2] = k)
  /\ InConflict(L) = (w[2] = "conflict")
  /\ L.idp = (StrLower(type) = "idpcamp")
Ev(f, args) == [f |-> f, args |-> args, kw |-> <<>>]
Memoryless ==
  /\ \A type \in Types \ {"", "bogus"} : IsExactly(Run(Ev("change_location_type", <<"Alpha", type>>)), type)
  /\ IsExactly(Run(Ev("open_camp", <<"Alpha", FALSE>>)), "camp") /\ IsExactly(Run(Ev("open_camp", <<"Alpha", TRUE>>)), "idpcamp")
  /\ IsExactly(Run(Ev("close_camp", <<"Alpha", FALSE>>)), "town")
\* A conflict that comes and goes leaves an ordinary place a town.
Passing == Ordinary(loc) =>
  LET c == Run(Ev("add_conflict_zone", <<"Alpha", "2.0">>))
      d == CallOp(S, [locs |-> <<c>>, t |-> 3], Ev("remove_conflict_zone", <<"Alpha">>)).locs[1]
  IN IsExactly([c EXCEPT !.conflict = "1"], "conflict_zone") /\ IsExactly(d, "town")
=============================================================================
