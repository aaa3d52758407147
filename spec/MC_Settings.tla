---------------------------- MODULE MC_Settings ----------------------------
(***************************************************************************)
(* Settings files with every combination of the keys that decide how other *)
(* keys are understood.                                                    *)
(***************************************************************************)
EXTENDS FleeBase, Json
VARIABLES y
Opt(k, v) == {<<>>, k :> v}
Boolean(k) == {<<>>, k :> TRUE, k :> FALSE}
Pile(a, b) == IF a = <<>> THEN b ELSE IF b = <<>> THEN a ELSE a @@ b
Moves == {Pile(Pile(a, b), c) : a \in Boolean("use_v1_rules"), b \in Opt("camp_weight", "3"),
          c \in Opt("flood_rules", [flood_movechances |-> <<"0", "0.5">>, flood_loc_weights |-> <<"1", "0.5">>])}
Spawns == {Pile(Pile(a, b), Pile(Pile(c, d), e)) :
            a \in Boolean("flood_zone_spawning_only"), b \in Boolean("conflict_zone_spawning_only"),
            c \in Opt("flood_driven_spawning", [spawn_mode |-> "constant", displaced_per_flood_day |-> <<"0", "2">>]),
            d \in Opt("conflict_driven_spawning", [spawn_mode |-> "pop_ratio", displaced_per_conflict_day |-> "0.25"]),
            e \in Boolean("take_from_population")}
Init == /\ \E m \in Moves, s \in Spawns : y = [move_rules |-> m, spawn_rules |-> s, log_levels |-> <<>>]
        /\ PrintT("I|" \o ToJson(y))
Next == UNCHANGED y
S == Settings(y)
M == y.move_rules
P == y.spawn_rules
Is(d, k) == k \in DOMAIN d /\ d[k] = TRUE
\* What the combinations mean
Refusals == Refused(y) <=> (Is(P, "flood_zone_spawning_only") /\
                            (("conflict_zone_spawning_only" \in DOMAIN P => P["conflict_zone_spawning_only"])
                             \/ ("flood_driven_spawning" \in DOMAIN P /\ ~Is(P, "take_from_population"))))
OneDriver == ~(S.conflict_driven_spawning /\ S.flood_driven_spawning)
Drivers == /\ S.conflict_driven_spawning <=> ("conflict_driven_spawning" \in DOMAIN P /\ ~Is(P, "flood_zone_spawning_only"))
           /\ S.flood_driven_spawning <=> ("flood_driven_spawning" \in DOMAIN P /\ Is(P, "flood_zone_spawning_only"))
Floods == S.FloodRulesEnabled <=> ("flood_rules" \in DOMAIN M \/ S.flood_driven_spawning)
Legacy == IF Is(M, "use_v1_rules") THEN S.CampWeight = "2" /\ S.MaxMoveSpeed = "200"
          ELSE S.CampWeight = (IF "camp_weight" \in DOMAIN M THEN "3" ELSE "1") /\ S.MaxMoveSpeed = "360"
=============================================================================
