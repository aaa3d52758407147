------------------------------ MODULE FleeBase ------------------------------
(***************************************************************************)
(* Common vocabulary: settings, locations, roads, persons, and the state   *)
(* functions of the displacement model (attractiveness, crowding, move     *)
(* chance, route weights).                                                 *)
(*                                                                         *)
(* S    effective settings, computed from the settings file by Settings    *)
(* st   network state: [t, locs, par], locs a sequence of location records *)
(*      with their open roads (links), closed roads (closed) and score     *)
(* a    person record                                                      *)
(* Numbers that are real in the model are rationals (module Rat).          *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Rat

Get(r, k, d) == IF k \in DOMAIN r THEN r[k] ELSE d
Range(f) == {f[x] : x \in DOMAIN f}
RMax(a, b) == IF RLt(a, b) THEN b ELSE a
RMin(a, b) == IF RLt(a, b) THEN a ELSE b
Max2(a, b) == IF a < b THEN b ELSE a
Min2(a, b) == IF a < b THEN a ELSE b
Last(s) == s[Len(s)]

RECURSIVE RSumSeq(_)
RSumSeq(s) == IF s = <<>> THEN "0" ELSE RAdd(Head(s), RSumSeq(Tail(s)))
RECURSIVE ISumSeq(_)
ISumSeq(s) == IF s = <<>> THEN 0 ELSE Head(s) + ISumSeq(Tail(s))
RECURSIVE Flatten(_)
Flatten(s) == IF s = <<>> THEN <<>> ELSE Head(s) \o Flatten(Tail(s))
Count(s, P(_)) == Cardinality({x \in DOMAIN s : P(s[x])})
RECURSIVE RMaxSeq(_)
RMaxSeq(s) == IF Len(s) = 1 THEN s[1] ELSE RMax(Head(s), RMaxSeq(Tail(s)))

(***************************************************************************)
(* Settings: what a settings file y means.                                 *)
(***************************************************************************)
Sec(y, k) == IF k \in DOMAIN y THEN y[k] ELSE <<>>
Num(d, k, def) == R(Get(d, k, def))
Whole(d, k, def) == RTrunc(Get(d, k, def))
Bool(d, k, def) == Get(d, k, def) = TRUE

PersonalRules == {"ChildrenAvoidHazards", "BoysTakeRisk", "MatchCampEthnicity",
                  "MatchTownEthnicity", "MatchConflictEthnicity"}

MoveSettings(y) ==
  LET d  == Sec(y, "move_rules")
      sp == Sec(y, "spawn_rules")
      hasFlood == "flood_rules" \in DOMAIN d
      fd == Sec(d, "flood_rules")
      floodSpawn == Bool(sp, "flood_zone_spawning_only", FALSE) /\ "flood_driven_spawning" \in DOMAIN sp
      v1 == Bool(d, "use_v1_rules", FALSE)
  IN [ MaxMoveSpeed |-> IF v1 THEN R(200) ELSE Num(d, "max_move_speed", "360"),
       MaxWalkSpeed |-> Num(d, "max_walk_speed", "35"),
       MaxCrossingSpeed |-> Num(d, "max_crossing_speed", "20"),
       ForeignWeight |-> Num(d, "foreign_weight", "1"),
       CampWeight |-> IF v1 THEN R(2) ELSE Num(d, "camp_weight", "1"),
       ConflictWeight |-> IF v1 THEN R("1/4") ELSE Num(d, "conflict_weight", RDiv(1, "3.16227766017")),
       ConflictMoveChance |-> Num(d, "conflict_movechance", "1"),
       CampMoveChance |-> Num(d, "camp_movechance", "0.001"),
       IDPCampMoveChance |-> Num(d, "idpcamp_movechance", "0.1"),
       DefaultMoveChance |-> Num(d, "default_movechance", "0.3"),
       AwarenessLevel |-> Whole(d, "awareness_level", 1),
       CapacityBuffer |-> Num(d, "capacity_buffer", "0.9"),
       CapacityScaling |-> Num(d, "capacity_scaling", "1"),
       AvoidShortStints |-> IF v1 THEN FALSE ELSE Bool(d, "avoid_short_stints", FALSE),
       StartOnFoot |-> IF v1 THEN FALSE ELSE Bool(d, "start_on_foot", FALSE),
       DistanceSoftening |-> Num(d, "softening", "10"),
       WeightSoftening |-> Num(d, "weight_softening", "0"),
       WeightPower |-> Num(d, "weight_power", "1"),
       DistancePower |-> Num(d, "distance_power", "1"),
       StayCloseToHome |-> Bool(d, "stay_close_to_home", FALSE),
       HomeDistancePower |-> Num(d, "home_distance_power", "0.5"),
       UsePopForLocWeight |-> Bool(d, "use_pop_for_loc_weight", FALSE),
       PopPowerForLocWeight |-> Num(d, "pop_power_for_loc_weight", "0.1"),
       MovechancePopBase |-> Num(d, "movechance_pop_base", "10000"),
       MovechancePopScaleFactor |-> Num(d, "movechance_pop_scale_factor", "0"),
       PruningThreshold |-> Num(d, "pruning_threshold", "1"),
       ChildrenAvoidHazards |-> Bool(d, "ChildrenAvoidHazards", FALSE),
       BoysTakeRisk |-> Bool(d, "BoysTakeRisk", FALSE),
       MatchCampEthnicity |-> Bool(d, "MatchCampEthnicity", FALSE),
       MatchTownEthnicity |-> Bool(d, "MatchTownEthnicity", FALSE),
       MatchConflictEthnicity |-> Bool(d, "MatchConflictEthnicity", FALSE),
       FixedRoutes |-> Bool(d, "fixed_routes", FALSE),
       FloodRulesEnabled |-> hasFlood \/ floodSpawn,
       FloodForecaster |-> hasFlood /\ Bool(fd, "flood_forecaster", FALSE),
       FloodForecasterTimescale |-> Whole(fd, "flood_forecaster_timescale", 0),
       FloodForecasterEndTime |-> Whole(fd, "flood_forecaster_end_time", 0),
       FloodMovechances |-> Get(fd, "flood_movechances", <<>>),
       FloodLocWeights |-> Get(fd, "flood_loc_weights", <<>>),
       FloodForecasterWeights |-> Get(fd, "flood_forecaster_weights", <<>>),
       FloodAwarenessWeights |-> Get(fd, "flood_awareness_weights", <<>>) ]

SpawnSettings(y) ==
  LET d == Sec(y, "spawn_rules")
      flood == Bool(d, "flood_zone_spawning_only", FALSE)
      cds == ~flood /\ "conflict_driven_spawning" \in DOMAIN d
      fds == flood /\ "flood_driven_spawning" \in DOMAIN d
      c == IF cds THEN d.conflict_driven_spawning ELSE <<>>
      f == IF fds THEN d.flood_driven_spawning ELSE <<>>
      cm == Get(c, "spawn_mode", "constant")
      fm == Get(f, "spawn_mode", "pop_ratio")
  IN [ TakeFromPopulation |-> Bool(d, "take_from_population", FALSE),
       InsertDayZeroRefugeesInCamps |-> Bool(d, "insert_day0", TRUE),
       EmptyCampsOnDay0 |-> Bool(d, "empty_camps_on_day0", FALSE),
       conflict_zone_spawning_only |-> Bool(d, "conflict_zone_spawning_only", TRUE),
       flood_zone_spawning_only |-> flood,
       camps_are_sinks |-> Bool(d, "camps_are_sinks", FALSE),
       read_from_agents_csv_file |-> Bool(d, "read_from_agents_csv_file", FALSE),
       sum_from_camps |-> Bool(d, "sum_from_camps", TRUE),
       conflict_driven_spawning |-> cds,
       flood_driven_spawning |-> fds,
       conflict_spawn_mode |-> cm,
       displaced_per_conflict_day |-> IF cm = "pop_ratio" THEN Num(c, "displaced_per_conflict_day", "0.01")
                                      ELSE RTrunc(Num(c, "displaced_per_conflict_day", "500")),
       flood_spawn_mode |-> fm,
       displaced_per_flood_day |-> Get(f, "displaced_per_flood_day",
            IF fm = "pop_ratio" THEN <<"0", "0.1", "0.2", "0.5", "0.9">> ELSE <<"0", "100", "200", "300", "500">>),
       conflict_spawn_decay |-> Get(d, "conflict_spawn_decay", <<>>),
       hasDecay |-> "conflict_spawn_decay" \in DOMAIN d,
       conflict_spawn_decay_interval |-> Whole(d, "conflict_spawn_decay_interval", 30) ]

LogSettings(y) ==
  LET d == Sec(y, "log_levels")
  IN [ agent |-> Whole(d, "agent", 0), link |-> Whole(d, "link", 0), camp |-> Whole(d, "camp", 0),
       init |-> Whole(d, "init", 0), conflict |-> Whole(d, "conflict", 0), idp_totals |-> Whole(d, "idp_totals", 0),
       granularity |-> Get(d, "granularity", "location") ]

\* Contradictory settings are refused.
Refused(y) ==
  LET d == Sec(y, "spawn_rules") IN
  \/ Bool(d, "conflict_zone_spawning_only", TRUE) /\ Bool(d, "flood_zone_spawning_only", FALSE)
  \/ /\ Bool(d, "flood_zone_spawning_only", FALSE)
     /\ "flood_driven_spawning" \in DOMAIN d
     /\ ~Bool(d, "take_from_population", FALSE)

Settings(y) ==
  MoveSettings(y) @@ SpawnSettings(y) @@ LogSettings(y) @@
  [ PopulationScaleDownFactor |-> Whole(Sec(y, "optimisations"), "hasten", 1),
    ConflictInputFile |-> Get(y, "conflict_input_file", ""),
    FloodLevelInputFile |-> Get(y, "flood_level_input_file", ""),
    number_of_steps |-> Num(y, "number_of_steps", -1) ]

(***************************************************************************)
(* Conflict decay and attractiveness of a location.                        *)
(***************************************************************************)
Decay(S, age) ==
  IF ~S.hasDecay \/ Len(S.conflict_spawn_decay) = 0 THEN "1"
  ELSE LET n == Len(S.conflict_spawn_decay)
           i == RTrunc(RDiv(age, S.conflict_spawn_decay_interval))
       IN S.conflict_spawn_decay[Min2(i, n - 1) + 1]

InConflict(L) == RLt(0, L.conflict)
Level(L) == IF "flood_level" \in DOMAIN L.attrs THEN RFloor(L.attrs["flood_level"]) ELSE 0

\* weighted flood forecast over the days that lie ahead
RECURSIVE ForecastSum(_, _, _, _)
ForecastSum(S, levels, t, x) ==
  IF levels = <<>> \/ x > S.FloodForecasterTimescale THEN "0"
  ELSE LET day == Min2(t + x, S.FloodForecasterEndTime)
           lv  == RFloor(levels[day + 1])
           here == IF lv > 0 THEN RMul(S.FloodLocWeights[lv + 1], S.FloodForecasterWeights[day + 1]) ELSE "0"
       IN IF day = S.FloodForecasterEndTime THEN here ELSE RAdd(here, ForecastSum(S, levels, t, x + 1))
Forecasting(S, t) == S.FloodForecaster /\ S.FloodForecasterTimescale > 1 /\ t <= S.FloodForecasterEndTime
ForecastOf(S, L, t) == ForecastSum(S, L.fc, t, 1)
\* weight of the current flood level
FloodWeight(S, L) == IF Level(L) > 0 /\ S.FloodLocWeights # <<>> THEN R(S.FloodLocWeights[Level(L) + 1]) ELSE "1"
AwarenessWeight(S, a) == S.FloodAwarenessWeights[RFloor(a.attrs["floodawareness"]) + 1]

Score(S, L, t) ==
  LET s1 == IF L.foreign THEN R(S.ForeignWeight) ELSE "1"
      s2 == IF L.camp \/ L.idp THEN RMul(s1, S.CampWeight) ELSE s1
      s3 == IF InConflict(L) THEN RMul(s2, RPow(S.ConflictWeight, RMul(Decay(S, t - L.toc), L.conflict))) ELSE s2
      s4 == IF L.flood /\ "flood_level" \in DOMAIN L.attrs
            THEN LET f == RMul(s3, FloodWeight(S, L))
                 IN IF Forecasting(S, t) THEN RMul(f, RDiv(ForecastOf(S, L, t), S.FloodForecasterTimescale)) ELSE f
            ELSE s3
  IN s4

(***************************************************************************)
(* Crowding factor, full camps, move chance.                               *)
(***************************************************************************)
Cap(S, L) == RMul(L.cap, S.CapacityScaling)
CapMult(S, L, n) ==
  LET c == Cap(S, L) IN
  IF RLt(c, 1) THEN "1"
  ELSE IF RLe(n, RMul(S.CapacityBuffer, c)) THEN "1"
  ELSE IF RLe(c, n) THEN "0"
  ELSE RSub(1, RDiv(RSub(n, RMul(S.CapacityBuffer, c)), RMul(c, RSub(1, S.CapacityBuffer))))

\* the possible answers to "is this destination full?" (two at the exact boundary, where rounding decides)
FullAnswers(S, L, n) ==
  IF ~L.camp THEN {FALSE}
  ELSE LET m == CapMult(S, L, n) IN IF RClose(m, "0.5") THEN {TRUE, FALSE} ELSE {RLt(m, "0.5")}

MoveChance(S, L, a, force, t) ==
  IF L.town /\ force THEN "1"
  ELSE LET base == RMul(L.mc, RPow(RDiv(RMax(L.pop, L.cap), S.MovechancePopBase), S.MovechancePopScaleFactor))
           m == IF S.FloodRulesEnabled /\ Level(L) > 0 /\ S.FloodMovechances # <<>> THEN R(S.FloodMovechances[Level(L) + 1]) ELSE base
       IN IF S.FloodRulesEnabled /\ Forecasting(S, t)
          THEN RMul(m, RMul(AwarenessWeight(S, a), RDiv(ForecastOf(S, L, t), S.FloodForecasterTimescale)))
          ELSE m

(***************************************************************************)
(* Attractiveness of a destination for a person.                           *)
(***************************************************************************)
EthnicRatio(L, a) == RMul(RDiv(L.attrs[a.attrs["ethnicity"]], L.pop), 10)

EndScore(S, st, a, d, t) ==
  LET L == st.locs[d]
      b0 == R(L.score)
      b1 == IF S.ChildrenAvoidHazards
            THEN LET c == IF RLt(a.attrs["age"], 19) THEN RMul(b0, b0) ELSE b0
                 IN IF S.BoysTakeRisk /\ a.attrs["gender"] = "male" /\ RLt(14, a.attrs["age"]) THEN "1" ELSE c
            ELSE b0
      b2 == IF S.StayCloseToHome
            THEN LET H == st.locs[a.home]
                 IN RDiv(b1, RPow(RMax(1, RGeo(L.x, L.y, H.x, H.y)), S.HomeDistancePower))
            ELSE b1
      b3 == IF S.FloodRulesEnabled
            THEN LET f == RMul(b2, FloodWeight(S, L))
                 IN IF Forecasting(S, t)
                    THEN RMul(f, RMul(AwarenessWeight(S, a), RDiv(ForecastOf(S, L, t), S.FloodForecasterTimescale)))
                    ELSE f
            ELSE b2
      pw == RPow(L.pop, S.PopPowerForLocWeight)
      b4 == IF L.camp
            THEN IF S.MatchCampEthnicity THEN RMul(b3, EthnicRatio(L, a)) ELSE b3
            ELSE LET m == IF InConflict(L) THEN S.MatchConflictEthnicity ELSE S.MatchTownEthnicity
                     e == IF m THEN RMul(b3, EthnicRatio(L, a)) ELSE b3
                 IN IF S.UsePopForLocWeight THEN RMul(e, pw) ELSE e
  IN b4

(***************************************************************************)
(* Routes: loop-free walks along open roads with at most AwarenessLevel    *)
(* stops, markers being passed through for free.                           *)
(* RoutesVia lists those that start with road j of location u.             *)
(***************************************************************************)
RECURSIVE RoutesVia(_, _, _, _, _, _, _)
RoutesVia(S, locs, u, j, prior, seen, stops) ==
  LET lk == locs[u].links[j]
      v  == lk.to
      d  == RAdd(prior, lk.dist)
      mk == locs[v].marker
      n  == IF mk THEN stops ELSE stops + 1
      here == IF mk THEN <<>> ELSE <<[route |-> Append(seen, v), dist |-> d]>>
      next == IF n < S.AwarenessLevel
              THEN Flatten([x \in 1..Len(locs[v].links) |->
                     IF locs[v].links[x].to \in Range(seen) THEN <<>>
                     ELSE RoutesVia(S, locs, v, x, d, Append(seen, v), n)])
              ELSE <<>>
  IN here \o next
RoutesFrom(S, locs, u) == Flatten([j \in 1..Len(locs[u].links) |-> RoutesVia(S, locs, u, j, "0", <<u>>, 0)])

Weight(S, st, a, occ, r, t) ==
  LET d == Last(r.route)
      L == st.locs[d]
      w == RMul(RDiv(RAdd(S.WeightSoftening, EndScore(S, st, a, d, t)),
                     RPow(RAdd(S.DistanceSoftening, r.dist), S.DistancePower)),
                CapMult(S, L, occ[d]))
  IN RPow(w, S.WeightPower)

WeightedRoutes(S, st, a, occ, u, t) ==
  LET rs == TLCEval(RoutesFrom(S, st.locs, u))
  IN TLCEval([k \in 1..Len(rs) |-> [route |-> rs[k].route, w |-> Weight(S, st, a, occ, rs[k], t)]])

\* Possible survivors of pruning (rounding may decide for weights at the exact threshold).
Pruning(S) == ~RLt(S.PruningThreshold, "1.001")
Survive(S, ws, may) ==
  IF ~Pruning(S) \/ ws = <<>> THEN ws
  ELSE LET thr == TLCEval(RDiv(RMaxSeq([k \in DOMAIN ws |-> ws[k].w]), S.PruningThreshold))
           OK(r) == RLt(thr, r.w) \/ (IF may THEN RClose(r.w, thr) ELSE RLe(thr, r.w))
       IN SelectSeq(ws, OK)

\* Candidate routes (without the origin) and their weights.
CandidateRoutes(S, st, a, occ, u, t) ==
  LET L == st.locs[u] IN
  IF S.AwarenessLevel = 0
  THEN TLCEval([j \in 1..Len(L.links) |-> [route |-> <<L.links[j].to>>, w |-> "1"]])
  ELSE IF S.FixedRoutes
  THEN TLCEval([k \in 1..Len(L.routes) |-> [route |-> L.routes[k].route,
                                             w |-> RMul(L.routes[k].w, EndScore(S, st, a, L.routes[k].dest, t))]])
  ELSE LET ws == TLCEval(Survive(S, WeightedRoutes(S, st, a, occ, u, t), TRUE))
       IN TLCEval([k \in 1..Len(ws) |-> [route |-> Tail(ws[k].route), w |-> ws[k].w]])

\* Routes that may be chosen: positive weight, or any if no weight is positive.
Choosable(cs) ==
  LET pos == {k \in DOMAIN cs : RLt(0, cs[k].w)}
  IN {cs[k].route : k \in (IF pos = {} THEN DOMAIN cs ELSE pos)}

\* Probability of candidate k.
ChoiceProb(cs, k) ==
  LET tot == RSumSeq([x \in DOMAIN cs |-> cs[x].w])
  IN IF RLt(0, tot) THEN RDiv(cs[k].w, tot) ELSE RDiv(1, Len(cs))
=============================================================================
