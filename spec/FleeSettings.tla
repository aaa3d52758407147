---------------------------- MODULE FleeSettings ----------------------------
(***************************************************************************)
(* What the code holds after a settings file was read, against what the    *)
(* file means (FleeBase!Settings).  The meaning depends on this file only: *)
(* whatever was read before leaves no trace.                               *)
(***************************************************************************)
EXTENDS FleeFrame

MoveNums == {"MaxMoveSpeed", "MaxWalkSpeed", "MaxCrossingSpeed", "ForeignWeight", "CampWeight", "ConflictWeight",
             "ConflictMoveChance", "CampMoveChance", "IDPCampMoveChance", "DefaultMoveChance", "AwarenessLevel",
             "CapacityBuffer", "CapacityScaling", "DistanceSoftening", "WeightSoftening", "WeightPower", "DistancePower",
             "HomeDistancePower", "PopPowerForLocWeight", "MovechancePopBase", "MovechancePopScaleFactor", "PruningThreshold"}
MoveBools == {"AvoidShortStints", "StartOnFoot", "StayCloseToHome", "UsePopForLocWeight", "FixedRoutes", "FloodRulesEnabled",
              "FloodForecaster"} \cup PersonalRules
SpawnBools == {"TakeFromPopulation", "InsertDayZeroRefugeesInCamps", "EmptyCampsOnDay0", "conflict_zone_spawning_only",
               "flood_zone_spawning_only", "camps_are_sinks", "read_from_agents_csv_file", "sum_from_camps",
               "conflict_driven_spawning", "flood_driven_spawning"}
LogNums == {"agent", "link", "camp", "init", "conflict", "idp_totals"}

SameNums(r, S, ks) == \A k \in ks : k \in DOMAIN r /\ RClose(r[k], S[k])
SameBools(r, S, ks) == \A k \in ks : k \in DOMAIN r /\ r[k] = S[k]
\* a list in the settings; "null" stands for no list
SameNumList(x, y) == IF y = <<>> THEN TRUE ELSE IsStr(x) = FALSE /\ SameList(x, y, EqR)

SettingsEvent(S, e) ==
  LET fl == Sec(Sec(e.yaml, "move_rules"), "flood_rules")
      given(k) == k \in DOMAIN fl /\ fl[k] # <<>>
      lists == {"FloodMovechances", "FloodLocWeights", "FloodForecasterWeights", "FloodAwarenessWeights"}
  IN C("settings.steps", REq(e.ret, S.number_of_steps))
     \cup C("settings.move", SameNums(e.mr, S, MoveNums) /\ SameBools(e.mr, S, MoveBools))
     \cup C("settings.flood",
            /\ \A k \in lists : k \in DOMAIN e.mr /\ (IF S[k] = <<>> THEN e.mr[k] = "null" \/ e.mr[k] = <<>> ELSE SameNumList(e.mr[k], S[k]))
            /\ S.FloodForecaster => SameNums(e.mr, S, {"FloodForecasterTimescale", "FloodForecasterEndTime"}))
     \cup C("settings.spawn",
            /\ SameBools(e.sr, S, SpawnBools)
            /\ S.conflict_driven_spawning => /\ "conflict_spawn_mode" \in DOMAIN e.sr /\ e.sr.conflict_spawn_mode = S.conflict_spawn_mode
                                             /\ SameNums(e.sr, S, {"displaced_per_conflict_day"})
            /\ S.flood_driven_spawning => /\ "flood_spawn_mode" \in DOMAIN e.sr /\ e.sr.flood_spawn_mode = S.flood_spawn_mode
                                          /\ "displaced_per_flood_day" \in DOMAIN e.sr
                                          /\ SameNumList(e.sr.displaced_per_flood_day, S.displaced_per_flood_day))
     \cup C("settings.decay",
            /\ "conflict_spawn_decay" \in DOMAIN e.sr
            /\ IF S.hasDecay THEN SameNumList(e.sr.conflict_spawn_decay, S.conflict_spawn_decay) /\ IsStr(e.sr.conflict_spawn_decay) = FALSE
               ELSE e.sr.conflict_spawn_decay = "null"
            /\ SameNums(e.sr, S, {"conflict_spawn_decay_interval"}))
     \cup C("settings.log", /\ SameNums(e.ll, S, LogNums) /\ "granularity" \in DOMAIN e.ll /\ e.ll.granularity = S.granularity)
     \cup C("settings.scale", SameNums(e.opt, S, {"PopulationScaleDownFactor"}))
     \cup C("settings.files", e.files.c = S.ConflictInputFile /\ e.files.f = S.FloodLevelInputFile)
=============================================================================
