----------------------------- MODULE FleeInput ------------------------------
(***************************************************************************)
(* Input files and the network and timeline they describe.                 *)
(* Files are sequences of rows, rows are sequences of cells (strings).     *)
(* geo  what has been loaded: [locs (rows), conflicts, flood, changes]     *)
(***************************************************************************)
EXTENDS FleeSpawn

NoGeo == [locs |-> <<>>, table |-> <<>>, flood |-> <<>>, changes |-> <<>>]

Comment(r) == Len(r) = 0 \/ StrStarts(r[1], "#")
Rows(f) == LET content(r) == ~Comment(r) IN SelectSeq(f, content)
\* names of the columns beyond the first k, from the comment rows
Extra(f, k) == LET h(r) == Comment(r) /\ Len(r) > k  hs == SelectSeq(f, h)
               IN Flatten([x \in DOMAIN hs |-> SubSeq(hs[x], k + 1, Len(hs[x]))])
\* attributes given by the cells of row r beyond the first k; later columns of the same name win, nameless ones count for nothing
RowAttrs(r, k, names) ==
  LET ks == {x \in (k + 1)..Len(r) : names[x - k] # ""}
      nm == {names[x - k] : x \in ks}
  IN [n \in nm |-> r[CHOOSE x \in ks : names[x - k] = n /\ \A y \in ks : names[y - k] = n => y <= x]]
Cell(r, k) == IF k <= Len(r) THEN r[k] ELSE ""
OrElse(x, d) == IF x = "" THEN d ELSE x

ConflictType(r) == StrHas(StrLower(r[6]), "conflict")
CampType(x) == StrHas(StrLower(x), "camp")
FloorDiv(a, b) == RFloor(RDiv(a, b))

\* The location a row describes, as arguments of addLocation.
LocOf(S, rows, r, names) ==
  LET home == OrElse(rows[1][3], "unknown")
      country == OrElse(r[3], "unknown")
      type == IF ConflictType(r) /\ RLt(0, r[7]) THEN "town" ELSE r[6]
      size == IF r[8] = "" THEN 0 ELSE FloorDiv(r[8], S.PopulationScaleDownFactor)
      base == [name |-> r[1], region |-> OrElse(r[2], "unknown"), country |-> country, x |-> OrElse(r[4], "0"), y |-> OrElse(r[5], "0"),
               foreign |-> country # home, location_type |-> type, attributes |-> RowAttrs(r, 8, names)]
  IN IF CampType(type) THEN base @@ [capacity |-> size] ELSE base @@ [pop |-> size]

\* Failing clauses of a location L that was created with arguments kw.
NewLoc(S, par, L, kw) ==
  LET mc0 == Get(kw, "movechance", IF par THEN S.DefaultMoveChance ELSE "1")
      K == CreatedKind(S, Get(kw, "location_type", ""), mc0, Get(kw, "attributes", <<>>))
  IN C("loc.values", /\ L.name = kw.name /\ L.region = Get(kw, "region", "unknown") /\ L.country = Get(kw, "country", "unknown")
                     /\ REq(L.x, Get(kw, "x", "0")) /\ REq(L.y, Get(kw, "y", "0"))
                     /\ REq(L.cap, Get(kw, "capacity", "-1")) /\ REq(L.pop, Get(kw, "pop", "0"))
                     /\ L.foreign = Get(kw, "foreign", FALSE) /\ L.n = 0 /\ L.spawned = 0 /\ L.toc = -1)
     \cup C("loc.attrs", DOMAIN L.attrs = DOMAIN Get(kw, "attributes", <<>>)
                         /\ \A x \in DOMAIN L.attrs : L.attrs[x] = kw.attributes[x])
     \cup C("loc.kind", /\ REq(L.mc, K.mc) /\ REq(L.conflict, K.conflict) /\ L.camp = K.camp /\ L.idp = K.idp
                        /\ L.fwd = K.fwd /\ L.marker = K.marker /\ L.flood = K.flood /\ L.town = K.town)

\* Roads out of location i that the rows describe, in order: <<to, length, redirected?, attributes>>
RoadsOf(locs, rows, names, i) ==
  LET one(r) ==
        LET a == CHOOSE x \in Index(locs, r[1]) : TRUE
            b == CHOOSE x \in Index(locs, r[2]) : TRUE
            fl == OrElse(Cell(r, 4), "0")
            at == IF Len(r) > 4 THEN RowAttrs(r, 4, names) ELSE [x \in {} |-> ""]
            rd(x, f) == [to |-> x, dist |-> r[3], closed |-> FALSE, forced |-> f, attrs |-> at, cum |-> 0, n |-> 0, nr |-> 0]
        IN (IF a = i THEN <<rd(b, REq(fl, 1))>> ELSE <<>>) \o (IF b = i THEN <<rd(a, REq(fl, 2))>> ELSE <<>>)
  IN Flatten([k \in DOMAIN rows |-> one(rows[k])])

Filled(s) == LET f(x) == x # "" IN SelectSeq(s, f)
Reverse(s) == [k \in 1..Len(s) |-> s[Len(s) + 1 - k]]
MajorOf(locs, rows, i) ==
  LET ix(s) == [k \in DOMAIN s |-> CHOOSE x \in Index(locs, s[k]) : TRUE]
      one(r) == (IF r[1] = locs[i].name THEN <<ix(Filled(Tail(r)))>> ELSE <<>>)
                \o (IF Last(r) = locs[i].name THEN <<ix(Filled(Reverse(SubSeq(r, 1, Len(r) - 1))))>> ELSE <<>>)
  IN Flatten([k \in DOMAIN rows |-> one(rows[k])])

\* A table by day: columns with names, one row per day.
Columns(f) == IF f = <<>> THEN <<>> ELSE [k \in 1..(Len(f[1]) - 1) |-> StrTrim(f[1][k + 1])]
ByDay(f, c, day) == StrTrim(f[day + 2][c + 1])
Days0(f) == Len(f) - 1

\* which tables are read
FloodFile(S) == S.flood_driven_spawning \/ (S.FloodRulesEnabled /\ S.FloodLevelInputFile # "")
ConflictFile(S) == ~FloodFile(S) /\ ~S.FloodRulesEnabled /\ S.ConflictInputFile # ""

Input(S, st, st2, e) ==
  LET rows == Rows(e.locations)
      lnames == Extra(e.locations, 8)
      links == Rows(e.routes)
      rnames == Extra(e.routes, 4)
      n == Len(rows)
      cl == Rows(e.closures)
      ch == Rows(e.changes)
      mj == Rows(e.major)
      locs == st2.locs
      want == [i \in DOMAIN locs |-> [locs[i] EXCEPT !.links = RoadsOf(locs, links, rnames, i), !.closed = <<>>]]
  IN IF Len(st2.locs) # n \/ \E i \in 1..n : locs[i].name # rows[i][1] THEN {"input.locations"} ELSE
     UNION {NewLoc(S, st2.par, locs[i], LocOf(S, rows, rows[i], lnames)) : i \in 1..n}
     \cup C("input.roads", SameRoads(want, locs))
     \cup C("input.major", \A i \in 1..n : SameBag(locs[i].major, MajorOf(locs, mj, i)))
     \cup C("input.closures", e.ret.closures = [k \in DOMAIN cl |-> <<cl[k][1], cl[k][2], cl[k][3], RTrunc(cl[k][4]), RTrunc(cl[k][5])>>])
     \cup C("input.changes", e.ret.changes = [k \in DOMAIN ch |-> <<ch[k][1], ch[k][2], ch[k][3]>>])
     \cup C("input.places", e.ret.names = [i \in 1..n |-> rows[i][1]]
                             /\ \A i \in 1..n : e.ret.map[i] = i)
     \cup C("input.table", IF ConflictFile(S)
                           THEN /\ e.ret.table.names = Columns(e.conflicts)
                                /\ \A k \in DOMAIN e.ret.table.names :
                                     SameList(e.ret.table.values[k], [d \in 1..Days0(e.conflicts) |-> ByDay(e.conflicts, k, d - 1)], EqR)
                           ELSE e.ret.table.names = <<>>)
     \cup C("input.state", st2.agents = <<>> /\ st2.t = 0 /\ st2.total = 0)
     \cup C("loc.weights", SameList(st2.sw, SpawnWeights(S, locs, st2.t), EqR))
GeoOf(S, e) == [locs |-> Rows(e.locations), table |-> IF ConflictFile(S) THEN e.conflicts ELSE <<>>,
                flood |-> IF FloodFile(S) THEN e.flood ELSE <<>>, changes |-> Rows(e.changes)]

(***************************************************************************)
(* The timeline: what day t changes.                                       *)
(***************************************************************************)
RECURSIVE Changes(_, _, _, _)
Changes(S, locs, rows, t) ==
  IF rows = <<>> THEN locs
  ELSE Changes(S, IF REq(Head(rows)[3], t) THEN ChangeType(S, locs, Head(rows)[1], Head(rows)[2]) ELSE locs, Tail(rows), t)

\* Result of the conflict part: [locs, w]; w: were spawn weights recomputed?
RECURSIVE Dated(_, _, _, _, _)
Dated(S, r, rows, t, now) ==
  IF rows = <<>> THEN r
  ELSE LET x == Head(rows)
           I == Index(r.locs, x[1])
           int == IF I = {} THEN "1" ELSE Get(r.locs[CHOOSE i \in I : TRUE].attrs, "conflict_intensity", "1")
       IN Dated(S, IF ConflictType(x) /\ REq(x[7], t)
                   THEN [locs |-> StartConflict(S, r.locs, x[1], int, TRUE, now), w |-> TRUE] ELSE r, Tail(rows), t, now)
Positive(v) == RLt("0.000001", v)
RECURSIVE Tabled(_, _, _, _, _, _)
Tabled(S, r, f, c, t, now) ==
  IF c > Len(Columns(f)) THEN r
  ELSE LET v == ByDay(f, c, t)
           was == IF t = 0 THEN FALSE ELSE Positive(ByDay(f, c, t - 1))
           name == Columns(f)[c]
           r2 == IF Positive(v) /\ ~was
                 THEN [locs |-> StartConflict(S, r.locs, name, v, TRUE, now), w |-> r.w \/ Index(r.locs, name) # {}]
                 ELSE IF ~Positive(v) /\ was THEN [locs |-> EndConflict(S, r.locs, name, TRUE), w |-> TRUE] ELSE r
       IN Tabled(S, r2, f, c + 1, t, now)
\* flood levels of the day and the levels to come
Level0(f, name, t) == LET cs == {k \in DOMAIN Columns(f) : Columns(f)[k] = name}
                      IN IF cs = {} THEN "0" ELSE ByDay(f, CHOOSE k \in cs : TRUE, t)
Levels(f, name) == [d \in 1..Days0(f) |-> Level0(f, name, d - 1)]
FloodAttrs(S, L, f, t) ==
  [n \in DOMAIN L.attrs \cup {"flood_level"} |-> IF n = "flood_level" THEN Level0(f, L.name, t) ELSE L.attrs[n]]

Day(S, geo, st, st2, e) ==
  LET l1 == Changes(S, st.locs, geo.changes, e.t)
      r == IF S.FloodRulesEnabled THEN [locs |-> l1, w |-> FALSE]
           ELSE IF S.ConflictInputFile = "" THEN Dated(S, [locs |-> l1, w |-> FALSE], geo.locs, e.t, st.t)
           ELSE Tabled(S, [locs |-> l1, w |-> FALSE], geo.table, 1, e.t, st.t)
      fl == S.FloodRulesEnabled
  IN FrameT(st, st2) \cup FrameLocs(st, st2) \cup FrameSize(st, st2) \cup FrameRoads(st, st2) \cup FramePeople(st, st2)
     \cup FrameStats(st, st2) \cup FrameCounts(st, st2)
     \cup (IF Len(st.locs) # Len(st2.locs) THEN {"frame.locs"} ELSE
           C("day.kind", \A i \in DOMAIN r.locs : SameKind(r.locs[i], st2.locs[i]))
           \cup C("day.attrs", \A i \in DOMAIN st.locs :
                  LET A == IF fl THEN FloodAttrs(S, st.locs[i], geo.flood, e.t) ELSE st.locs[i].attrs  B == st2.locs[i].attrs
                  IN DOMAIN A = DOMAIN B /\ \A x \in DOMAIN A : IF x = "flood_level" THEN REq(A[x], B[x]) ELSE A[x] = B[x])
           \cup C("day.forecast", \A i \in DOMAIN st.locs :
                  IF fl /\ S.FloodForecaster THEN SameList(st2.locs[i].fc, Levels(geo.flood, st.locs[i].name), EqR)
                  ELSE st2.locs[i].fc = st.locs[i].fc))
     \cup (IF r.w THEN C("day.weights", SameList(st2.sw, SpawnWeights(S, r.locs, st.t), EqR)) ELSE FrameWeights(st, st2))
=============================================================================
