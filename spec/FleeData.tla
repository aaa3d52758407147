------------------------------ MODULE FleeData ------------------------------
(***************************************************************************)
(* Registration data: tables of dated counts, their interpolation, daily   *)
(* differences and corrections.                                            *)
(*                                                                         *)
(* D   data set: [h, t, d0, empty]: names, tables (sequences of            *)
(*     <<day, count>>), day-zero counts already taken note of, and whether *)
(*     the simulation starts empty                                         *)
(* Counts are truncated to whole persons; where the exact value lies on a  *)
(* whole number, rounding may decide, hence sets of possible values.       *)
(***************************************************************************)
EXTENDS FleeBase

CD(name, cond) == IF cond THEN {} ELSE {name}
TruncSet(x) == {RTrunc(x), RTrunc(RAdd(x, "0.0000001")), RTrunc(RSub(x, "0.0000001"))}

\* Rows of a data file: sequences of cells.
Countable(r) == Len(r) >= 2 /\ ~StrStarts(r[1], "#") /\ r[2] # ""
Header(r) == Len(r) > 1 /\ r[1] \in {"", "DateTime", "Date"}
TableOf(rows, start, scale) ==
  LET body == IF rows # <<>> /\ Header(rows[1]) THEN Tail(rows) ELSE rows
      good == SelectSeq(body, Countable)
  IN [k \in DOMAIN good |-> <<DateDays(good[k][1]) - DateDays(start), RDiv(good[k][2], scale)>>]

\* Sum of two tables: on every date of either; the one that says nothing for a date counts with its next value
\* (the first) or its previous value (the second).
At(tab, d) == {k \in DOMAIN tab : tab[k][1] = d}
ValueFirst(a, d) ==
  IF At(a, d) # {} THEN a[CHOOSE k \in At(a, d) : TRUE][2]
  ELSE LET later == {k \in DOMAIN a : a[k][1] > d}
       IN IF later = {} THEN Last(a)[2] ELSE a[CHOOSE k \in later : \A j \in later : k <= j][2]
ValueSecond(b, d) ==
  IF At(b, d) # {} THEN b[CHOOSE k \in At(b, d) : TRUE][2]
  ELSE LET before == {k \in DOMAIN b : b[k][1] < d}
       IN IF before = {} THEN "0" ELSE b[CHOOSE k \in before : \A j \in before : j <= k][2]
RECURSIVE SortedDays(_)
SortedDays(ds) == IF ds = {} THEN <<>> ELSE LET m == CHOOSE x \in ds : \A y \in ds : x <= y IN <<m>> \o SortedDays(ds \ {m})
AddTables(a, b) ==
  LET ds == SortedDays({a[k][1] : k \in DOMAIN a} \cup {b[k][1] : k \in DOMAIN b})
  IN [k \in DOMAIN ds |-> <<ds[k], RAdd(ValueFirst(a, ds[k]), ValueSecond(b, ds[k]))>>]
RECURSIVE SumTables(_)
SumTables(ts) == IF Len(ts) = 1 THEN ts[1] ELSE SumTables(<<AddTables(ts[1], ts[2])>> \o SubSeq(ts, 3, Len(ts)))

\* The data set described by a layout file and the files it names.
DataSet(e) ==
  LET named(r) == Len(r) > 1 /\ ~StrStarts(r[1], "#")
      ls == SelectSeq(e.layout, named)
      tabs(r) == [k \in 1..(Len(r) - 1) |-> TableOf(e.files[r[k + 1]], e.start, e.scale)]
  IN [h |-> [k \in DOMAIN ls |-> ls[k][1]], t |-> [k \in DOMAIN ls |-> SumTables(tabs(ls[k]))],
      d0 |-> [x \in {} |-> "0"], empty |-> e.empty, start |-> e.start, scale |-> e.scale]

Exact(tab, day) ==
  IF day <= tab[1][1] THEN tab[1][2]
  ELSE LET later == {k \in DOMAIN tab : tab[k][1] > day}
       IN IF later = {} THEN Last(tab)[2]
          ELSE LET n == CHOOSE k \in later : \A j \in later : k <= j
                   p == n - 1
               IN RAdd(tab[p][2], RMul(RDiv(day - tab[p][1], tab[n][1] - tab[p][1]), RSub(tab[n][2], tab[p][2])))
Registered(tab, day) ==
  LET upto == {k \in DOMAIN tab : tab[k][1] <= day}
  IN IF upto = {} THEN tab[1][2] ELSE tab[CHOOSE k \in upto : \A j \in upto : j <= k][2]
Col(D, name) == CHOOSE k \in DOMAIN D.h : D.h[k] = name /\ \A j \in 1..(k - 1) : D.h[j] # name
Day0(D, name) == RTrunc(Get(D.d0, name, "0"))

\* possible values of a field
Field(D, name, day, full) ==
  LET tab == D.t[Col(D, name)]
      raw == TruncSet(IF full THEN Exact(tab, day) ELSE Registered(tab, day))
  IN {x - (IF D.empty THEN Day0(D, name) ELSE 0) : x \in raw}
SetMin(X) == CHOOSE x \in X : \A y \in X : x <= y
SetMax(X) == CHOOSE x \in X : \A y \in X : y <= x
\* possible sums of fields over columns ks: everything between lo and hi
RECURSIVE Spread(_, _, _, _, _)
Spread(D, ks, day, full, which) ==
  IF ks = <<>> THEN 0
  ELSE (IF which = "lo" THEN SetMin(Field(D, D.h[Head(ks)], day, full)) ELSE SetMax(Field(D, D.h[Head(ks)], day, full)))
       + Spread(D, Tail(ks), day, full, which)
Camps(D) == [k \in 1..(Len(D.h) - 1) |-> k + 1]
Everything(D) == [k \in 1..Len(D.h) |-> k]

Within(x, lo, hi) == lo <= x /\ x <= hi
\* Is x the change of the total on the given day?
DiffOK(D, ks, day, full, x) ==
  IF day = 0
  THEN IF D.empty THEN x = 0 ELSE Within(x, Spread(D, ks, 0, full, "lo"), Spread(D, ks, 0, full, "hi"))
  ELSE Within(x, Spread(D, ks, day, full, "lo") - Spread(D, ks, day - 1, full, "hi"),
                 Spread(D, ks, day, full, "hi") - Spread(D, ks, day - 1, full, "lo"))
Diff(D, e, k) ==
  LET x == e.ret[k]
      day == e.days[k]
      total == <<Col(D, "total")>>
  IN IF ~e.sum THEN CD("data.diff", DiffOK(D, total, day, e.full, x))
     ELSE IF DiffOK(D, Camps(D), day, e.full, x) THEN {}
     ELSE IF day = 0 /\ DiffOK(D, Everything(D), day, e.full, x) THEN {"data.day0.withtotal"}
     ELSE {"data.diff"}
\* The first question about day zero takes note of the day-zero counts.
NoteDay0(D, full, d0) ==
  /\ DOMAIN d0 = Range(D.h)
  /\ \A n \in DOMAIN d0 : IF Day0(D, n) # 0 THEN RTrunc(d0[n]) = Day0(D, n) ELSE RTrunc(d0[n]) \in Field(D, n, 0, full)

SameTables(a, b) == Len(a) = Len(b) /\ \A k \in DOMAIN a :
   Len(a[k]) = Len(b[k]) /\ \A j \in DOMAIN a[k] : RTrunc(a[k][j][1]) = RTrunc(b[k][j][1]) /\ RClose(a[k][j][2], b[k][j][2])
SameDay0(a, b) == \A x \in DOMAIN a \cup DOMAIN b : REq(Get(a, x, "0"), Get(b, x, "0"))
Unchanged(D, dp) == D.h = dp.h /\ SameTables(D.t, dp.t) /\ SameDay0(D.d0, dp.d0)

\* Level 1 corrections: registrations before the correction date shrink by the ratio of the first corrected to
\* the last uncorrected count.
L1Rows(tab, days) == {k \in DOMAIN tab : k > 1 /\ tab[k][1] = days}
L1Ratio(D, c, days) ==
  LET tab == D.t[c]
      i == CHOOSE k \in L1Rows(tab, days) : TRUE
      z == Day0(D, D.h[c])
  IN RDiv(RAdd(tab[i][2], z), RAdd(tab[i - 1][2], z))
L1Active(D, name, date) == LET days == DateDays(date) - DateDays(D.start) IN days >= 0 /\ L1Rows(D.t[Col(D, name)], days) # {}
L1(D, name, date) ==
  LET days == DateDays(date) - DateDays(D.start)
      c == Col(D, name)
      f == L1Ratio(D, c, days)
      i == CHOOSE k \in L1Rows(D.t[c], days) : TRUE
  IN IF ~L1Active(D, name, date) THEN D
     ELSE [D EXCEPT !.t[c] = [k \in DOMAIN @ |-> IF k < i THEN <<@[k][1], RMul(@[k][2], f)>> ELSE @[k]]]
L1Factor(D, name, date) ==
  IF L1Active(D, name, date) THEN L1Ratio(D, Col(D, name), DateDays(date) - DateDays(D.start)) ELSE "1"
RECURSIVE L1All(_, _)
L1All(D, rows) ==
  IF rows = <<>> THEN D ELSE L1All(IF Len(Head(rows)) > 1 THEN L1(D, Head(rows)[1], Head(rows)[2]) ELSE D, Tail(rows))

\* largest registered count up to and including the first registration on or after the given day
MaxUpTo(D, name, days) ==
  LET tab == D.t[Col(D, name)]
      counts(k) == \A j \in 1..(k - 1) : tab[j][1] < days
      vs == {RTrunc(tab[k][2]) : k \in {j \in DOMAIN tab : counts(j)}} \cup {0}
  IN SetMax(vs)
Interpolated(D, name, day) == D.h # <<>> /\ name \in Range(D.h) => \A k \in DOMAIN D.t[Col(D, name)] : D.t[Col(D, name)][k][1] # day

DataOps == {"data", "dfield", "ddiff", "dmax", "dinterp", "dover", "l1", "l1file", "dates"}
\* Failing clauses of an event about data; D the data set before it.
DataEvent(D, e) ==
  CASE e.op = "data" -> LET N == DataSet(e) IN
         CD("data.table", e.dp.h = N.h /\ SameTables(N.t, e.dp.t) /\ SameDay0(N.d0, e.dp.d0))
    [] e.op = "dates" -> CD("data.dates", /\ \A k \in DOMAIN e.pairs : e.ret.sub[k] = DateDays(e.pairs[k][1]) - DateDays(e.pairs[k][2])
                                          /\ \A k \in DOMAIN e.steps : e.ret.step[k] = DateOf(DateDays(e.steps[k][2]) + e.steps[k][1]))
    [] e.op = "dfield" -> CD("data.field", \A k \in DOMAIN e.days : e.ret[k] \in Field(D, e.name, e.days[k], e.full))
                          \cup CD("data.kept", Unchanged(D, e.dp))
    [] e.op = "ddiff" -> LET z == \E k \in DOMAIN e.days : e.days[k] = 0
                             D2 == IF z THEN [D EXCEPT !.d0 = e.dp.d0] ELSE D
                         IN UNION {Diff(D2, e, k) : k \in DOMAIN e.days}
                            \cup CD("data.kept", D.h = e.dp.h /\ SameTables(D.t, e.dp.t) /\ (IF z THEN NoteDay0(D, e.full, e.dp.d0) ELSE SameDay0(D.d0, e.dp.d0)))
    [] e.op = "dmax" -> CD("data.max", \A k \in DOMAIN e.days : e.ret[k] = MaxUpTo(D, e.name, e.days[k])) \cup CD("data.kept", Unchanged(D, e.dp))
    [] e.op = "dinterp" -> CD("data.interpolated", \A k \in DOMAIN e.days : e.ret[k] = Interpolated(D, e.name, e.days[k])) \cup CD("data.kept", Unchanged(D, e.dp))
    [] e.op = "dover" -> CD("data.override", Unchanged([D EXCEPT !.h = Append(@, "total (modified input)"),
                                                                  !.t = Append(@, TableOf(e.rows, D.start, D.scale))], e.dp))
    [] e.op = "l1" -> CD("l1.table", Unchanged(L1(D, e.name, e.date), e.dp)) \cup CD("l1.factor", RClose(e.ret, L1Factor(D, e.name, e.date)))
    [] e.op = "l1file" -> CD("l1.table", Unchanged(L1All(D, e.rows), e.dp))
    [] OTHER -> {}
\* A correction relative to less than one registered person is refused.
L1Refused(D, name, date) ==
  L1Active(D, name, date) /\
  LET c == Col(D, name)  i == CHOOSE k \in L1Rows(D.t[c], DateDays(date) - DateDays(D.start)) : TRUE
  IN RLt(RAdd(D.t[c][i - 1][2], Day0(D, name)), 1)
RECURSIVE L1FileRefused(_, _)
L1FileRefused(D, rows) ==
  IF rows = <<>> THEN FALSE
  ELSE IF Len(Head(rows)) <= 1 THEN L1FileRefused(D, Tail(rows))
  ELSE L1Refused(D, Head(rows)[1], Head(rows)[2]) \/ L1FileRefused(L1(D, Head(rows)[1], Head(rows)[2]), Tail(rows))
DataMayFail(D, e) ==
  \/ e.op = "l1" /\ L1Refused(D, e.name, e.date)
  \/ e.op = "l1file" /\ L1FileRefused(D, e.rows)
DataAfter(D, e) == IF e.op = "data" THEN [DataSet(e) EXCEPT !.h = e.dp.h, !.t = [k \in DOMAIN e.dp.t |-> [j \in DOMAIN e.dp.t[k] |-> <<RTrunc(e.dp.t[k][j][1]), e.dp.t[k][j][2]>>]], !.d0 = e.dp.d0]
                   ELSE IF "dp" \in DOMAIN e
                   THEN [D EXCEPT !.h = e.dp.h, !.t = [k \in DOMAIN e.dp.t |-> [j \in DOMAIN e.dp.t[k] |-> <<RTrunc(e.dp.t[k][j][1]), e.dp.t[k][j][2]>>]], !.d0 = e.dp.d0]
                   ELSE D
=============================================================================
