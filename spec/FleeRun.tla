------------------------------- MODULE FleeRun -------------------------------
(***************************************************************************)
(* The main programs: a run reads its input files, simulates its days in   *)
(* order and prints a table with a row per day.                            *)
(*                                                                         *)
(* pg  [on, start, end, day, done, inits, l1, data, people, names, table,  *)
(*      lines, refused]: the run so far.  start/end: its period; day: the  *)
(*      day being simulated; done: what was done on it; inits: the camps   *)
(*      filled; names: camps reported; table: what the rows of the days    *)
(*      simulated have to say; lines: number of lines printed              *)
(***************************************************************************)
EXTENDS FleeInput, FleeMetrics

NoPg == [on |-> FALSE, start |-> "", end |-> 0, day |-> 0, done |-> {}, inits |-> {}, l1 |-> FALSE, data |-> FALSE, people |-> FALSE,
         names |-> <<>>, table |-> <<>>, lines |-> 0, refused |-> FALSE]

\* The period of the run: a file of rows [key, value]; a number of days on the command line overrides its length.
Setting(rows, key) ==
  LET has(r) == Len(r) > 1 /\ StrLower(r[1]) = key
      hs == SelectSeq(rows, has)
  IN IF hs = <<>> THEN "" ELSE Last(hs)[2]
PgNew(e) == [NoPg EXCEPT !.on = TRUE, !.start = Setting(e.period, "startdate"),
                         !.end = IF e.days > 0 THEN e.days ELSE RTrunc(Setting(e.period, "length"))]

CampsOf(st) == {i \in DOMAIN st.locs : st.locs[i].camp}
Idx(st, name) == CHOOSE i \in DOMAIN st.locs : st.locs[i].name = name

\* What the row of a day says.
Entry(S, D, sp, pg, st) ==
  [date |-> DateOf(DateDays(pg.start) + pg.day),
   camps |-> [k \in DOMAIN pg.names |-> [n |-> st.locs[Idx(st, pg.names[k])].n, data |-> Field(D, pg.names[k], pg.day, TRUE)]],
   total |-> st.total, raw |-> sp.raw, debt |-> sp.debt,
   idps |-> SumOver(st.locs, LAMBDA L : L.idp, 1)]

Heading(S, names) ==
  <<"Day", "Date">> \o Flatten([k \in DOMAIN names |-> <<StrCat(names[k], " sim"), StrCat(names[k], " data"), StrCat(names[k], " error")>>])
  \o <<"Total error", "refugees in camps (UNHCR)", "total refugees (simulation)", "raw UNHCR refugee count",
       "refugees in camps (simulation)", "refugee_debt">>
  \o (IF RLt(0, S.idp_totals) THEN <<"total IDPs">> ELSE <<>>)

\* Row number k of the table.
RowOK(S, names, T, k, c) ==
  LET n == Len(names)
      w == T[k]
      b == 2 + 3 * n
      data(q) == RTrunc(c[3 * q + 1])
      sums == RSumSeq([q \in 1..n |-> data(q)])
      off == RSumSeq([q \in 1..n |-> AbsError(w.camps[q].n, data(q))])
      incamps == ISumSeq([q \in 1..n |-> w.camps[q].n])
  IN IF Len(c) # b + 6 + (IF RLt(0, S.idp_totals) THEN 1 ELSE 0) \/ \E q \in DOMAIN c : q # 2 /\ ~StrIsNum(c[q]) THEN {"run.row"}
     ELSE C("run.date", REq(c[1], k - 1) /\ c[2] = w.date)
          \cup C("run.camps", \A q \in 1..n : /\ REq(c[3 * q], w.camps[q].n)
                                              /\ REq(c[3 * q + 1], data(q)) /\ data(q) \in w.camps[q].data)
          \cup C("run.error", \A q \in 1..n : Near(c[3 * q + 2], RelError(w.camps[q].n, data(q))))
          \cup C("run.totals", /\ REq(c[b + 3], w.total) /\ REq(c[b + 5], incamps)
                               /\ IF w.raw > 0
                                  THEN Near(c[b + 1], RDiv(off, w.raw)) /\ REq(c[b + 2], sums) /\ REq(c[b + 4], w.raw) /\ REq(c[b + 6], w.debt)
                                  ELSE REq(c[b + 1], 0) /\ REq(c[b + 2], 0) /\ REq(c[b + 4], 0) /\ REq(c[b + 6], 0))
          \cup (IF RLt(0, S.idp_totals) THEN C("run.idps", REq(c[b + 7], w.idps)) ELSE {})

\* Lines printed: the heading, then the rows, one for every day simulated.
Line(S, pg, k, c) ==
  IF k = 1 THEN C("run.heading", c = Heading(S, pg.names))
  ELSE IF k - 1 > Len(pg.table) THEN {"run.stray"} ELSE RowOK(S, pg.names, pg.table, k - 1, c)
Lines(S, pg, e) ==
  IF ~pg.on \/ "lines" \notin DOMAIN e THEN {}
  ELSE UNION {Line(S, pg, pg.lines + k, e.lines[k]) : k \in DOMAIN e.lines}

\* Is the operation in its place?
Ready(S, pg, st) == C("run.initial", pg.inits = CampsOf(st)) \cup C("run.agents", pg.people = S.read_from_agents_csv_file)
Place(S, pg, st, e) ==
  IF ~pg.on THEN {} ELSE
  CASE e.op = "data"   -> C("run.data", e.start = pg.start /\ REq(e.scale, S.PopulationScaleDownFactor) /\ e.empty = S.EmptyCampsOnDay0 /\ ~pg.data)
    [] e.op = "l1file" -> C("run.corrections", pg.data /\ ~pg.l1 /\ pg.inits = {} /\ pg.day = 0)
    [] e.op = "agentscsv" -> C("run.agents", S.read_from_agents_csv_file /\ ~pg.people /\ pg.day = 0 /\ pg.done = {})
    [] e.op = "spawninit" -> C("run.initial", st.locs[e.i].camp /\ e.i \notin pg.inits /\ pg.l1 /\ pg.day = 0 /\ pg.done = {})
    [] e.op = "day" -> C("run.order", e.t = pg.day /\ e.t < pg.end /\ "day" \notin pg.done)
                       \cup (IF pg.day = 0 /\ pg.done = {} THEN Ready(S, pg, st) ELSE {})
    [] e.op = "spawnday" -> C("run.order", e.t = pg.day /\ "day" \in pg.done /\ "spawnday" \notin pg.done)
    [] e.op = "enact" -> C("run.order", e.time = pg.day /\ e.time < pg.end /\ "enact" \notin pg.done)
                         \cup (IF pg.day = 0 /\ pg.done = {} THEN Ready(S, pg, st) ELSE {})
    [] e.op = "evolve" -> C("run.order", {"day", "spawnday", "enact"} \subseteq pg.done)
    [] e.op = "program" -> C("run.complete", pg.refused \/ (pg.day = pg.end /\ pg.lines + Len(Get(e, "lines", <<>>)) = pg.end + 1))
    [] OTHER -> {}

PgAfter(S, D, sp, pg, e) ==
  IF e.op = "prog" THEN PgNew(e)
  ELSE IF ~pg.on THEN pg
  ELSE LET p == [pg EXCEPT !.lines = @ + Len(Get(e, "lines", <<>>)), !.refused = @ \/ e.exc # ""] IN
  CASE e.op = "data"      -> [p EXCEPT !.data = TRUE]
    [] e.op = "l1file"    -> [p EXCEPT !.l1 = TRUE]
    [] e.op = "agentscsv" -> [p EXCEPT !.people = TRUE]
    [] e.op = "spawninit" -> [p EXCEPT !.inits = @ \cup {e.i}]
    [] e.op = "input" /\ "post" \in DOMAIN e ->
         [p EXCEPT !.names = LET isc(L) == L.camp  cs == SelectSeq(e.post.locs, isc) IN [i \in DOMAIN cs |-> cs[i].name]]
    [] e.op \in {"day", "spawnday", "enact"} -> [p EXCEPT !.done = @ \cup {e.op}]
    [] e.op = "evolve" /\ "post" \in DOMAIN e ->
         [p EXCEPT !.table = Append(@, TLCEval(Entry(S, D, sp, p, e.post))), !.day = @ + 1, !.done = {}]
    [] OTHER -> p
=============================================================================
