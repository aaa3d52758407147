---------------------------- MODULE FleeCoupling ----------------------------
(***************************************************************************)
(* Models that exchange people at coupled locations.                       *)
(*                                                                         *)
(* cp   [on, kind, sub, n, locs, total, at, new]: how a model is coupled;  *)
(*      locs is a sequence of [i, name, dir, interval]; the rest is the    *)
(*      history that its exchange logs show                                *)
(* A message is a sequence of rows <<name, number>>; e.inbox holds the     *)
(* messages the partner's instances sent for the day.                      *)
(***************************************************************************)
EXTENDS FleeFrame

NoCp == [on |-> FALSE, kind |-> "", sub |-> "", n |-> 0, locs |-> <<>>, total |-> <<>>, at |-> <<>>, new |-> <<>>]
CpNew(e) == [NoCp EXCEPT !.on = TRUE, !.kind = e.kind, !.sub = e.sub, !.n = e.n]
CpAdd(cp, e) == IF \E k \in DOMAIN cp.locs : cp.locs[k].i = e.i THEN cp
                ELSE [cp EXCEPT !.locs = Append(@, [i |-> e.i, name |-> e.name, dir |-> e.dir, interval |-> e.interval])]

Model(cp) == cp.sub \in {"macro", "micro"}
Due(cp, t) == t % cp.locs[1].interval = 0
Gives(c) == c.dir \in {"out", "inout"}
Takes(c) == c.dir \in {"in", "inout"}
Message(cp, st) == LET o == SelectSeq(cp.locs, Gives) IN [k \in DOMAIN o |-> <<o[k].name, ToString(st.locs[o[k].i].n)>>]

\* What the instances report for a name, and the mean of it: a half may be rounded either way.
Reports(inbox, name) ==
  Flatten([r \in DOMAIN inbox |-> LET m == SelectSeq(inbox[r], LAMBDA x : x[1] = name) IN IF m = <<>> THEN <<>> ELSE <<m[Len(m)][2]>>])
MeanSet(s) ==
  IF s = <<>> THEN {0}
  ELSE LET m == RDiv(RSumSeq(s), Len(s))  f == RTrunc(m)  d == RSub(m, f)
       IN (IF RLe(d, "0.5") THEN {f} ELSE {}) \cup (IF RLe("0.5", d) THEN {f + 1} ELSE {})
Incoming(cp, e, name) == MeanSet(Reports(e.inbox, name))

\* Coupled locations are emptied, and refilled with what the partner sent; everybody else stays.
Exchange(S, cp, st, st2, e) ==
  LET I == {cp.locs[k].i : k \in DOMAIN cp.locs}
      gone(a) == a.at.k = "L" /\ a.at.i \in I
      stay(a) == ~gone(a)
      kept == SelectSeq(st.agents, stay)
      m == Len(kept)
      nw == SubSeq(st2.agents, m + 1, Len(st2.agents))
      new(i) == Cardinality({k \in DOMAIN nw : nw[k].at.k = "L" /\ nw[k].at.i = i})
      due(i) == LET c == cp.locs[CHOOSE k \in DOMAIN cp.locs : cp.locs[k].i = i] IN IF Takes(c) THEN Incoming(cp, e, c.name) ELSE {0}
  IN IF Len(st2.agents) < m THEN {"couple.people"} ELSE
     C("couple.people", /\ SamePeople(st, st2, kept, SubSeq(st2.agents, 1, m))
                        /\ \A k \in DOMAIN nw : nw[k].at.k = "L" /\ nw[k].at.i \in I /\ NewPerson(nw[k], nw[k].at.i, [x \in {} |-> ""]))
     \cup C("couple.received", \A i \in I : new(i) \in due(i))
     \cup C("couple.counts", \A i \in DOMAIN st.locs : st2.locs[i].n = st.locs[i].n + (IF i \in I THEN new(i) - Live(st, i) ELSE 0))
     \cup C("couple.total", st2.total = Len(st2.agents))
     \cup FrameT(st, st2) \cup FrameLocs(st, st2) \cup FrameSize(st, st2) \cup FrameKind(st, st2) \cup FrameAttr(st, st2)
     \cup FrameRoads(st, st2) \cup FrameStats(st, st2) \cup FrameWeights(st, st2)

\* Managers of several instances pass the means on to all of them.
Managed(cp, e) ==
  LET names == {cp.locs[k].name : k \in DOMAIN cp.locs}
      told == {n \in names : Reports(e.inbox, n) # <<>>}
      ok(m) == /\ {m[k][1] : k \in DOMAIN m} = told /\ Len(m) = Cardinality(told)
               /\ \A k \in DOMAIN m : RTrunc(m[k][2]) \in Incoming(cp, e, m[k][1])
  IN C("couple.manager", /\ Len(e.msgs) = cp.n
                         /\ \A r \in 1..cp.n : Cardinality({k \in DOMAIN e.msgs : e.msgs[k].slot = r - 1}) = 1
                         /\ \A k \in DOMAIN e.msgs : ok(e.msgs[k].rows) /\ REq(e.msgs[k].time, e.time))

Couple(S, cp, st, st2, e) ==
  IF ~Due(cp, e.time)
  THEN StdFrame(st, st2) \cup C("couple.idle", e.files = <<>> /\ e.msgs = <<>>)
  ELSE (IF ~Model(cp) THEN StdFrame(st, st2) \cup Managed(cp, e)
        ELSE Exchange(S, cp, st, st2, e)
             \cup (IF cp.kind = "file"
                   THEN C("couple.sent", e.files = <<e.file>> /\ SameBag(e.sent, Message(cp, st)))
                        \* nobody ever sees a part of a message
                        \cup C("couple.whole", \A k \in DOMAIN e.seen : e.seen[k] \in {"-", e.raw})
                   ELSE C("couple.sent", /\ Len(e.msgs) = 1 /\ SameBag(e.msgs[1].rows, Message(cp, st)) /\ REq(e.msgs[1].time, e.time)))
             \cup C("couple.wait", ~e.early))

CpAfter(cp, st, e) ==
  CASE e.op = "cpnew" -> CpNew(e)
    [] e.op = "cpadd" -> CpAdd(cp, e)
    [] e.op = "couple" /\ Due(cp, e.time) /\ Model(cp) ->
         [cp EXCEPT !.total = Append(@, <<ToString(e.time), ToString(st.total)>>),
                    !.at = Append(@, <<ToString(e.time)>> \o [k \in DOMAIN Message(cp, st) |-> Message(cp, st)[k][2]])]
    [] e.op = "cpnewlog" -> [cp EXCEPT !.new = Append(@, <<ToString(e.time), ToString(e.n)>>)]
    [] OTHER -> cp

\* The exchange logs, saved at the end: a header and one row per exchange (no file without rows)
Saved(cp, e) ==
  LET file(head, rows) == IF rows = <<>> THEN <<>> ELSE <<head>> \o rows
      names == LET o == SelectSeq(cp.locs, Gives) IN [k \in DOMAIN o |-> o[k].name]
  IN C("couple.logs", /\ e.ret.total = file(<<"day", "total_agents">>, cp.total)
                      /\ e.ret.at = file(<<"day">> \o names, cp.at)
                      /\ e.ret.new = file(<<"day", "new_refs">>, cp.new))

\* The combined output of all instances: day by day the means, whole numbers except for errors.
Combined(e) ==
  LET heads == e.head
      days == {e.tables[r][k][1] : r \in DOMAIN e.tables, k \in DOMAIN e.tables[1]}
      vals(d, c) == Flatten([r \in DOMAIN e.tables |-> LET m == SelectSeq(e.tables[r], LAMBDA x : x[1] = d) IN [k \in DOMAIN m |-> m[k][c]]])
      mean(d, c) == RDiv(RSumSeq(vals(d, c)), Len(vals(d, c)))
      okrow(x) == \A c \in 2..Len(heads) :
                    IF e.err[c] THEN RClose(x[c], mean(x[1], c)) ELSE REq(x[c], RTrunc(x[c])) /\ RTrunc(x[c]) \in MeanSet(vals(x[1], c))
  IN C("couple.combined", /\ e.ret.head = heads /\ Len(e.ret.rows) = Cardinality(days)
                          /\ {e.ret.rows[k][1] : k \in DOMAIN e.ret.rows} = days
                          /\ \A k \in DOMAIN e.ret.rows : okrow(e.ret.rows[k]))

CpOps == {"cpnew", "cpadd", "couple", "cpnewlog", "cpsave", "cpsum"}
CpEvent(S, cp, st, st2, e) ==
  CASE e.op = "couple" -> Couple(S, cp, st, st2, e)
    [] e.op = "cpsave" -> StdFrame(st, st2) \cup Saved(cp, e)
    [] e.op = "cpsum"  -> StdFrame(st, st2) \cup Combined(e)
    [] OTHER -> StdFrame(st, st2)
=============================================================================
