------------------------------ MODULE FleeLogs ------------------------------
(***************************************************************************)
(* The logs written at the end of a day's movement (before people in camps *)
(* that are sinks leave the simulation): rows are sequences of strings,    *)
(* the comma-separated fields of the new lines of a file.                  *)
(***************************************************************************)
EXTENDS FleeFrame

RegionLog(S) == S.granularity = "region"
LName(S, L) == IF RegionLog(S) THEN L.region ELSE L.name
RName(S, st, from, to) == "L:" \o LName(S, st.locs[from]) \o ":" \o LName(S, st.locs[to])

\* Name and coordinates of where somebody is.
PlaceIs(S, st, at, name, x, y) ==
  LET here(n, px, py) == name = n /\ (IF RegionLog(S) THEN REq(x, 0) /\ REq(y, 0) ELSE RClose(x, px) /\ RClose(y, py))
      road(f, t) == here(RName(S, st, f, t), RDiv(RAdd(st.locs[f].x, st.locs[t].x), 2), RDiv(RAdd(st.locs[f].y, st.locs[t].y), 2))
  IN CASE at.k = "L" -> here(LName(S, st.locs[at.i]), st.locs[at.i].x, st.locs[at.i].y)
       [] at.k = "K" -> road(at.i, st.locs[at.i].links[at.j].to)
       [] at.k = "O" -> road(at.lk.from, at.lk.to)
       [] OTHER -> \E i \in DOMAIN st.locs : /\ st.locs[i].camp /\ S.camps_are_sinks
                                             /\ RLt(0, Get(st.locs[i].attrs, "deactivation_probability", "0"))
                                             /\ here(LName(S, st.locs[i]), st.locs[i].x, st.locs[i].y)

Values(r) == SubSeq(r, 11, Len(r) - 1)     \* every value is followed by a comma
AgentHead == <<"#time", "rank-agentid", "original_location", "current_location", "gps_x", "gps_y", "is_travelling",
               "distance_travelled", "places_travelled", "distance_moved_this_timestep">>

\* Fields common to the rows of person p, the k-th of the list.
Common(S, st, p, k, r, rank) ==
  /\ Len(r) = 11 + Cardinality(DOMAIN p.attrs) /\ r[Len(r)] = ""
  /\ r[2] = ToString(rank) \o "-" \o ToString(k - 1)
  /\ r[3] = LName(S, st.locs[p.home])
  /\ r[7] = (IF p.trav THEN "True" ELSE "False")
  /\ RClose(r[8], p.dtrav) /\ REq(r[9], p.places)
  /\ LET vs == Values(r)
         cnt(s, v) == Cardinality({j \in DOMAIN s : s[j] = v})
         have(v) == Cardinality({n \in DOMAIN p.attrs : p.attrs[n] = v})
     IN \A j \in DOMAIN vs : cnt(vs, vs[j]) = have(vs[j])
\* the ground covered today, as the personal clocks of the evening tell it
Moved(S, a, p, r) == RClose(RDiv(RAdd(a.recent, RDiv(r[10], S.MaxMoveSpeed)), 2), p.recent)
Mine(rows, rank, k) == SelectSeq(rows, LAMBDA r : Len(r) > 1 /\ r[2] = ToString(rank) \o "-" \o ToString(k - 1))

\* The names of the roads passed today, as logged.
HopsOf(rows, rank, k) == LET m == Mine(rows, rank, k) IN [j \in 1..(IF m = <<>> THEN 0 ELSE Len(m) - 1) |-> IF Len(m[j + 1]) > 3 THEN m[j + 1][4] ELSE "?"]
HopPair(S, st, name) == LET c == {x \in (DOMAIN st.locs) \X (DOMAIN st.locs) : RName(S, st, x[1], x[2]) = name}
                        IN IF c = {} THEN <<0, 0>> ELSE CHOOSE x \in c : TRUE
\* Persons in the evening with the roads they passed, where the log tells them.
WithHops(S, st, pst, e) ==
  IF "log" \notin DOMAIN e \/ S.agent < 2 \/ RegionLog(S) THEN pst
  ELSE [k \in DOMAIN pst |-> LET h == HopsOf(e.log.a, 0, k) IN
          [pst[k] EXCEPT !.hops = [j \in DOMAIN h |-> HopPair(S, st, h[j])]] @@ [seen |-> TRUE]]

\* header (empty unless this is day 0) and the rows of day t, ags before and after the day
AgentRows(S, st, ags, pst, t, rank, head, rows) ==
  LET n == Len(pst)
      active == {k \in 1..n : ags[k].at.k # "N"}
      keys == SubSeq(head, 11, Len(head) - 1)
      OneOf(k) ==
        LET m == Mine(rows, rank, k)  p == pst[k]  a == ags[k] IN
        /\ m # <<>>
        /\ m[1][1] = ToString(t) /\ Common(S, st, p, k, m[1], rank) /\ Moved(S, a, p, m[1])
        /\ PlaceIs(S, st, p.at, m[1][4], m[1][5], m[1][6])
        /\ (S.agent < 2 => Len(m) = 1)
        /\ \A j \in 2..Len(m) :
             /\ m[j][1] = (IF S.agent > 2 THEN ToString(t) \o "-" \o ToString(j - 1) ELSE ToString(t))
             /\ Common(S, st, p, k, m[j], rank) /\ Moved(S, a, p, m[j])
             /\ \E f, g \in DOMAIN st.locs :
                  PlaceIs(S, st, [k |-> "O", lk |-> [from |-> f, to |-> g]], m[j][4], m[j][5], m[j][6])
        \* the columns are the ones the header announces
        /\ (head # <<>> /\ Cardinality(Range(keys)) = Len(keys) /\ DOMAIN p.attrs = Range(keys)) =>
             \A j \in DOMAIN keys : m[1][10 + j] = p.attrs[keys[j]]
  IN C("log.people", /\ \A x \in DOMAIN rows : \E k \in active : rows[x] \in Range(Mine(rows, rank, k))
                     /\ \A k \in active : Mine(rows, rank, k) # <<>>)
     \cup C("log.header", IF t = 0 THEN /\ Len(head) > 10 /\ SubSeq(head, 1, 10) = AgentHead
                                        /\ (n > 0 => Range(keys) = DOMAIN pst[1].attrs /\ Len(keys) = Cardinality(DOMAIN pst[1].attrs))
                          ELSE head = <<>>)
     \cup C("log.rows", \A k \in active : OneOf(k))

ByCount(by, n, v) == ISumSeq([x \in DOMAIN by |-> IF by[x][1] = n /\ by[x][2] = v THEN by[x][3] ELSE 0])
LinkRows(S, st, t, head, rows) ==
  LET row(r) == <<ToString(t), LName(S, st.locs[r.from]), LName(S, st.locs[r.to])>>
      of(r) == <<row(r) \o <<ToString(r.cum), "total">>>> \o
               (IF S.link > 1 THEN [x \in DOMAIN r.by |-> row(r) \o <<ToString(r.by[x][3]), r.by[x][1] \o ":" \o r.by[x][2]>>] ELSE <<>>)
      want == TLCEval(Flatten([i \in DOMAIN st.locs |-> Flatten([j \in DOMAIN st.locs[i].links |-> of(st.locs[i].links[j])])]))
  IN C("log.linkheader", head = IF t = 0 THEN <<"#time", "start_location", "end_location", "cum_num_agents", "attribute">> ELSE <<>>)
     \cup C("log.links", SameBag(want, rows))

\* Logs written on request: at most e.max_written people, only on days that are multiples of the interval.
OnRequest(S, st, e) ==
  LET due == e.time % Get(e, "timestep_interval", 1) = 0
      m == Get(e, "max_written", -1)
      n == IF m < 0 THEN Len(st.agents) ELSE Min2(m, Len(st.agents))
      active == {k \in 1..n : st.agents[k].at.k # "N"}
      ok(k) == LET g == Mine(e.log.a, 0, k)  p == st.agents[k] IN
               /\ g # <<>> /\ g[1][1] = ToString(e.time) /\ Common(S, st, p, k, g[1], 0) /\ REq(g[1][10], p.moved)
               /\ PlaceIs(S, st, p.at, g[1][4], g[1][5], g[1][6])
  IN C("log.append", e.log.torn = FALSE)
     \cup (IF e.what = "agents"
           THEN C("log.request", IF due THEN /\ \A x \in DOMAIN e.log.a : \E k \in active : e.log.a[x] \in Range(Mine(e.log.a, 0, k))
                                             /\ \A k \in active : ok(k)
                                 ELSE e.log.a = <<>>)
           ELSE IF due THEN LinkRows(S, st, e.time, e.log.lh, e.log.l) ELSE C("log.request", e.log.l = <<>>))

\* The logs of one day: e.log = [a, ah, l, lh, torn], rank
DayLogs(S, st, st2, e) ==
  LET rank == Get(st2, "rank", 0) IN
  C("log.append", e.log.torn = FALSE \/ st.t = 0)
  \cup (IF S.agent > 0 THEN AgentRows(S, st, st.agents, st2.agents, st.t, rank, e.log.ah, e.log.a) ELSE C("log.off", e.log.a = <<>> /\ e.log.ah = <<>>))
  \cup (IF S.link > 0 THEN LinkRows(S, [st2 EXCEPT !.t = st.t], st.t, e.log.lh, e.log.l) ELSE C("log.off", e.log.l = <<>> /\ e.log.lh = <<>>))
=============================================================================
