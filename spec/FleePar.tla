------------------------------ MODULE FleePar ------------------------------
(***************************************************************************)
(* Parallel runs: every rank has a copy of the network and some of the     *)
(* persons.  posts[r] is the state of rank r - 1; the ranks together form  *)
(* one world, the merged state, which behaves like a serial one, except    *)
(* that decisions see the head counts of the start of their phase.         *)
(***************************************************************************)
EXTENDS FleeFrame

Sum(n, f(_)) == ISumSeq([r \in 1..n |-> f(r)])
Concat(n, f(_)) == Flatten([r \in 1..n |-> f(r)])

GlobalId(id, r) == id + 1000000 * (r - 1)
PeopleOf(posts, r) == [k \in DOMAIN posts[r].agents |-> [posts[r].agents[k] EXCEPT !.id = GlobalId(@, r)]]

SameNet(p, q) ==
  LET road(l) == [from |-> l.from, to |-> l.to, dist |-> l.dist, closed |-> l.closed, forced |-> l.forced, attrs |-> l.attrs]
      strip(L) == [L EXCEPT !.nr = 0, !.n = 0, !.spawned = 0, !.score = "0", !.pop = "0",
                            !.links = [j \in DOMAIN L.links |-> road(L.links[j])],
                            !.closed = [j \in DOMAIN L.closed |-> road(L.closed[j])]]
  IN /\ Len(p.locs) = Len(q.locs) /\ p.names = q.names /\ p.t = q.t
     /\ \A i \in DOMAIN p.locs : strip(p.locs[i]) = strip(q.locs[i])

\* One world: people already known (prev) keep their order.
Merge(prev, posts) ==
  LET n == Len(posts)
      p1 == posts[1]
      all == TLCEval(Concat(n, LAMBDA r : PeopleOf(posts, r)))
      known == {prev[k].id : k \in DOMAIN prev}
      at(id) == {k \in DOMAIN all : all[k].id = id}
      still(a) == at(a.id) # {}
      fresh(a) == a.id \notin known
      old == LET s == SelectSeq(prev, still) IN [k \in DOMAIN s |-> all[CHOOSE x \in at(s[k].id) : TRUE]]
      road(i, j) == [p1.locs[i].links[j] EXCEPT !.n = Sum(n, LAMBDA r : posts[r].locs[i].links[j].nr),
                                                !.nr = @,
                                                !.cum = Sum(n, LAMBDA r : posts[r].locs[i].links[j].cum),
                                                !.by = Concat(n, LAMBDA r : posts[r].locs[i].links[j].by)]
      dead(i, j) == [p1.locs[i].closed[j] EXCEPT !.cum = Sum(n, LAMBDA r : posts[r].locs[i].closed[j].cum),
                                                 !.by = Concat(n, LAMBDA r : posts[r].locs[i].closed[j].by)]
  IN [p1 EXCEPT !.agents = TLCEval(old \o SelectSeq(all, fresh)),
                !.locs = TLCEval([i \in DOMAIN p1.locs |->
                   [p1.locs[i] EXCEPT !.n = Sum(n, LAMBDA r : posts[r].locs[i].nr),
                                      !.links = [j \in DOMAIN @ |-> road(i, j)],
                                      !.closed = [j \in DOMAIN @ |-> dead(i, j)]]])]

SyncOps == {"evolve", "clear"}
AddOps == {"insert", "add", "spawnday", "spawnmore", "spawninit", "agentscsv"}

\* The ranks agree; prev: the people of the previous state.
Ranks(prev, e) ==
  LET posts == e.posts
      n == Len(posts)
      p1 == posts[1]
      same(f(_)) == \A r \in 2..n : f(posts[r]) = f(p1)
      net == \A r \in 2..n : SameNet(p1, posts[r])
      known == {prev[k].id : k \in DOMAIN prev}
      born(r) == Cardinality({k \in DOMAIN posts[r].agents : GlobalId(posts[r].agents[k].id, r) \notin known})
      live(r, i) == Cardinality({k \in DOMAIN posts[r].agents : posts[r].agents[k].at.k = "L" /\ posts[r].agents[k].at.i = i})
      on(r, i, j) == Cardinality({k \in DOMAIN posts[r].agents : posts[r].agents[k].at.k = "K" /\ posts[r].agents[k].at.i = i /\ posts[r].agents[k].at.j = j})
  IN C("par.ranks", \A r \in 1..n : posts[r].rank = r - 1 /\ posts[r].size = n)
     \cup (IF ~net THEN {"par.network"} ELSE
           C("par.population", same(LAMBDA p : [i \in DOMAIN p.locs |-> <<p.locs[i].pop, p.locs[i].spawned>>]))
           \cup C("par.scores", same(LAMBDA p : [i \in DOMAIN p.locs |-> p.locs[i].score]))
           \cup C("par.counts", same(LAMBDA p : [i \in DOMAIN p.locs |-> p.locs[i].n]))
           \cup C("par.synced", e.op \in SyncOps => \A i \in DOMAIN p1.locs :
                    /\ p1.locs[i].n = Sum(n, LAMBDA r : posts[r].locs[i].nr)
                    /\ \A j \in DOMAIN p1.locs[i].links : \A r \in 1..n :
                         posts[r].locs[i].links[j].n = Sum(n, LAMBDA q : posts[q].locs[i].links[j].nr)
                    /\ \A j \in DOMAIN p1.locs[i].closed : \A r \in 1..n :
                         posts[r].locs[i].closed[j].n = Sum(n, LAMBDA q : posts[q].locs[i].closed[j].nr))
           \cup C("par.local", \A r \in 1..n : \A i \in DOMAIN p1.locs :
                    /\ posts[r].locs[i].nr >= live(r, i)
                    /\ \A j \in DOMAIN p1.locs[i].links : posts[r].locs[i].links[j].nr = on(r, i, j))
           \cup C("par.stats", same(LAMBDA p : <<p.arr, p.dur>>))
           \cup C("par.weights", \A r \in 2..n : SameList(posts[r].sw, p1.sw, EqR)))
     \cup C("par.total", same(LAMBDA p : p.total))
     \cup C("par.spread", e.op \in AddOps => \A q, r \in 1..n : born(q) - born(r) <= 1)
     \cup C("par.ret", "rets" \in DOMAIN e => \A r \in DOMAIN e.rets : e.rets[r] = e.rets[1])
=============================================================================
