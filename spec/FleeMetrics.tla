---------------------------- MODULE FleeMetrics ----------------------------
(***************************************************************************)
(* Validation metrics: the comparison of a simulated with a registered     *)
(* series.  Results are reported with four decimals.                       *)
(***************************************************************************)
EXTENDS FleeFrame

Near(x, want) == RLe(RAbs(RSub(x, want)), RAdd("0.0000501", RMul("0.000000001", RAbs(want))))
NearAll(x, want) == Len(x) = Len(want) /\ \A i \in DOMAIN want : Near(x[i], want[i])
Mean(s) == RDiv(RSumSeq(s), Len(s))
Diffs(x, y) == TLCEval([i \in DOMAIN x |-> RAbs(RSub(x[i], y[i]))])

RelError(v, c) == IF RLt(c, "0.00001") THEN "0" ELSE RAbs(RSub(RDiv(v, c), 1))
AbsError(v, c) == RAbs(RSub(v, c))
MeanDiff(x, y) == Mean(Diffs(x, y))
LnRatio(x, y) == Mean([i \in DOMAIN x |-> RAbs(RLn(RDiv(x[i], y[i])))])
\* error of the forecast relative to the error of a naive one in the period after the training
MASE(f, y, n, start) == RDiv(MeanDiff(f, y), MeanDiff(SubSeq(y, start + 2, Len(y)), SubSeq(n, start + 2, Len(n))))

Metric(e) ==
  LET a == e.args IN
  CASE e.what = "rel"   -> C("metric.rel", \A i \in DOMAIN a : Near(e.ret[i], RelError(a[i][1], a[i][2])))
    [] e.what = "abs"   -> C("metric.abs", \A i \in DOMAIN a : Near(e.ret[i], AbsError(a[i][1], a[i][2])))
    [] e.what = "diffs" -> C("metric.diffs", NearAll(e.ret, Diffs(a[1], a[2])))
    [] e.what = "mean"  -> C("metric.mean", Near(e.ret[1], MeanDiff(a[1], a[2])))
    [] e.what = "ln"    -> C("metric.ln", Near(e.ret[1], LnRatio(a[1], a[2])))
    [] e.what = "mase"  -> C("metric.mase", Near(e.ret[1], MASE(a[1], a[2], a[3], e.start)))
    [] OTHER -> {}

\* The output of a run against the registrations: e.sim[c], e.data[c] series per camp, e.simtot, e.untot.
\* whole: rescaled numbers are cut to whole people
Rescaled(e, c, whole) ==
  [i \in DOMAIN e.simtot |-> IF RLt(0, e.simtot[i])
                             THEN LET v == RDiv(RMul(e.sim[c][i], e.untot[i]), e.simtot[i]) IN IF whole THEN R(RTrunc(v)) ELSE v
                             ELSE "0"]
AtLeast1(x) == RMax(x, "1")
Flat(e, c, day) == [i \in DOMAIN e.untot |-> e.data[c][day + 1]]
Ratio(e, c, day) == [i \in DOMAIN e.untot |-> RMul(e.untot[i], RDiv(e.data[c][day + 1], e.untot[day + 1]))]
Valid(e) ==
  LET n == Len(e.sim)
      ok(c) ==
        LET g == e.ret.camps[c]
            r == TLCEval(Rescaled(e, c, FALSE))
            d == Diffs(e.sim[c], e.data[c])
            dr == Diffs(r, e.data[c])
            ratio == [i \in DOMAIN d |-> RDiv(d[i], AtLeast1(e.untot[i]))]
        IN C("metric.camp", /\ NearAll(g.d, d) /\ NearAll(g.dr, dr) /\ NearAll(g.ratio, ratio)
                            /\ Near(g.dave, Mean(d)) /\ Near(g.drave, Mean(dr)) /\ Near(g.ratioave, Mean(ratio))
                            /\ REq(g.N, RSumSeq(e.data[c])))
           \cup C("metric.scaled", /\ Near(g.m7, MASE(r, e.data[c], Flat(e, c, 7), 7))
                                   /\ Near(g.m30, MASE(r, e.data[c], Flat(e, c, 30), 30))
                                   /\ Near(g.m7r, MASE(r, e.data[c], Ratio(e, c, 7), 7))
                                   /\ Near(g.m30r, MASE(r, e.data[c], Ratio(e, c, 30), 30)))
      sum(whole) == [i \in DOMAIN e.untot |-> RSumSeq([c \in 1..n |-> RAbs(RSub(IF whole = "raw" THEN e.sim[c][i] ELSE Rescaled(e, c, whole = "cut")[i], e.data[c][i]))])]
      total(k) == RDiv(RSumSeq([c \in 1..n |-> RMul(e.ret.camps[c][k], e.ret.camps[c].N)]), RSumSeq([c \in 1..n |-> e.ret.camps[c].N]))
      near2(x, w) == Len(x) = Len(w) /\ \A i \in DOMAIN w : RLe(RAbs(RSub(x[i], w[i])), RAdd("0.001", RMul("0.000000001", w[i])))
  IN UNION {ok(c) : c \in 1..n}
     \cup C("metric.total", /\ near2(e.ret.abs, sum("raw")) /\ near2(e.ret.absr, sum("exact"))
                            /\ Near(e.ret.e7, total("m7")) /\ Near(e.ret.e30r, total("m30r")))
     \cup C("metric.plot", near2(e.ret.pabs, sum("raw")) /\ near2(e.ret.pabsr, sum("cut")))
=============================================================================
