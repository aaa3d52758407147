---------------------------- MODULE MC_CapMult -----------------------------
(***************************************************************************)
(* The crowding factor of every small camp at every occupancy.             *)
(***************************************************************************)
EXTENDS FleeBase, Json
VARIABLES cap, scale, buf
Init == /\ cap \in {-1, 0, 1, 2, 3, 7, 10} /\ scale \in {"0.5", "1", "2"} /\ buf \in {"0", "0.25", "0.5", "0.9"}
        /\ PrintT("I|" \o ToJson([cap |-> cap, scale |-> scale, buf |-> buf]))
Next == UNCHANGED <<cap, scale, buf>>
S == [CapacityScaling |-> scale, CapacityBuffer |-> buf]
L == [cap |-> ToString(cap), camp |-> TRUE]
M(n) == CapMult(S, L, n)
Ns == 0..24
InRange == \A n \in Ns : RLe(0, M(n)) /\ RLe(M(n), 1)
Falls == \A n \in Ns : RLe(M(n + 1), M(n))
Limits == LET c == RMul(cap, scale) IN
  IF RLt(c, 1) THEN \A n \in Ns : REq(M(n), 1)
  ELSE \A n \in Ns : (RLt(c, n) => REq(M(n), 0)) /\ (RLt(n, RMul(buf, c)) => REq(M(n), 1))
\* once a camp is full, more people do not make it less so
StaysFull == \A n \in Ns : FullAnswers(S, L, n) = {TRUE} => FullAnswers(S, L, n + 1) = {TRUE}
NotACamp == \A n \in Ns : FullAnswers(S, [L EXCEPT !.camp = FALSE], n) = {FALSE}
=============================================================================
