------------------------------ MODULE MC_Debt ------------------------------
(***************************************************************************)
(* Arrivals under every short history of registrations.                    *)
(***************************************************************************)
EXTENDS FleeSpawn, Json

CONSTANTS NumDays, Counts
VARIABLES reg, held, t, sp, spawned
vars == <<reg, held, t, sp, spawned>>
S == [InsertDayZeroRefugeesInCamps |-> held]

Init == /\ reg \in [0..(NumDays - 1) -> Counts] /\ held \in BOOLEAN
        /\ t = 0 /\ sp = NoSpawn /\ spawned = <<>>
        /\ PrintT("I|" \o ToJson([reg |-> [k \in 1..NumDays |-> reg[k - 1]], held |-> held]))
DiffOf(d) == IF d = 0 THEN reg[0] ELSE reg[d] - reg[d - 1]
Next == /\ t < NumDays
        /\ LET a == Arrivals(S, sp, t, DiffOf(t)) IN
             /\ sp' = [sp EXCEPT !.raw = a.raw, !.debt = a.debt]
             /\ spawned' = Append(spawned, a.new)
        /\ t' = t + 1 /\ UNCHANGED <<reg, held>>

Given == IF held THEN reg[0] ELSE 0
\* Everybody registered is in the camps on day zero, has arrived since, or is owed to a fall.
Balance == t > 0 => Given + ISumSeq(spawned) - sp.debt = reg[t - 1] /\ sp.raw = reg[t - 1]
\* Nobody arrives while anything is owed, and nobody leaves.
Owing == /\ sp.debt >= 0 /\ \A k \in DOMAIN spawned : spawned[k] >= 0
         /\ (t > 0 /\ sp.debt > 0) => spawned[t] = 0
\* The number of people ever present is the largest registration so far.
Peak == t > 0 => LET top == CHOOSE x \in {reg[k] : k \in 0..(t - 1)} : \A k \in 0..(t - 1) : reg[k] <= x
                 IN Given + ISumSeq(spawned) = top
=============================================================================
