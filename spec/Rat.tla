-------------------------------- MODULE Rat --------------------------------
(***************************************************************************)
(* Exact rational arithmetic of unbounded size.  The definitions below are *)
(* placeholders: TLC evaluates the Java class Rat (java/Rat.java) instead. *)
(* A rational is a string "n", "n/d" or a decimal literal, or a TLA+       *)
(* integer.                                                                *)
(***************************************************************************)
R(a)          == CHOOSE x : TRUE     \* canonical form
RAdd(a, b)    == CHOOSE x : TRUE
RSub(a, b)    == CHOOSE x : TRUE
RMul(a, b)    == CHOOSE x : TRUE
RDiv(a, b)    == CHOOSE x : TRUE
RLt(a, b)     == CHOOSE x : x \in BOOLEAN
RLe(a, b)     == CHOOSE x : x \in BOOLEAN
REq(a, b)     == CHOOSE x : x \in BOOLEAN
RClose(a, b)  == CHOOSE x : x \in BOOLEAN   \* equal up to a relative 1e-9
RPow(a, b)    == CHOOSE x : TRUE
RFloor(a)     == CHOOSE x : TRUE     \* a TLA+ integer
RTrunc(a)     == CHOOSE x : TRUE     \* towards zero, a TLA+ integer
RRound(a, k)  == CHOOSE x : TRUE     \* half to even, k decimals
RBinomOk(k, n, p) == CHOOSE x : x \in BOOLEAN \* k of n compatible with probability p
RGeo(x1, y1, x2, y2) == CHOOSE x : TRUE  \* great circle distance in km
RLn(a)        == CHOOSE x : TRUE
StrHas(s, t)  == CHOOSE x : x \in BOOLEAN   \* t is a substring of s
StrLower(s)   == CHOOSE x : TRUE
StrTrim(s)    == CHOOSE x : TRUE
StrCat(s, t)  == CHOOSE x : TRUE
IsStr(s)      == CHOOSE x : x \in BOOLEAN
StrIsNum(s)   == CHOOSE x : x \in BOOLEAN
StrStarts(s, t) == CHOOSE x : x \in BOOLEAN
DateDays(s)   == CHOOSE x : TRUE     \* days since 1970-01-01
DateOf(n)     == CHOOSE x : TRUE
RPoisOk(k, m) == CHOOSE x : x \in BOOLEAN   \* k compatible with a Poisson number of mean m
RSqrt(a)      == CHOOSE x : TRUE
RAbs(a)       == CHOOSE x : TRUE
=============================================================================
