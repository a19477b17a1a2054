-------------------------------- MODULE Rat --------------------------------
(* Exact real arithmetic for the direpack specification.

   A number is an exact rational (or the special values nan, +inf, -inf).
   Every IEEE double that the implementation produces is such a rational, so a
   recorded trace is loaded without any rounding.  Numbers whose numerator or
   denominator outgrow 640 bits are rounded to 400 significant bits, and square
   roots / exponentials are computed to 400 / 300 bits; that is at least 70
   orders of magnitude finer than any tolerance used in the specification.

   The scalar operators are implemented by java/Rat.java (TLC loads the class
   with the module's name).  The sequence operators are *defined* here in TLA+;
   Java only accelerates them, and MC_Rat.tla checks the two agree.            *)
EXTENDS Integers, Sequences, TLC, FiniteSets

(* ------------------------- scalars (Java) -------------------------------- *)
Num(s)       == CHOOSE x \in {} : TRUE     \* "1/3", "0.25", "nan", or an integer
RAdd(a, b)   == CHOOSE x \in {} : TRUE
RSub(a, b)   == CHOOSE x \in {} : TRUE
RMul(a, b)   == CHOOSE x \in {} : TRUE
RDiv(a, b)   == CHOOSE x \in {} : TRUE
RNeg(a)      == CHOOSE x \in {} : TRUE
RAbs(a)      == CHOOSE x \in {} : TRUE
RSqrt(a)     == CHOOSE x \in {} : TRUE
RCbrt(a)     == CHOOSE x \in {} : TRUE
RExp(a)      == CHOOSE x \in {} : TRUE
RTanh(a)     == CHOOSE x \in {} : TRUE
RCos(a)      == CHOOSE x \in {} : TRUE
RSin(a)      == CHOOSE x \in {} : TRUE
RLt(a, b)    == CHOOSE x \in {} : TRUE     \* false when either side is nan
RLe(a, b)    == CHOOSE x \in {} : TRUE
REq(a, b)    == CHOOSE x \in {} : TRUE
IsNaN(a)     == CHOOSE x \in {} : TRUE
IsFin(a)     == CHOOSE x \in {} : TRUE
IsNum(a)     == CHOOSE x \in {} : TRUE
RFloor(a)    == CHOOSE x \in {} : TRUE     \* an Int
IsVec(v, n)  == CHOOSE x \in {} : TRUE     \* v is a sequence of n numbers (any value v)
IsMat(m,n,p) == CHOOSE x \in {} : TRUE     \* m is an n x p matrix of numbers
ReadTrace(f) == CHOOSE x \in {} : TRUE     \* JSON file, floats become rationals
Force(s)     == s                          \* same value, evaluated once

(* ------------------------- sequences ------------------------------------- *)
RECURSIVE RSum(_)
RSum(s) == IF s = <<>> THEN Num(0) ELSE RAdd(Head(s), RSum(Tail(s)))

Dot(u, v)    == RSum([i \in 1..Len(u) |-> RMul(u[i], v[i])])
VAdd(u, v)   == [i \in 1..Len(u) |-> RAdd(u[i], v[i])]
VSub(u, v)   == [i \in 1..Len(u) |-> RSub(u[i], v[i])]
VMul(u, v)   == [i \in 1..Len(u) |-> RMul(u[i], v[i])]
VScale(k, v) == [i \in 1..Len(v) |-> RMul(k, v[i])]
Transpose(M) == IF M = <<>> THEN <<>>
                ELSE [j \in 1..Len(M[1]) |-> [i \in 1..Len(M) |-> M[i][j]]]
MatVec(M, v) == [i \in 1..Len(M) |-> Dot(M[i], v)]
MatMul(A, B) == [i \in 1..Len(A) |-> [j \in 1..Len(B[1]) |->
                    RSum([k \in 1..Len(B) |-> RMul(A[i][k], B[k][j])])]]
RSort(s)     == SortSeq(s, LAMBDA a, b : RLt(a, b))
=============================================================================
