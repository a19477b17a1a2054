------------------------------- MODULE MC_Rat --------------------------------
(* The arithmetic every other module stands on.  The operators that Java evaluates
   are compared with their TLA+ definitions (repeated here under other names, so that
   TLC evaluates these from the definition) and with the laws of an ordered field, on
   every combination of a set of values that includes fractions, the extreme doubles
   and the special values.                                                            *)
EXTENDS Lin, FiniteSets
CONSTANT N

Vals == {Num(0), Num(1), Num("-1"), Num("1/3"), Num("-5/7"), Num("2"), Num("0.1"), Num("1e-300"), Num("-1.7976931348623157e308"), Num("4.9e-324"), Num("123456789/1024")}
Spec3 == {Num("nan"), Num("inf"), Num("-inf")}

VARIABLES a, b, c, u, v
vars == <<a, b, c, u, v>>

RECURSIVE SumD(_)
SumD(s) == IF s = <<>> THEN Num(0) ELSE RAdd(Head(s), SumD(Tail(s)))
DotD(x, y) == SumD([i \in 1..Len(x) |-> RMul(x[i], y[i])])
RECURSIVE InsertD(_, _)
InsertD(x, s) == IF s = <<>> THEN <<x>> ELSE IF RLe(x, Head(s)) THEN <<x>> \o s ELSE <<Head(s)>> \o InsertD(x, Tail(s))
RECURSIVE SortD(_)
SortD(s) == IF s = <<>> THEN <<>> ELSE InsertD(Head(s), SortD(Tail(s)))
SameV(x, y) == Len(x) = Len(y) /\ \A i \in 1..Len(x) : REq(x[i], y[i])
SameM(x, y) == Len(x) = Len(y) /\ \A i \in 1..Len(x) : SameV(x[i], y[i])

Small == {Num(0), Num("1/2"), Num("-3")}
Init == /\ a \in Vals /\ b \in Vals /\ c \in Vals
        /\ u = <<>> /\ v = <<>>
Next == /\ a = Num(0) /\ b = Num(0) /\ c = Num(0) /\ Len(u) < N
        /\ \E x, y \in Small : u' = Append(u, x) /\ v' = Append(v, y)
        /\ UNCHANGED <<a, b, c>>

Ring == /\ REq(RAdd(a, b), RAdd(b, a)) /\ REq(RMul(a, b), RMul(b, a))
        /\ REq(RAdd(a, RNeg(a)), Zero) /\ REq(RSub(a, b), RAdd(a, RNeg(b)))
        /\ Close(RAdd(RAdd(a, b), c), RAdd(a, RAdd(b, c)), Tol12)
        /\ (RLt(RMul(RAbs(a), RMax(RAbs(b), RAbs(c))), Num("1e200")) => Close(RMul(a, RAdd(b, c)), RAdd(RMul(a, b), RMul(a, c)), Tol12))
Field == ~REq(b, Zero) => CloseR(RMul(RDiv(a, b), b), a, Num("1e-90"))
Order == /\ (RLt(a, b) \/ RLt(b, a)) = ~REq(a, b)
         /\ (RLe(a, b) <=> (RLt(a, b) \/ REq(a, b)))
         /\ ((RLe(a, b) /\ RLe(b, c)) => RLe(a, c))
         /\ (RLt(a, b) => RLt(RNeg(b), RNeg(a)))
         /\ REq(RAbs(a), IF RLt(a, Zero) THEN RNeg(a) ELSE a)
Roots == /\ CloseR(RSq(RSqrt(RAbs(a))), RAbs(a), Num("1e-90"))
         /\ CloseR(RMul(RCbrt(a), RSq(RCbrt(a))), a, Num("1e-60"))
         /\ (RLt(RAbs(a), Num(200)) => /\ CloseR(RMul(RExp(a), RExp(RNeg(a))), One, Num("1e-60"))
                                       /\ CloseR(RTanh(a), RDiv(RSub(RExp(a), RExp(RNeg(a))), RAdd(RExp(a), RExp(RNeg(a)))), Num("1e-40"))
                                       /\ Close(RAdd(RSq(RCos(a)), RSq(RSin(a))), One, Num("1e-60"))
                                       /\ LET f == RFloor(a) IN RLe(Num(f), a) /\ RLt(a, Num(f + 1)))
Special == \A s \in Spec3 :
         /\ IsNaN(s) <=> REq(s, Num("nan")) \/ ~REq(s, s)
         /\ ~IsFin(s) /\ IsFin(a)
         /\ (IsNaN(s) => /\ ~RLt(s, a) /\ ~RLe(a, s) /\ ~REq(s, s) /\ IsNaN(RAdd(s, a)) /\ IsNaN(RMul(a, s)))
         /\ (~IsNaN(s) => (RLt(s, a) <=> ~RLt(a, s)))
\* sequence operators: Java against the definition
Seqs == /\ REq(RSum(u), SumD(u)) /\ REq(Dot(u, v), DotD(u, v))
        /\ SameV(VAdd(u, v), [i \in 1..Len(u) |-> RAdd(u[i], v[i])]) /\ SameV(VSub(u, v), [i \in 1..Len(u) |-> RSub(u[i], v[i])])
        /\ SameV(VMul(u, v), [i \in 1..Len(u) |-> RMul(u[i], v[i])])
        /\ SameV(VScale(Num("-2/3"), u), [i \in 1..Len(u) |-> RMul(Num("-2/3"), u[i])])
        /\ SameV(RSort(u), SortD(u)) /\ SameV(Force(u), u)
Mats == Len(u) >= 1 =>
        LET A == [i \in 1..Len(u) |-> <<u[i], v[i], RAdd(u[i], Num(i))>>]
            B == [i \in 1..3 |-> [j \in 1..2 |-> IF (i + j) % 2 = 0 THEN u[1] ELSE RMul(v[1], Num(i))]]
        IN /\ SameM(Transpose(A), [j \in 1..3 |-> [i \in 1..Len(A) |-> A[i][j]]])
           /\ SameM(MatMul(A, B), [i \in 1..Len(A) |-> [j \in 1..2 |-> SumD([k \in 1..3 |-> RMul(A[i][k], B[k][j])])]])
           /\ SameV(MatVec(A, <<u[1], v[1], Num(2)>>), [i \in 1..Len(A) |-> DotD(A[i], <<u[1], v[1], Num(2)>>)])
\* numbers are ordinary values: updating a sequence of numbers changes one entry only
Except == Len(u) >= 2 => LET w == [u EXCEPT ![1] = RAdd(@, One)]
                         IN REq(w[1], RAdd(u[1], One)) /\ \A i \in 2..Len(u) : REq(w[i], u[i])
==============================================================================
