-------------------------------- MODULE Ask ---------------------------------
(* What an interior point solver sees of the problem it was given: the answers to its
   questions (objective, gradient, constraints, jacobian), and its options.           *)
EXTENDS Lin

\* derivative of a function of a vector, by a central difference with step s
Bump(b, q, s) == [b EXCEPT ![q] = RAdd(b[q], s)]
CDiff(F(_), b, s) == Force([q \in 1..Len(b) |-> RDiv(RSub(F(Bump(b, q, s)), F(Bump(b, q, RNeg(s)))), RMul(Two, s))])
\* one-sided difference quotient with step s
ODiff(F(_), b, s) == LET f0 == F(b) IN Force([q \in 1..Len(b) |-> RDiv(RSub(F(Bump(b, q, s)), f0), s)])

HDiff == Num("1/1000000000000000000000000000000")
Step == Num("1/100000000")
Tol3 == Num("1/1000")
\* between the slopes on either side (the median has kinks)
Between(v, a, b, tol) == IsFin(v) /\ LET sl == RMul(tol, RMax(One, RMax(RAbs(a), RAbs(b))))
                                     IN RLe(RSub(RMin(a, b), sl), v) /\ RLe(v, RAdd(RMax(a, b), sl))
Inf19 == Num("10000000000000000000")

\* options the solver must receive
OptNo(k) == CASE k = 0 -> [max_iter |-> 50, tol |-> Num("1/100000"), mu_strategy |-> "adaptive", hessian_approximation |-> "limited-memory", print_level |-> 0]
              [] k = 1 -> [max_iter |-> 7, tol |-> Num("1/100000000"), mu_strategy |-> "adaptive", hessian_approximation |-> "limited-memory", print_level |-> 3]
              [] k = 2 -> [max_iter |-> 10, tol |-> Num("1/100000000"), mu_strategy |-> "monotone", hessian_approximation |-> "limited-memory", print_level |-> 0]
              [] k = 3 -> [tol |-> Num("1/100000000"), mu_strategy |-> "adaptive", hessian_approximation |-> "limited-memory", print_level |-> 0]
OptionsOk(got, k, tol) ==
   LET w == OptNo(k)
   IN /\ DOMAIN got = DOMAIN w
      /\ \A f \in DOMAIN w \ {"tol"} : got[f] = w[f]
      /\ CloseR(got.tol, IF k = 0 \/ REq(tol, Zero) THEN w.tol ELSE tol, Tol9)

\* one answer of the problem object.  FObj(b): objective; FCon(b): constraints
Asked(a, FObj(_), FCon(_), tag) ==
   CASE a.q = "obj" -> IF IsNum(a.v) /\ Close(a.v, FObj(a.x), Tol6) THEN {} ELSE {"objective" \o tag}
     [] a.q = "grad" -> LET fw == ODiff(FObj, a.x, Step)
                            bw == ODiff(FObj, a.x, RNeg(Step))
                        IN IF ~IsVec(a.v, Len(a.x)) THEN {"gradient-shape"}
                           ELSE IF ~AllFinV(fw) \/ ~AllFinV(bw) \/ \A q \in 1..Len(a.x) : Between(a.v[q], fw[q], bw[q], Tol3) THEN {} ELSE {"gradient" \o tag}
     [] a.q = "con" -> LET c == FCon(a.x)
                       IN IF IsVec(a.v, Len(c)) /\ CloseV(a.v, c, Tol9) THEN {} ELSE {"constraints" \o tag}
     [] a.q = "jac" -> LET m == Len(FCon(a.x))
                           J == Force([r \in 1..m |-> CDiff(LAMBDA b : FCon(b)[r], a.x, HDiff)])
                       IN IF IsMat(a.v, m, Len(a.x)) /\ CloseM(a.v, J, Tol5) THEN {} ELSE {"jacobian" \o tag}
     [] OTHER -> {"unknown-question"}
AskedAll(sv, FObj(_), FCon(_), tag) == UNION {Asked(sv.asked[q], FObj, FCon, tag) : q \in 1..Len(sv.asked)}
=============================================================================
