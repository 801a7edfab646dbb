------------------------------ MODULE Polygon ------------------------------
(***************************************************************************)
(* Closed polygons given by the list of their integer vertices (any list:   *)
(* convex or not, self-crossing, clockwise or with repeated vertices) and   *)
(* their exact signed moments up to second order in units of 1/24.          *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, FiniteSetsExt, SequencesExt, TLC, Json

CONSTANTS Lengths, Lo, Hi, Random, MaxSteps
VARIABLES ps, steps
vars == <<ps, steps>>

Nx(p, k) == p[(k % Len(p)) + 1]
Cross(a, b) == a[1] * b[2] - a[2] * b[1]
Sum(p, Op(_, _)) == FoldFunction(+, 0, [k \in 1..Len(p) |-> Op(p[k], Nx(p, k))])
Moments(p) == <<Sum(p, LAMBDA a, b : 12 * Cross(a, b)),
                Sum(p, LAMBDA a, b : 4 * Cross(a, b) * (a[1] + b[1])),
                Sum(p, LAMBDA a, b : 4 * Cross(a, b) * (a[2] + b[2])),
                Sum(p, LAMBDA a, b : 2 * Cross(a, b) * (a[1] * a[1] + a[1] * b[1] + b[1] * b[1])),
                Sum(p, LAMBDA a, b : Cross(a, b) * (2 * a[1] * a[2] + a[1] * b[2] + b[1] * a[2] + 2 * b[1] * b[2])),
                Sum(p, LAMBDA a, b : 2 * Cross(a, b) * (a[2] * a[2] + a[2] * b[2] + b[2] * b[2]))>>

Pts == (Lo..Hi) \X (Lo..Hi)
Init == /\ \E n \in Lengths : ps \in IF Random = 0 THEN [1..n -> Pts] ELSE {[k \in 1..n |-> <<RandomElement(Lo..Hi), RandomElement(Lo..Hi)>>] : r \in 1..Random}
        /\ steps = 0
RotateBy(k) == ps' = [j \in 1..Len(ps) |-> ps[((k + j - 1) % Len(ps)) + 1]]
Next == /\ steps < MaxSteps
        /\ steps' = steps + 1
        /\ \/ \E k \in 1..(Len(ps) - 1) : RotateBy(k)
           \/ ps' = Reverse(ps)
           \/ \E k \in 1..Len(ps) : ps' = InsertAt(ps, k, ps[k])       \* a repeated vertex
RotKeeps == [][(Len(ps') = Len(ps) /\ \E k \in 1..(Len(ps) - 1) : RotateBy(k)) => Moments(ps') = Moments(ps)]_vars
RevNegates == [][ps' = Reverse(ps) => Moments(ps') = [k \in 1..6 |-> -Moments(ps)[k]]]_vars
DupKeeps == [][Len(ps') > Len(ps) => Moments(ps') = Moments(ps)]_vars
Emit == PrintT(ToJson([p |-> ps, m |-> Moments(ps)]))
=============================================================================
