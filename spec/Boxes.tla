------------------------------- MODULE Boxes -------------------------------
(***************************************************************************)
(* Axis-aligned boxes with integer bounds in 2 and 3 dimensions and their   *)
(* exact moments up to second order (units of 1/12 in every moment).        *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, FiniteSetsExt, SequencesExt, TLC, Json
CONSTANTS D, Lo, Hi, Random
VARIABLES lo, hi
vars == <<lo, hi>>
Init == \E b \in IF Random = 0 THEN {b \in [1..D -> (Lo..Hi) \X (Lo..Hi)] : \A k \in 1..D : b[k][1] < b[k][2]}
                 ELSE {[k \in 1..D |-> LET a == RandomElement(Lo..(Hi - 1)) IN <<a, RandomElement((a + 1)..Hi)>>] : r \in 1..Random} :
            lo = [k \in 1..D |-> b[k][1]] /\ hi = [k \in 1..D |-> b[k][2]]
Next == UNCHANGED vars
\* integral of t^e over [lo, hi], times 6
I(k, e) == CASE e = 0 -> 6 * (hi[k] - lo[k]) [] e = 1 -> 3 * (hi[k] * hi[k] - lo[k] * lo[k]) [] e = 2 -> 2 * (hi[k] * hi[k] * hi[k] - lo[k] * lo[k] * lo[k])
RECURSIVE Prod(_, _)
Prod(k, e) == IF k > D THEN 1 ELSE I(k, e[k]) * Prod(k + 1, e)
E0 == [k \in 1..D |-> 0]
Moments == <<Prod(1, E0)>> \o [x \in 1..D |-> Prod(1, [E0 EXCEPT ![x] = 1])]
           \o FlattenSeq([x \in 1..D |-> [y \in 1..(D - x + 1) |-> Prod(1, [k \in 1..D |-> (IF k = x THEN 1 ELSE 0) + (IF k = x + y - 1 THEN 1 ELSE 0)])]])
Positive == Moments[1] > 0
Emit == PrintT(ToJson([lo |-> lo, hi |-> hi, m |-> Moments]))
=============================================================================
