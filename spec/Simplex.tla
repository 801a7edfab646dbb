------------------------------ MODULE Simplex ------------------------------
(***************************************************************************)
(* Simplices with integer vertices in D = 2, 3, 4 dimensions: their signed  *)
(* volume (a determinant, in units of 1/D!), its behaviour under exchanging *)
(* two vertices and under translation, and the exact signed moments of      *)
(* first and second order.                                                  *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, FiniteSetsExt, SequencesExt, TLC, Json

CONSTANTS D, Lo, Hi, MaxSteps, Random
VARIABLES vs, vol, steps
vars == <<vs, vol, steps>>

Minus(a, b) == [k \in 1..D |-> a[k] - b[k]]
\* determinant by expansion along the first row
Minor(M, j) == [r \in 1..(Len(M) - 1) |-> [c \in 1..(Len(M) - 1) |-> M[r + 1][IF c < j THEN c ELSE c + 1]]]
RECURSIVE Det(_)
Det(M) == IF Len(M) = 1 THEN M[1][1]
          ELSE FoldFunction(+, 0, [j \in 1..Len(M) |-> (IF j % 2 = 1 THEN 1 ELSE -1) * M[1][j] * Det(Minor(M, j))])
\* positive when the edge vectors from the first vertex form a right-handed frame
Vol(v) == Det([r \in 1..D |-> Minus(v[r + 1], v[1])])

Points == [1..D -> Lo..Hi]
Rand == [k \in 1..D |-> RandomElement(Lo..Hi)]
Init == /\ vs \in IF Random = 0 THEN [1..(D + 1) -> Points] ELSE {[k \in 1..(D + 1) |-> [j \in 1..D |-> RandomElement(Lo..Hi)]] : r \in 1..Random}
        /\ vol = Vol(vs)
        /\ steps = 0
Swap(i, j) == /\ vs' = [vs EXCEPT ![i] = vs[j], ![j] = vs[i]]
              /\ vol' = Vol(vs')
Translate(k, t) == /\ vs' = [i \in 1..(D + 1) |-> [vs[i] EXCEPT ![k] = @ + t]]
                   /\ vol' = Vol(vs')
Next == /\ steps < MaxSteps
        /\ steps' = steps + 1
        /\ \/ \E i, j \in 1..(D + 1) : i < j /\ Swap(i, j)
           \/ \E k \in 1..D : \E t \in {-3, 5} : Translate(k, t)

(* ------------------------------ properties ----------------------------- *)
SignRule == [][vol' = vol \/ vol' = -vol]_vars
IsSwap == \E i, j \in 1..(D + 1) : i < j /\ vs' = [vs EXCEPT ![i] = vs[j], ![j] = vs[i]] /\ vs[i] # vs[j]
SwapNegates == [][(IsSwap /\ vs' # vs) => vol' = -vol]_vars
TranslateKeeps == [][(\E k \in 1..D : \E t \in {-3, 5} : vs' = [i \in 1..(D + 1) |-> [vs[i] EXCEPT ![k] = @ + t]]) => vol' = vol]_vars
Degenerate == (\E i, j \in 1..(D + 1) : i # j /\ vs[i] = vs[j]) => vol = 0

S1(x) == FoldFunction(+, 0, [i \in 1..(D + 1) |-> vs[i][x]])
S2(x, y) == FoldFunction(+, 0, [i \in 1..(D + 1) |-> vs[i][x] * vs[i][y]])
\* units of 1/(D+2)!: the average of x is S1/(D+1), of xy is (S2 + S1*S1)/((D+1)(D+2))
Moments == <<vol * (D + 1) * (D + 2)>> \o [x \in 1..D |-> vol * (D + 2) * S1(x)]
           \o FlattenSeq([x \in 1..D |-> [y \in 1..(D - x + 1) |-> vol * (S2(x, x + y - 1) + S1(x) * S1(x + y - 1))]])
Emit == PrintT(ToJson([v |-> vs, vol |-> vol, m |-> Moments]))
=============================================================================
