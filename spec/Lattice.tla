------------------------------ MODULE Lattice ------------------------------
(***************************************************************************)
(* Exact abstract geometry.  Space is cut by the affine A_n ("alcove")      *)
(* arrangement: all planes x_i = c and x_i - x_j = c with integer c.  Its   *)
(* cells are the Kuhn simplices of the unit cubes ("atoms").  A body is a   *)
(* set of atoms, so intersection, partition and integration are set         *)
(* operations and integer sums, with no reference to how the implementation *)
(* represents or cuts polytopes.  All vertices of the arrangement are       *)
(* integer points.                                                          *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, FiniteSetsExt, SequencesExt, TLC

CONSTANTS D,      \* dimension
          N,      \* cells per axis: 0..N-1
          Order   \* highest monomial degree observed

Axes == 1..D
Cells == [Axes -> 0..(N-1)]
Perms == {p \in [Axes -> Axes] : \A i, j \in Axes : p[i] = p[j] => i = j}

AtomSet == {[c |-> c, p |-> p] : c \in Cells, p \in Perms}
AtomSeq == SetToSeq(AtomSet)
NAtoms  == Cardinality(AtomSet)
Atoms   == 1..NAtoms
AtomT   == [a \in Atoms |-> AtomSeq[a]]

RECURSIVE Fact(_)
Fact(k) == IF k <= 1 THEN 1 ELSE k * Fact(k - 1)
RECURSIVE Pow(_, _)
Pow(x, k) == IF k = 0 THEN 1 ELSE x * Pow(x, k - 1)
Binom(n, k) == Fact(n) \div (Fact(k) * Fact(n - k))
SumTo(f, n) == FoldFunctionOnSet(LAMBDA x, y : x + y, 0, f, 1..n)
Sum(S, Op(_)) == FoldSet(LAMBDA x, acc : acc + Op(x), 0, S)

(* ------------------------------ half-spaces ---------------------------- *)
(* j = 0:  s*x_i >= s*c        j # 0:  s*(x_i - x_j) >= s*c                 *)
HSSet == [i : Axes, j : {0}, c : 0..N, s : {-1, 1}]
         \cup {h \in [i : Axes, j : Axes, c : (-N)..N, s : {-1, 1}] : h.i < h.j}
HSSeq == SetToSeq(HSSet)
HS == 1..Cardinality(HSSet)
HST == [h \in HS |-> HSSeq[h]]

\* position of axis i in the order of an atom (earlier axis = larger offset)
Rank(p, i) == CHOOSE k \in Axes : p[k] = i
LowerDiff(a, i, j) ==
    IF j = 0 THEN a.c[i]
    ELSE a.c[i] - a.c[j] + (IF Rank(a.p, i) < Rank(a.p, j) THEN 0 ELSE -1)
InHS(a, h) == LET lo == LowerDiff(a, h.i, h.j)
              IN IF h.s = 1 THEN lo >= h.c ELSE lo + 1 <= h.c
Opp(h) == [h EXCEPT !.s = -h.s]

\* atoms inside an arbitrary half-space record, and the table for the indexed ones
InsideOf(h) == {a \in Atoms : InHS(AtomT[a], h)}
InsideT == [h \in HS |-> InsideOf(HST[h])]

Region(hseq) == {a \in Atoms : \A k \in DOMAIN hseq : InHS(AtomT[a], hseq[k])}

(* ------------------------------ points --------------------------------- *)
AtomVerts(a) == {[i \in Axes |-> a.c[i] + (IF Rank(a.p, i) <= k THEN 1 ELSE 0)] : k \in 0..D}
VertT == [a \in Atoms |-> AtomVerts(AtomT[a])]
Closure(R) == UNION {VertT[a] : a \in R}
Dirs == [Axes -> {-1, 0, 1}] \ {[i \in Axes |-> 0]}
\* extreme points of a convex region
Extreme(R) == LET C == Closure(R) IN
    {x \in C : \A v \in Dirs : ~([i \in Axes |-> x[i] + v[i]] \in C /\ [i \in Axes |-> x[i] - v[i]] \in C)}
PlaneVal(h, x) == h.s * ((x[h.i] - (IF h.j = 0 THEN 0 ELSE x[h.j])) - h.c)

(* ------------------------------ moments -------------------------------- *)
(* exponents in the documented (row-major) order                            *)
RECURSIVE ExpsRec(_, _)
ExpsRec(d, k) ==   \* all exponent sequences of length d and total degree k, first descending
    IF d = 1 THEN <<<<k>>>>
    ELSE FoldLeft(LAMBDA acc, m : acc \o [q \in 1..Len(ExpsRec(d - 1, m)) |-> <<k - m>> \o ExpsRec(d - 1, m)[q]],
                  <<>>, [m \in 1..(k + 1) |-> m - 1])
Exps == FoldLeft(LAMBDA acc, k : acc \o ExpsRec(D, k - 1), <<>>, [k \in 1..(Order + 1) |-> k])
NMom == Len(Exps)

Unit == Fact(Order + D)     \* moments are integers in units of 1/Unit

\* Unit * integral of y^b over { 1 >= y_p1 >= ... >= y_pD >= 0 }
KuhnInt(p, b) ==
    Unit \div FoldFunctionOnSet(LAMBDA x, y : x * y, 1,
        [k \in Axes |-> (D - k + 1) + FoldFunctionOnSet(LAMBDA x, y : x + y, 0, [m \in Axes |-> b[p[m]]], k..D)], Axes)

AtomMoment(a, e) ==
    LET Bs == {b \in [Axes -> 0..Order] : \A i \in Axes : b[i] <= e[i]}
    IN FoldSet(LAMBDA b, acc : acc + KuhnInt(a.p, b) *
          FoldFunctionOnSet(LAMBDA x, y : x * y, 1,
             [i \in Axes |-> Binom(e[i], b[i]) * Pow(a.c[i], e[i] - b[i])], Axes), 0, Bs)

MomT == [a \in Atoms |-> [m \in 1..NMom |-> AtomMoment(AtomT[a], Exps[m])]]
ZeroMom == [m \in 1..NMom |-> 0]
Moments(R) == FoldSet(LAMBDA a, acc : [m \in 1..NMom |-> acc[m] + MomT[a][m]], ZeroMom, R)

(* sanity of the model itself: the atoms tile the box [0,N]^D               *)
BoxMoment(e) == \* Unit * integral of x^e over [0,N]^D  (Unit is divisible)
    FoldFunctionOnSet(LAMBDA x, y : x * y, 1, [i \in Axes |-> Pow(N, e[i] + 1)], Axes)
TilingOK == LET tot == Moments(Atoms) IN
    \A m \in 1..NMom :
        tot[m] * FoldFunctionOnSet(LAMBDA x, y : x * y, 1, [i \in Axes |-> Exps[m][i] + 1], Axes)
          = Unit * BoxMoment(Exps[m])
=============================================================================
