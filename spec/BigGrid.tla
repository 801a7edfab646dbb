------------------------------ MODULE BigGrid ------------------------------
(***************************************************************************)
(* Large grids.  The atoms of a convex body given by half-spaces of the     *)
(* arrangement are computed where they are needed, cell by cell, so a grid  *)
(* may have hundreds of cells along an axis (Voxel and Window keep whole    *)
(* sets of atoms).  A sweep visits the slabs of a case one after the other: *)
(*    deposit(cell) = moments of the atoms of the body in that cell.        *)
(* Cell k of axis i is  G*k - P <= x_i <= G*(k+1) - P.                      *)
(* A case is [kind, L, o, G, P, lo, hi]: the body, then the cells looked at.*)
(*   "box":     o_i <= x_i <= o_i + L_i                                     *)
(*   "simplex": L >= x_1 - o_1 >= ... >= x_D - o_D >= 0, all L_i equal      *)
(*   "wedge":   x_1 - o_1 >= x_2 - o_2, and 0..L_i elsewhere (L_1 = L_2)    *)
(***************************************************************************)
EXTENDS Lattice, Json
CONSTANTS Cases, Quiet
VARIABLES case, at, slab, total
vars == <<case, at, slab, total>>

Half(i, j, c, s) == IF j = 0 \/ i < j THEN [i |-> i, j |-> j, c |-> c, s |-> s] ELSE [i |-> j, j |-> i, c |-> 0 - c, s |-> 0 - s]
Lower(x, A) == [n \in 1..Len(A) |-> Half(A[n], 0, x.o[A[n]], 1)]
Upper(x, A) == [n \in 1..Len(A) |-> Half(A[n], 0, x.o[A[n]] + x.L[A[n]], -1)]
All == [i \in Axes |-> i]
Desc(x, m) == [n \in 1..m |-> Half(n, n + 1, x.o[n] - x.o[n + 1], 1)]
Faces(x) == CASE x.kind = "box" -> Lower(x, All) \o Upper(x, All)
              [] x.kind = "simplex" -> Upper(x, <<1>>) \o Desc(x, D - 1) \o Lower(x, <<D>>)
              [] x.kind = "wedge" -> Upper(x, <<1>>) \o Desc(x, 1) \o Lower(x, [n \in 1..(D - 1) |-> n + 1]) \o Upper(x, [n \in 1..(D - 2) |-> n + 2])


\* row-major enumeration of a box of n[1] x .. x n[D] indices
Stride(n, i) == FoldFunctionOnSet(LAMBDA a, b : a * b, 1, n, (i + 1)..D)
Count(n) == FoldFunctionOnSet(LAMBDA a, b : a * b, 1, n, Axes)
Nth(n, q) == [i \in Axes |-> (q \div Stride(n, i)) % n[i]]

AtomsOf(x, f, k) ==
    {a \in {[c |-> [i \in Axes |-> x.G[i] * k[i] - x.P[i] + Nth(x.G, q)[i]], p |-> p] : q \in 0..(Count(x.G) - 1), p \in Perms} :
        \A h \in DOMAIN f : InHS(a, f[h])}
MomentsOf(A) == [m \in 1..NMom |-> Sum(A, LAMBDA a : AtomMoment(a, Exps[m]))]

Width(x) == [i \in Axes |-> x.hi[i] - x.lo[i]]
SlabWidth(x) == [Width(x) EXCEPT ![1] = 1]
SlabCell(x, s, q) == LET r == Nth(SlabWidth(x), q) IN [i \in Axes |-> x.lo[i] + r[i] + (IF i = 1 THEN s ELSE 0)]
\* the cells of a slab that the body meets
Slab(x, s) ==
    LET f == Faces(x)
        all == {[c |-> SlabCell(x, s, q), r |-> AtomsOf(x, f, SlabCell(x, s, q))] : q \in 0..(Count(SlabWidth(x)) - 1)}
    IN {[c |-> e.c, m |-> MomentsOf(e.r)] : e \in {y \in all : y.r # {}}}

Init == case \in Cases /\ at = 0 /\ slab = {} /\ total = 0
Sweep == /\ at < Width(case)[1]
         /\ \E S \in {TLCEval(Slab(case, at))} :
               /\ slab' = S
               /\ total' = total + Sum(S, LAMBDA e : e.m[1])
         /\ at' = at + 1
         /\ UNCHANGED case
Next == Sweep
Spec == Init /\ [][Next]_vars

\* the smallest covering box
Cover(x) == [lo |-> [i \in Axes |-> (x.o[i] + x.P[i]) \div x.G[i]],
             hi |-> [i \in Axes |-> (x.o[i] + x.L[i] + x.P[i] + x.G[i] - 1) \div x.G[i]]]

(* ----- properties of the specification --------------------------------- *)
Volume(x) == CASE x.kind = "box" -> Unit * FoldFunctionOnSet(LAMBDA a, b : a * b, 1, x.L, Axes)
               [] x.kind = "simplex" -> (Unit \div Fact(D)) * Pow(x.L[1], D)
               [] x.kind = "wedge" -> (Unit \div 2) * FoldFunctionOnSet(LAMBDA a, b : a * b, 1, x.L, Axes)
Inside(x) == \A i \in Axes : x.G[i] * x.lo[i] - x.P[i] <= x.o[i] /\ x.o[i] + x.L[i] <= x.G[i] * x.hi[i] - x.P[i]
\* the deposits add up to the body when the window covers it, and never to more
Conserved == /\ total <= Volume(case)
             /\ (at = Width(case)[1] /\ Inside(case)) => total = Volume(case)
\* no cell holds more than its size
Fits == \A e \in slab : e.m[1] <= Unit * Count(case.G)

Emit == (at > 0 /\ ~Quiet) => PrintT(ToJson([case |-> case, at |-> at, fs |-> Faces(case), cover |-> Cover(case), cells |-> SetToSeq(slab)]))
Tables == PrintT(ToJson([tables |-> TRUE, hs |-> <<>>, shapes |-> <<>>, exps |-> Exps, unit |-> Unit]))
ASSUME Tables
ASSUME TilingOK
=============================================================================
