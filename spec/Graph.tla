------------------------------- MODULE Graph -------------------------------
(***************************************************************************)
(* What clipping does to the vertex links, with no geometry at all: a cubic *)
(* map is given by the cyclic order nb[v] = <<a, b, c>> of the neighbours   *)
(* of every vertex, a cutting plane by ANY set S of kept vertices.          *)
(*   - kept vertices keep their links and their cyclic order;               *)
(*   - every link from a kept vertex u to a removed one becomes a new       *)
(*     vertex linked to u;                                                  *)
(*   - every run of kept vertices along a face is closed by one new link    *)
(*     between the new vertices at its two ends.                            *)
(* Removed vertices may be anywhere, so all sign patterns are covered, also *)
(* those of nonconvex bodies.  Cut keeps the part S; splitting returns the  *)
(* two cuts for S and its complement.                                       *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, FiniteSetsExt, SequencesExt, TLC, Json, Randomization

CONSTANTS Starts,     \* set of start maps (names resolved below)
          MaxSteps, MaxVerts,
          Sample      \* 0: all subsets; k: k random subsets per step

VARIABLES nb, steps, last
vars == <<nb, steps, last>>

V(g) == DOMAIN g
Idx(l, x) == CHOOSE k \in 1..3 : l[k] = x
Nxt(l, x) == l[(Idx(l, x) % 3) + 1]
Prv(l, x) == l[((Idx(l, x) + 1) % 3) + 1]

\* y -> next on a face, x kept, going back along the face: the dart <<kept, removed>> where this kept run of the face began
RECURSIVE Back(_, _, _, _)
Back(g, S, y, x) == LET w == Prv(g[x], y) IN IF w \notin S THEN <<x, w>> ELSE Back(g, S, x, w)

CutDarts(g, S) == {<<u, k>> \in S \X (1..3) : g[u][k] \notin S}

(* the kept part: vertices are S in increasing order, then one per cut dart *)
Cut(g, S) ==
    LET old == SetToSortSeq(S, <)
        darts == SetToSortSeq(CutDarts(g, S), LAMBDA x, y : x[1] < y[1] \/ (x[1] = y[1] /\ x[2] < y[2]))
        nOld == Len(old)
        oldId == [v \in S |-> CHOOSE k \in 1..nOld : old[k] = v]
        dartId == [d \in CutDarts(g, S) |-> nOld + (CHOOSE k \in 1..Len(darts) : darts[k] = d)]
        toDart(uv) == <<uv[1], Idx(g[uv[1]], uv[2])>>
        fwd == [d \in CutDarts(g, S) |-> toDart(Back(g, S, g[d[1]][d[2]], d[1]))]
        bwd == [d \in CutDarts(g, S) |-> CHOOSE e \in CutDarts(g, S) : fwd[e] = d]
    IN  [nb |-> [k \in 1..(nOld + Len(darts)) |->
                   IF k <= nOld
                   THEN [m \in 1..3 |-> LET x == g[old[k]][m] IN IF x \in S THEN oldId[x] ELSE dartId[<<old[k], m>>]]
                   ELSE LET d == darts[k - nOld] IN <<oldId[d[1]], dartId[fwd[d]], dartId[bwd[d]]>>],
         old |-> old, darts |-> darts]

(* ------------------------------ start maps ----------------------------- *)
Tet == << <<2, 4, 3>>, <<3, 4, 1>>, <<1, 4, 2>>, <<2, 3, 1>> >>
\* prism over a k-gon: bottom 1..k, top k+1..2k
Prism(k) == [v \in 1..(2 * k) |->
    IF v <= k THEN <<(v % k) + 1, ((v + k - 2) % k) + 1, v + k>>
    ELSE LET w == v - k IN <<((w + k - 2) % k) + 1 + k, (w % k) + 1 + k, w>>]
\* all vertices of a map truncated (each becomes a triangle)
Truncate(g) == LET D == {<<v, k>> : v \in V(g), k \in 1..3}
                   id(v, k) == 3 * (v - 1) + k
               IN [x \in 1..(3 * Len(g)) |-> LET v == ((x - 1) \div 3) + 1
                                                 k == ((x - 1) % 3) + 1
                                                 w == g[v][k]
                                             IN <<id(w, Idx(g[w], v)), id(v, ((k + 1) % 3) + 1), id(v, (k % 3) + 1)>>]
\* two maps side by side
Both(g, h) == [x \in 1..(Len(g) + Len(h)) |-> IF x <= Len(g) THEN g[x] ELSE [m \in 1..3 |-> h[x - Len(g)][m] + Len(g)]]
StartMap(name) == CASE name = "tet" -> Tet [] name = "prism3" -> Prism(3) [] name = "cube" -> Prism(4)
                    [] name = "prism5" -> Prism(5) [] name = "prism6" -> Prism(6) [] name = "prism8" -> Prism(8)
                    [] name = "trtet" -> Truncate(Tet) [] name = "trcube" -> Truncate(Prism(4)) [] name = "trprism3" -> Truncate(Prism(3))
                    [] name = "tettet" -> Both(Tet, Tet) [] name = "tetcube" -> Both(Tet, Prism(4)) [] name = "prism12" -> Prism(12)
                    [] name = "prism64" -> Prism(64) [] name = "prism72" -> Prism(72) [] name = "prism80" -> Prism(80) [] name = "prism128" -> Prism(128) [] name = "prism170" -> Prism(170) [] name = "prism171" -> Prism(171) [] name = "prism172" -> Prism(172)
                    [] name = "prism200" -> Prism(200) [] name = "prism250" -> Prism(250) [] name = "prism255" -> Prism(255) [] name = "prism256" -> Prism(256)

(* ------------------------------ behaviours ----------------------------- *)
\* everything within r links of v: a connected piece, so that long runs along faces are kept or removed
RECURSIVE Ball(_, _, _)
Ball(g, R, r) == IF r = 0 THEN R ELSE Ball(g, TLCEval(R \cup UNION {{g[v][k] : k \in 1..3} : v \in R}), r - 1)
Balls == UNION {{B, V(nb) \ B} : B \in {TLCEval(Ball(nb, {RandomElement(V(nb))}, RandomElement(0..Max({1, Len(nb) \div 4})))) : j \in 1..Sample}}
Subsets == IF Sample = 0 \/ steps < 0 THEN SUBSET V(nb)
           ELSE Balls \cup (IF Len(nb) > 200 THEN {}
                            ELSE {{v \in V(nb) : RandomElement(1..100) <= p} : p \in RandomSubset(Sample, {20, 30, 40, 50, 60, 70, 80, 90})})

Init == /\ \E s \in Starts : nb = StartMap(s)
        /\ steps = 0
        /\ last = <<>>

Clip(S) == /\ steps < MaxSteps
           /\ Len(nb) <= MaxVerts
           /\ LET c == Cut(nb, S) IN
                /\ nb' = c.nb
                /\ last' = [g |-> nb, s |-> S, c |-> c]
           /\ steps' = steps + 1

Next == nb # <<>> /\ \E S \in Subsets : Clip(S)
View == <<nb, steps>>

(* ------------------------------ properties ----------------------------- *)
Nbrs(g, v) == {g[v][k] : k \in 1..3}
Valid(g) == \A v \in V(g) : /\ \A k \in 1..3 : g[v][k] \in V(g) /\ g[v][k] # v
                            /\ Cardinality(Nbrs(g, v)) = 3
                            /\ \A w \in Nbrs(g, v) : v \in Nbrs(g, w)
RECURSIVE Reach(_, _, _)
Reach(g, A, R) == LET B == (UNION {Nbrs(g, v) : v \in R} \cap A) \ R IN IF B = {} THEN R ELSE Reach(g, A, R \cup B)
Comp(g, v) == Reach(g, V(g), {v})
RECURSIVE Comps(_, _)
Comps(g, A) == IF A = {} THEN {} ELSE LET v == CHOOSE x \in A : TRUE IN {Comp(g, v)} \cup Comps(g, A \ Comp(g, v))
ThreeConn(g) == \A C \in Comps(g, V(g)) : \A a, b \in C : a < b =>
    LET A == C \ {a, b} IN A = {} \/ Reach(g, A, {CHOOSE x \in A : TRUE}) = A
\* faces: orbits of darts
Darts(g) == {<<v, k>> : v \in V(g), k \in 1..3}
NextDart(g, d) == LET w == g[d[1]][d[2]] IN <<w, (Idx(g[w], d[1]) % 3) + 1>>
RECURSIVE Orbit(_, _, _)
Orbit(g, d, acc) == IF d \in acc THEN acc ELSE Orbit(g, NextDart(g, d), acc \cup {d})
RECURSIVE CountFaces(_, _)
CountFaces(g, A) == IF A = {} THEN 0 ELSE 1 + CountFaces(g, A \ Orbit(g, CHOOSE d \in A : TRUE, {}))
Planar(g) == 2 * Len(g) - 3 * Len(g) + 2 * CountFaces(g, Darts(g)) = 4 * Cardinality(Comps(g, V(g)))

LinksOK == Valid(nb)
\* a body that passes the validity test still passes it
ConnOK == ThreeConn(nb)
PlanarOK == Planar(nb)
\* every kept link survives, every kept vertex keeps its degree
KeptOK == last # <<>> => \A k \in 1..Len(last.c.old) : \A m \in 1..3 :
    LET x == last.g[last.c.old[k]][m] IN
      IF x \in last.s THEN last.c.old[nb[k][m]] = x ELSE nb[k][m] > Len(last.c.old)
CountOK == last # <<>> => Len(nb) = Cardinality(last.s) + Cardinality(CutDarts(last.g, last.s))

Part(c) == [nb |-> c.nb, old |-> c.old, darts |-> c.darts]
Emit == last # <<>> => PrintT(ToJson([g |-> last.g, s |-> last.s, pos |-> Part(last.c), neg |-> Part(Cut(last.g, V(last.g) \ last.s))]))
=============================================================================
