------------------------------- MODULE Window ------------------------------
(***************************************************************************)
(* The deprecated library: a convex body given by four half-spaces is       *)
(* deposited on a window of cells by classifying the corners of boxes of    *)
(* cells.  A box all of whose corners are strictly inside all four is full; *)
(* a box with no corner inside one of them is left alone; any other box is  *)
(* divided, and a single cell is cut by the faces that do not contain all   *)
(* its corners.  The order in which boxes are looked at is free ("any"), a  *)
(* scan over single cells ("scan") or halving of the longest axis ("tree"). *)
(***************************************************************************)
EXTENDS Lattice, Json, Randomization
CONSTANTS Faces,      \* "planes": any four half-spaces;  "body": a simplex (3D) or a quadrilateral (2D)
          Samples, Windows, Strategy, Quiet
VARIABLES faces, verts, win, boxes, cells, phase
vars == <<faces, verts, win, boxes, cells, phase>>

\* ---------------------------------------------------------------- bodies
HSRec(i, j, c, s) == IF j = 0 \/ i < j THEN [i |-> i, j |-> j, c |-> c, s |-> s] ELSE [i |-> j, j |-> i, c |-> 0 - c, s |-> 0 - s]
Even(p) == p \in {<<1, 2, 3>>, <<2, 3, 1>>, <<3, 1, 2>>}
TetFaces(b, s, p) == <<HSRec(p[1], 0, b[p[1]] + s, -1), HSRec(p[1], p[2], b[p[1]] - b[p[2]], 1), HSRec(p[2], p[3], b[p[2]] - b[p[3]], 1), HSRec(p[3], 0, b[p[3]], 1)>>
TetPoint(b, s, p, k) == [i \in Axes |-> b[i] + (IF \E m \in 1..k : p[m] = i THEN s ELSE 0)]
TetVerts(b, s, p) == LET v == [k \in 1..4 |-> TetPoint(b, s, p, k - 1)] IN IF Even(p) THEN v ELSE <<v[1], v[2], v[4], v[3]>>
QuadFaces(q) == CASE q.k = 1 -> <<HSRec(1, 0, q.a, 1), HSRec(1, 0, q.b, -1), HSRec(2, 0, q.c, 1), HSRec(2, 0, q.e, -1)>>
                  [] q.k = 2 -> <<HSRec(1, 0, q.a, 1), HSRec(1, 0, q.b, -1), HSRec(1, 2, q.c, 1), HSRec(1, 2, q.e, -1)>>
                  [] q.k = 3 -> <<HSRec(2, 0, q.a, 1), HSRec(2, 0, q.b, -1), HSRec(1, 2, q.c, 1), HSRec(1, 2, q.e, -1)>>
QuadVerts(q) == CASE q.k = 1 -> <<<<q.a, q.c>>, <<q.b, q.c>>, <<q.b, q.e>>, <<q.a, q.e>>>>
                  [] q.k = 2 -> <<<<q.a, q.a - q.e>>, <<q.b, q.b - q.e>>, <<q.b, q.b - q.c>>, <<q.a, q.a - q.c>>>>
                  [] q.k = 3 -> <<<<q.a + q.c, q.a>>, <<q.a + q.e, q.a>>, <<q.b + q.e, q.b>>, <<q.b + q.c, q.b>>>>
Quads == [k : 1..3, a : (-2)..N, b : 0..(N + 2), c : (0 - N)..N, e : (0 - N)..(N + 2)]
GoodQuad(q) == q.a < q.b /\ q.c < q.e

Choose4 == {LET q == [k \in 1..4 |-> HST[RandomElement(HS)]] IN [f |-> q, v |-> <<>>] : n \in 1..Samples}
ChooseTet == {[f |-> TetFaces(x.b, x.s, x.p), v |-> TetVerts(x.b, x.s, x.p)] :
                x \in RandomSubset(Samples, [b : [Axes -> (-2)..(N - 1)], s : 1..(N + 2), p : Perms])}
ChooseQuad == {[f |-> QuadFaces(q), v |-> QuadVerts(q)] : q \in {x \in RandomSubset(6 * Samples, Quads) : GoodQuad(x)}}
Bodies == IF Faces = "planes" THEN Choose4 ELSE IF D = 3 THEN ChooseTet ELSE ChooseQuad

\* ---------------------------------------------------------------- windows
CubeSet == [Axes -> 0..(N - 1)]
CubeAtoms == [c \in CubeSet |-> {a \in Atoms : AtomT[a].c = c}]
\* [G, P, n]: cells of G lattice units, n of them per axis, from the lattice point P
At(w, k) == [i \in Axes |-> w.P[i] + w.G[i] * k[i]]
Corners(b) == {[i \in Axes |-> IF m[i] = 0 THEN b.lo[i] ELSE b.hi[i]] : m \in [Axes -> 0..1]}
In(w, f, k) == PlaneVal(f, At(w, k)) > 0
BoxAtoms(w, b) == UNION {CubeAtoms[c] : c \in {x \in CubeSet : \A i \in Axes : w.P[i] + w.G[i] * b.lo[i] <= x[i] /\ x[i] < w.P[i] + w.G[i] * b.hi[i]}}
Full(w, b) == \A f \in 1..4 : \A k \in Corners(b) : In(w, faces[f], k)
Away(w, b) == \E f \in 1..4 : \A k \in Corners(b) : ~In(w, faces[f], k)
Needed(w, b) == {f \in 1..4 : \E k \in Corners(b) : ~In(w, faces[f], k)}
Part(w, b, F) == {a \in BoxAtoms(w, b) : \A f \in F : InHS(AtomT[a], faces[f])}
CellsIn(b) == {k \in [Axes -> 0..N] : \A i \in Axes : b.lo[i] <= k[i] /\ k[i] < b.hi[i]}
Cell(k) == [lo |-> k, hi |-> [i \in Axes |-> k[i] + 1]]
All(w) == [lo |-> [i \in Axes |-> 0], hi |-> w.n]
Size(b, i) == b.hi[i] - b.lo[i]
Single(b) == \A i \in Axes : Size(b, i) = 1
Longest(b) == CHOOSE i \in Axes : (\A j \in Axes : Size(b, j) <= Size(b, i)) /\ (\A j \in 1..(i - 1) : Size(b, j) < Size(b, i))

Init == /\ faces = <<>> /\ verts = <<>> /\ win = <<>> /\ boxes = {} /\ cells = {} /\ phase = "choose"
Choose == /\ phase = "choose"
          /\ \E x \in Bodies : \E w \in Windows :
               /\ faces' = x.f /\ verts' = x.v /\ win' = w
               /\ boxes' = IF Strategy = "scan" THEN {Cell(k) : k \in CellsIn(All(w))} ELSE {All(w)}
          /\ phase' = "work" /\ UNCHANGED cells
Divide(b, i, k) == {[b EXCEPT !.hi[i] = k], [b EXCEPT !.lo[i] = k]}
Deposit(b) ==
    IF Full(win, b) THEN {[c |-> k, r |-> BoxAtoms(win, Cell(k)), how |-> "full"] : k \in CellsIn(b)}
    ELSE IF Away(win, b) THEN {}
    ELSE {[c |-> b.lo, r |-> Part(win, b, Needed(win, b)), how |-> "cut"]}
Look(b) == /\ phase = "work" /\ b \in boxes
           /\ IF Full(win, b) \/ Away(win, b) \/ Single(b)
              THEN cells' = cells \cup Deposit(b) /\ boxes' = boxes \ {b}
              ELSE /\ \E i \in Axes : \E k \in (b.lo[i] + 1)..(b.hi[i] - 1) :
                        /\ Strategy = "tree" => i = Longest(b) /\ k = b.lo[i] + Size(b, i) \div 2
                        /\ boxes' = (boxes \ {b}) \cup Divide(b, i, k)
                   /\ UNCHANGED cells
           /\ UNCHANGED <<faces, verts, win, phase>>
\* the scan and the tree take the boxes in a fixed order, "any" in every order
NextBox == IF Strategy = "any" THEN boxes ELSE {CHOOSE b \in boxes : TRUE}
Finish == /\ phase = "work" /\ boxes = {} /\ phase' = "done" /\ UNCHANGED <<faces, verts, win, boxes, cells>>
Next == Choose \/ (phase = "work" /\ boxes # {} /\ \E b \in NextBox : Look(b)) \/ Finish

\* ---------------------------------------------------------------- properties
BodyIn(R) == {a \in R : \A f \in 1..4 : InHS(AtomT[a], faces[f])}
\* what is left alone holds nothing; full and cut boxes hold exactly the part of the body in them
Exact == phase = "done" =>
    /\ \A e \in cells : e.r = BodyIn(BoxAtoms(win, Cell(e.c)))
    /\ UNION {e.r : e \in cells} = BodyIn(BoxAtoms(win, All(win)))
    /\ \A e, f \in cells : e.c = f.c => e = f
\* pending boxes and finished cells tile the window at every step
Overlap(b, c) == \A i \in Axes : b.lo[i] < c.hi[i] /\ c.lo[i] < b.hi[i]
Tiling == (phase = "work" /\ Strategy # "scan") => \A b, c \in boxes : b = c \/ ~Overlap(b, c)
\* a simplex or quadrilateral whose corners lie in the window is conserved
VertsOK == (phase = "done" /\ verts # <<>>) => \A v \in DOMAIN verts : \A f \in 1..4 : PlaneVal(faces[f], verts[v]) >= 0
CellObs == LET s == SetToSeq({e \in cells : e.r # {}}) IN [k \in DOMAIN s |-> [c |-> s[k].c, m |-> Moments(s[k].r), how |-> s[k].how]]
Emit == (phase = "done" /\ ~Quiet) =>
    PrintT(ToJson([faces |-> faces, verts |-> verts, w |-> win, cells |-> CellObs, cut |-> {e.c : e \in {x \in cells : x.how = "cut"}}]))
=============================================================================
