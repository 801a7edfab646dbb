----------------------------- MODULE FacePlane -----------------------------
(***************************************************************************)
(* Planar faces of any outline.  A face grows cell by cell (a polyomino     *)
(* without holes or pinches); its boundary, walked with the cells on the    *)
(* left, is the vertex list, some of whose straight-through vertices are    *)
(* left out.  Placed in space by p -> o + x u + y w its normal, by the      *)
(* right-hand rule, is u x w, whatever the outline, the start vertex and    *)
(* the number of vertices; all vertices lie in the plane.                   *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, FiniteSetsExt, SequencesExt, TLC, Json, Randomization
CONSTANTS MaxCells, W, EmitAt
VARIABLES cells, loop, frame
vars == <<cells, loop, frame>>

Grid == (0..W) \X (0..W)
\* boundary edges with the cell on the left
EdgesOf(C) == UNION {{e \in {<< <<c[1], c[2]>>, <<c[1] + 1, c[2]>>, <<c[1], c[2] - 1>> >>,
                             << <<c[1] + 1, c[2]>>, <<c[1] + 1, c[2] + 1>>, <<c[1] + 1, c[2]>> >>,
                             << <<c[1] + 1, c[2] + 1>>, <<c[1], c[2] + 1>>, <<c[1], c[2] + 1>> >>,
                             << <<c[1], c[2] + 1>>, <<c[1], c[2]>>, <<c[1] - 1, c[2]>> >>} : e[3] \notin C} : c \in C}
RECURSIVE Walk(_, _, _)
Walk(E, p, p0) == LET q == (CHOOSE e \in E : e[1] = p)[2] IN IF q = p0 THEN <<p>> ELSE <<p>> \o Walk(E, q, p0)
NoPinch(E) == \A e, f \in E : e[1] = f[1] => e = f
Outline(C) == LET E == EdgesOf(C)
                  p == (CHOOSE e \in E : TRUE)[1]
              IN Walk(E, p, p)
Simple(C) == LET E == EdgesOf(C) IN NoPinch(E) /\ Len(Outline(C)) = Cardinality(E)
Straight(l, k) == LET a == l[((k + Len(l) - 2) % Len(l)) + 1]
                      c == l[(k % Len(l)) + 1]
                  IN a[1] + c[1] = 2 * l[k][1] /\ a[2] + c[2] = 2 * l[k][2]
\* leave out some of the vertices in the middle of straight sides
Thin(l, p) == LET keep == TLCEval([k \in 1..Len(l) |-> ~Straight(l, k) \/ RandomElement(1..100) > p]) IN
              LET idx == SelectSeq([k \in 1..Len(l) |-> k], LAMBDA k : keep[k]) IN [k \in 1..Len(idx) |-> l[idx[k]]]
Vec == {v \in [1..3 -> -2..2] : v # [k \in 1..3 |-> 0]}
Cross(u, v) == <<u[2] * v[3] - u[3] * v[2], u[3] * v[1] - u[1] * v[3], u[1] * v[2] - u[2] * v[1]>>
RandFrame == LET u == RandomElement(Vec)
                 w == RandomElement({x \in Vec : Cross(u, x) # <<0, 0, 0>>})
             IN [o |-> [k \in 1..3 |-> RandomElement(-9..9)], u |-> u, w |-> w]
Init == /\ cells = {<<0, 0>>} /\ loop = Outline(cells) /\ frame = RandFrame
Adj(c) == {<<c[1] + 1, c[2]>>, <<c[1] - 1, c[2]>>, <<c[1], c[2] + 1>>, <<c[1], c[2] - 1>>}
Cands == UNION {Adj(c) : c \in cells} \cap (Grid \ cells)
Next == /\ Cardinality(cells) < MaxCells
        /\ \E c \in RandomSubset(2, Cands) : Simple(cells \cup {c}) /\ cells' = cells \cup {c}
        /\ loop' = Thin(Outline(cells'), RandomElement({0, 50, 90, 100}))
        /\ frame' = RandFrame
\* twice the area
Area2 == FoldFunction(+, 0, [k \in 1..Len(loop) |-> LET p == loop[k] q == loop[(k % Len(loop)) + 1] IN p[1] * q[2] - q[1] * p[2]])
AreaOK == Area2 = 2 * Cardinality(cells)
P(k) == [i \in 1..3 |-> frame.o[i] + loop[k][1] * frame.u[i] + loop[k][2] * frame.w[i]]
Nrm == Cross(frame.u, frame.w)
Dot(a, b) == a[1] * b[1] + a[2] * b[2] + a[3] * b[3]
PlaneOK == \A k \in 1..Len(loop) : Dot(Nrm, P(k)) = Dot(Nrm, frame.o)
Emit == Cardinality(cells) % EmitAt = 0 =>
        PrintT(ToJson([pts |-> [k \in 1..Len(loop) |-> P(k)], n |-> Nrm, d |-> -Dot(Nrm, frame.o), loop |-> loop, cells |-> Cardinality(cells)]))
=============================================================================
