------------------------------- MODULE Voxel -------------------------------
(***************************************************************************)
(* Grids: index boxes, clamping and voxelization.                           *)
(* A grid case g fixes, per axis, the number G of lattice units per cell,   *)
(* the phase P of the first cell boundary, how far the index box exceeds    *)
(* the smallest covering one (ml, mh) and the clamp range (a, b), relative  *)
(* to the covering box.  Cell k of axis i is  G*k - P <= x_i <= G*(k+1)-P.  *)
(*                                                                          *)
(* Phases:  cut -> box -> (clamp) -> vox -> done.                           *)
(*   Cut(h):   the body is first clipped by a half-space (or not, h = 0).   *)
(*   GetBox:   index box := smallest covering box, widened by the margins.  *)
(*   Clamp:    box and body are intersected with the clamp range.           *)
(*   Pop:      one step of voxelization: take a sub-box off the stack and   *)
(*             drop it (empty), deposit it (single cell) or divide it.      *)
(* With Strategy "mid" a box is halved along its longest axis; with "any"   *)
(* every axis and every cut position is tried, so the deposit is shown not  *)
(* to depend on the strategy.                                               *)
(***************************************************************************)
EXTENDS Lattice, Json

CONSTANTS ContentOf, UseShapes, Grids, UseCuts, DoClamp, Strategy, Quiet

VARIABLES shape, base, g, h, body, clamped, phase, box, mbox, stack, cells

vars == <<shape, base, g, h, body, clamped, phase, box, mbox, stack, cells>>

Idx(gr, a, i) == (AtomT[a].c[i] + gr.P[i]) \div gr.G[i]
InBox(gr, a, lo, hi) == \A i \in Axes : lo[i] <= Idx(gr, a, i) /\ Idx(gr, a, i) < hi[i]
Part(gr, R, lo, hi) == {a \in R : InBox(gr, a, lo, hi)}

MinS(S) == CHOOSE x \in S : \A y \in S : x <= y
MaxS(S) == CHOOSE x \in S : \A y \in S : y <= x
CoverLo(gr, R) == [i \in Axes |-> MinS({Idx(gr, a, i) : a \in R})]
CoverHi(gr, R) == [i \in Axes |-> MaxS({Idx(gr, a, i) : a \in R}) + 1]

Init == /\ shape \in UseShapes
        /\ base = ContentOf[shape]
        /\ h \in UseCuts
        /\ body = IF h = 0 THEN base ELSE base \cap InsideT[h]
        /\ g \in Grids
        /\ clamped = FALSE
        /\ phase = IF body = {} THEN "none" ELSE "box"
        /\ box = [lo |-> <<>>, hi |-> <<>>] /\ mbox = box
        /\ stack = <<>> /\ cells = {}

GetBox == /\ phase = "box"
          /\ mbox' = [lo |-> CoverLo(g, body), hi |-> CoverHi(g, body)]
          /\ box' = [lo |-> [i \in Axes |-> CoverLo(g, body)[i] - g.ml[i]],
                     hi |-> [i \in Axes |-> CoverHi(g, body)[i] + g.mh[i]]]
          /\ phase' = IF DoClamp THEN "clamp" ELSE "start"
          /\ UNCHANGED <<shape, base, g, h, body, clamped, stack, cells>>

\* clamp range, absolute
RLo == [i \in Axes |-> mbox.lo[i] + g.a[i]]
RHi == [i \in Axes |-> mbox.hi[i] + g.b[i]]

Clamp == /\ phase = "clamp"
         /\ \A i \in Axes : RLo[i] < RHi[i]          \* an allowed range has at least one cell
         /\ LET lo == [i \in Axes |-> IF box.lo[i] > RLo[i] THEN box.lo[i] ELSE RLo[i]]
                hi == [i \in Axes |-> IF box.hi[i] < RHi[i] THEN box.hi[i] ELSE RHi[i]]
                none == \E i \in Axes : hi[i] <= lo[i]
            IN /\ box' = [lo |-> lo, hi |-> hi]
               /\ body' = IF none THEN {} ELSE Part(g, body, RLo, RHi)
               /\ phase' = IF none THEN "empty" ELSE "start"
         /\ clamped' = TRUE
         /\ UNCHANGED <<shape, base, g, h, mbox, stack, cells>>

Start == /\ phase = "start"
         /\ stack' = <<[r |-> body, lo |-> box.lo, hi |-> box.hi]>>
         /\ phase' = "vox"
         /\ UNCHANGED <<shape, base, g, h, body, clamped, box, mbox, cells>>

Size(e, i) == e.hi[i] - e.lo[i]
Top == stack[Len(stack)]
Rest == SubSeq(stack, 1, Len(stack) - 1)
Longest(e) == CHOOSE i \in Axes : /\ \A j \in Axes : Size(e, j) <= Size(e, i)
                                  /\ \A j \in 1..(i - 1) : Size(e, j) < Size(e, i)
Low(e, i, k) == [r |-> {a \in e.r : Idx(g, a, i) < k}, lo |-> e.lo, hi |-> [e.hi EXCEPT ![i] = k]]
High(e, i, k) == [r |-> {a \in e.r : Idx(g, a, i) >= k}, lo |-> [e.lo EXCEPT ![i] = k], hi |-> e.hi]

Drop == phase = "vox" /\ stack # <<>> /\ Top.r = {} /\ stack' = Rest
        /\ UNCHANGED <<shape, base, g, h, body, clamped, phase, box, mbox, cells>>
Deposit == /\ phase = "vox" /\ stack # <<>> /\ Top.r # {} /\ \A i \in Axes : Size(Top, i) = 1
           /\ cells' = cells \cup {[c |-> Top.lo, r |-> Top.r]}
           /\ stack' = Rest
           /\ UNCHANGED <<shape, base, g, h, body, clamped, phase, box, mbox>>
Divide(i, k) == /\ phase = "vox" /\ stack # <<>> /\ Top.r # {}
                /\ Top.lo[i] < k /\ k < Top.hi[i]
                /\ Strategy = "mid" => /\ i = Longest(Top) /\ k = Top.lo[i] + Size(Top, i) \div 2
                /\ stack' = Rest \o <<Low(Top, i, k), High(Top, i, k)>>
                /\ UNCHANGED <<shape, base, g, h, body, clamped, phase, box, mbox, cells>>
Finish == /\ phase = "vox" /\ stack = <<>> /\ phase' = "done"
          /\ UNCHANGED <<shape, base, g, h, body, clamped, box, mbox, stack, cells>>

Divides == IF phase # "vox" \/ stack = <<>> THEN FALSE
           ELSE IF Strategy = "mid" THEN LET i == Longest(Top) IN Divide(i, Top.lo[i] + Size(Top, i) \div 2)
           ELSE \E i \in Axes : \E k \in (Top.lo[i] + 1)..(Top.hi[i] - 1) : Divide(i, k)

Next == GetBox \/ Clamp \/ Start \/ Drop \/ Deposit \/ Divides \/ Finish

Spec == Init /\ [][Next]_vars

(* ----- properties of the specification --------------------------------- *)
Held == UNION {stack[k].r : k \in DOMAIN stack} \cup UNION {e.r : e \in cells}
Count == SumTo([k \in DOMAIN stack |-> Cardinality(stack[k].r)], Len(stack)) + Sum(cells, LAMBDA e : Cardinality(e.r))
\* nothing is lost or counted twice at any step
Ledger == phase \in {"vox", "done"} => Held = body /\ Count = Cardinality(body)
\* every pending piece lies in its own sub-box, and sub-boxes tile what is left
Placed == \A k \in DOMAIN stack : stack[k].r = Part(g, body, stack[k].lo, stack[k].hi)
\* at the end each cell holds exactly the part of the body in it
Exact == phase = "done" =>
    /\ \A e \in cells : e.r = Part(g, body, e.c, [i \in Axes |-> e.c[i] + 1])
    /\ \A e, f \in cells : e.c = f.c => e = f
\* the covering box is the smallest one
Minimal == phase = "clamp" => \A i \in Axes :
    /\ \E a \in body : Idx(g, a, i) = mbox.lo[i]
    /\ \E a \in body : Idx(g, a, i) = mbox.hi[i] - 1
\* clamping twice changes nothing more; the clamped body is covered by the clamped box
ClampOK == (phase \in {"start", "vox"} /\ clamped) =>
    body = Part(g, body, box.lo, box.hi)
RECURSIVE CLog2(_)
CLog2(n) == IF n <= 1 THEN 0 ELSE 1 + CLog2((n + 1) \div 2)
\* the number of pending sub-boxes is bounded by the sum of the depths
Bound == (Strategy = "mid" /\ phase = "vox") =>
    Len(stack) <= SumTo([i \in Axes |-> CLog2(box.hi[i] - box.lo[i])], D) + 1

\* extent of the body before clamping
Whole == IF h = 0 THEN base ELSE base \cap InsideT[h]
Extent == LET C == Closure(Whole) IN [lo |-> [i \in Axes |-> MinS({x[i] : x \in C})], hi |-> [i \in Axes |-> MaxS({x[i] : x \in C})]]
CellObs == LET s == SetToSeq(cells) IN [k \in DOMAIN s |-> [c |-> s[k].c, m |-> Moments(s[k].r)]]
Emit == (phase \in {"done", "empty"} /\ ~Quiet) =>
    PrintT(ToJson([shape |-> shape, h |-> h, g |-> g, mbox |-> mbox, box |-> box, clamp |-> DoClamp,
                   rlo |-> IF DoClamp THEN RLo ELSE <<>>, rhi |-> IF DoClamp THEN RHi ELSE <<>>,
                   ext |-> Extent, empty |-> (phase = "empty"), m |-> Moments(body),
                   cells |-> CellObs]))
=============================================================================
