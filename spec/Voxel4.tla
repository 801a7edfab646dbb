---- MODULE Voxel4 ----
EXTENDS Voxel, Shapes4
Tables == PrintT(ToJson([tables |-> TRUE, hs |-> HSSeq, shapes |-> ShapeSeq, exps |-> Exps, unit |-> Unit]))
\* The grid meets the body in general position: no point of the body lies on
\* more than D of the facets and cell boundaries (all vertices of the
\* arrangement are lattice points).  Outside this the 4D volume is undefined
\* in the implementation (see known-findings.txt).
OnGrid(gr, x, i, lo, hi) == /\ (x[i] + gr.P[i]) % gr.G[i] = 0
                            /\ lo[i] < (x[i] + gr.P[i]) \div gr.G[i] /\ (x[i] + gr.P[i]) \div gr.G[i] < hi[i]
Simple4 == phase \in {"clamp", "start"} =>
    LET fs == Range(ShapeT[shape].parts)
        C == Closure(base)
        \* every boundary of the (unclamped) grid in reach of the body counts
        lo == mbox.lo  hi == mbox.hi
        \* a facet flush with a cell boundary drifts off it when other cuts are rounded, so such a
        \* boundary must be one that is never cut at
    IN /\ \A i \in Axes : /\ (g.ml[i] > 0 => (Extent.lo[i] + g.P[i]) % g.G[i] # 0)
                          /\ (g.mh[i] > 0 => (Extent.hi[i] + g.P[i]) % g.G[i] # 0)
       /\ \A x \in C : Cardinality({f \in fs : PlaneVal(f, x) = 0}) + Cardinality({i \in Axes : OnGrid(g, x, i, lo, hi)}) <= D
ASSUME Tables
ASSUME ShapesOK
====
