---- MODULE Faces2 ----
EXTENDS Faces, Shapes2
Tables == PrintT(ToJson([tables |-> TRUE, hs |-> HSSeq, shapes |-> ShapeSeq, exps |-> Exps, unit |-> Unit]))
ASSUME Tables
ASSUME TilingOK
ASSUME ShapesOK
\* a convex shape is the intersection of its own face half-spaces
Convex == {s \in ShapeIds : ShapeT[s].convex}
====
