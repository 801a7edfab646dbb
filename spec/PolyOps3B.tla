---- MODULE PolyOps3B ----
EXTENDS PolyOps, Shapes3B
\* tables the driver needs to interpret indices
Tables == PrintT(ToJson([tables |-> TRUE, hs |-> HSSeq, shapes |-> ShapeSeq, exps |-> Exps, unit |-> Unit, atoms |-> AtomT]))
AllShapes == Singles(ShapeIds)
ASSUME Tables
ASSUME TilingOK
ASSUME ShapesOK
====
