---- MODULE PolyOps2C ----
EXTENDS PolyOps, Shapes2C
\* tables the driver needs to interpret indices
Tables == PrintT(ToJson([tables |-> TRUE, hs |-> HSSeq, shapes |-> ShapeSeq, exps |-> Exps, unit |-> Unit, atoms |-> AtomT]))
AllShapes == Singles(ShapeIds)
ASSUME Tables
ASSUME TilingOK
ASSUME ShapesOK
====
