---- MODULE Voxel2 ----
EXTENDS Voxel, Shapes2
Tables == PrintT(ToJson([tables |-> TRUE, hs |-> HSSeq, shapes |-> ShapeSeq, exps |-> Exps, unit |-> Unit]))
ASSUME Tables
ASSUME TilingOK
ASSUME ShapesOK
====
