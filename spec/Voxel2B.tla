---- MODULE Voxel2B ----
EXTENDS Voxel, Shapes2B
Tables == PrintT(ToJson([tables |-> TRUE, hs |-> HSSeq, shapes |-> ShapeSeq, exps |-> Exps, unit |-> Unit]))
ASSUME Tables
ASSUME TilingOK
ASSUME ShapesOK
====
