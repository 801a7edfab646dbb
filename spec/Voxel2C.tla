---- MODULE Voxel2C ----
EXTENDS Voxel, Shapes2C
Tables == PrintT(ToJson([tables |-> TRUE, hs |-> HSSeq, shapes |-> ShapeSeq, exps |-> Exps, unit |-> Unit]))
ASSUME Tables
ASSUME TilingOK
ASSUME ShapesOK
====
