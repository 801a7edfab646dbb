---- MODULE Window2 ----
EXTENDS Window
Tables == PrintT(ToJson([tables |-> TRUE, hs |-> HSSeq, shapes |-> <<>>, exps |-> Exps, unit |-> Unit]))
ASSUME Tables
ASSUME TilingOK
====
