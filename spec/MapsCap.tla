------------------------------ MODULE MapsCap ------------------------------
(* Room needed by the construction of a described body in a buffer of a     *)
(* given capacity: one slot per vertex when all vertices have three edges;  *)
(* otherwise at most one per corner of a face, and k-2 for a vertex of      *)
(* degree k in the end.                                                     *)
EXTENDS Maps
BuildNeed == IF Simple(n, faces) THEN n ELSE NDarts(faces)
BuildSize == NDarts(faces) - 2 * n
BuildVerdict(c) == IF refuse THEN "fail" ELSE IF BuildNeed <= c THEN "ok" ELSE IF BuildSize > c THEN "fail" ELSE "any"
BuildCaps == {c \in {BuildNeed - 1, BuildNeed, BuildNeed + 1, BuildSize - 1, BuildSize, n - 1, n} : c >= 4}
SizeOK == refuse \/ (n <= BuildSize /\ BuildSize <= BuildNeed)
EmitCap == PrintT(ToJson([n |-> n, f |-> faces, refuse |-> refuse, need |-> BuildNeed, size |-> BuildSize,
                          caps |-> {<<c, BuildVerdict(c)>> : c \in BuildCaps}]))
=============================================================================
