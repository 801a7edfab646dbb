------------------------------- MODULE Faces -------------------------------
(***************************************************************************)
(* Face planes computed from a shape b, used to clip a body a: the result   *)
(* is the intersection of the two bodies.  b is convex.                     *)
(***************************************************************************)
EXTENDS Lattice, Json, Randomization
CONSTANTS ContentOf, Bodies, Clippers
VARIABLES a, b, res
vars == <<a, b, res>>
Init == /\ a \in Bodies
        /\ b \in Clippers
        /\ res = ContentOf[a] \cap ContentOf[b]
Next == UNCHANGED vars
\* clipping is intersection: symmetric, contained in both, idempotent
Contained == res \subseteq ContentOf[a] /\ res \subseteq ContentOf[b]
SelfClip == (a = b) => res = ContentOf[a]
Emit == PrintT(ToJson([a |-> a, b |-> b, n |-> Cardinality(res), m |-> Moments(res)]))
=============================================================================
