------------------------------ MODULE PolyOps ------------------------------
(***************************************************************************)
(* Histories of clip and split calls on a body and its fragments.           *)
(* State: the list of live fragments (each a set of atoms), and the plane   *)
(* list being assembled for the next clip call.                             *)
(*   Pick(i, n):   the next clip call is made on fragment i with n planes.  *)
(*   AddPlane(h):  append a plane to the list of that call.                 *)
(*   Clip:         fragment tgt becomes its intersection with all of pend.  *)
(*   SplitAll(h):  every fragment is divided; positives first, then         *)
(*                 negatives, entry k belonging to old fragment k.          *)
(* `hist` records the calls together with everything the specification says *)
(* must be observable after each of them; complete histories are emitted    *)
(* and replayed into the implementation.                                    *)
(***************************************************************************)
EXTENDS Lattice, Json, Randomization

CONSTANTS ContentOf,     \* shape id -> set of atoms
          UseShapes,     \* lists of shape ids explored (0: an empty body)
          UseHS,         \* half-space indices explored
          Steps,         \* calls after construction
          MaxArity,      \* longest plane list of one clip call
          MinArity,      \* shortest
          MaxFrags,      \* no split beyond this number of fragments
          Kinds,         \* subset of {"clip", "split"}
          Points,        \* TRUE: also emit atoms, closure and extreme points
          Sample,        \* 0: all planes are tried; k > 0: k random ones per step (simulation)
          Keep           \* "any" | "some" (a plane must leave something) | "cut" (and remove something)

VARIABLES frags, hist, shape, body, tgt, want, pend, cur

vars == <<frags, hist, shape, body, tgt, want, pend, cur>>

PtsObs(R) == IF Points THEN [at |-> R, cl |-> Closure(R), ex |-> Extreme(R)] ELSE [at |-> {}, cl |-> {}, ex |-> {}]
Obs(fs) == [k \in DOMAIN fs |-> [n |-> Cardinality(fs[k]), m |-> Moments(fs[k]), pts |-> PtsObs(fs[k])]]

InterHS(R, hseq) == {a \in R : \A k \in DOMAIN hseq : a \in InsideT[hseq[k]]}

Init == /\ shape \in UseShapes
        /\ frags = [k \in DOMAIN shape |-> IF shape[k] = 0 THEN {} ELSE ContentOf[shape[k]]]
        /\ body = UNION {frags[k] : k \in DOMAIN shape}
        /\ hist = <<[op |-> "init", f |-> 0, hs |-> <<>>, obs |-> Obs(frags)]>>
        /\ tgt = 0 /\ want = 0 /\ pend = <<>> /\ cur = {}

More == Len(hist) <= Steps

Pick(i, n) ==
    /\ More /\ "clip" \in Kinds /\ tgt = 0 /\ frags[i] # {}
    /\ tgt' = i /\ want' = n /\ cur' = frags[i]
    /\ UNCHANGED <<frags, hist, shape, body, pend>>

AddPlane(h) ==
    /\ tgt # 0 /\ Len(pend) < want
    /\ IF Keep = "any" THEN TRUE ELSE
          /\ (\E a \in cur : a \in InsideT[h]) = TRUE       \* (= TRUE: a test, not a choice)
          /\ (Keep = "cut" => (\E a \in cur : a \notin InsideT[h]) \/ Cardinality(cur) = 1) = TRUE
    /\ cur' = IF Keep = "any" THEN cur ELSE cur \cap InsideT[h]
    /\ pend' = Append(pend, h)
    /\ UNCHANGED <<frags, hist, shape, body, tgt, want>>

Clip ==
    /\ tgt # 0 /\ Len(pend) = want
    /\ frags' = [frags EXCEPT ![tgt] = InterHS(@, pend)]
    /\ hist' = Append(hist, [op |-> "clip", f |-> tgt, hs |-> pend, obs |-> Obs(frags')])
    /\ tgt' = 0 /\ want' = 0 /\ pend' = <<>> /\ cur' = {}
    /\ UNCHANGED <<shape, body>>

SplitAll(h) ==
    /\ More /\ "split" \in Kinds /\ tgt = 0
    /\ 2 * Len(frags) <= MaxFrags
    /\ frags' = [k \in 1..Len(frags) |-> frags[k] \cap InsideT[h]]
                \o [k \in 1..Len(frags) |-> frags[k] \ InsideT[h]]
    /\ hist' = Append(hist, [op |-> "split", f |-> 0, hs |-> <<h>>, obs |-> Obs(frags')])
    /\ UNCHANGED <<shape, body, tgt, want, pend, cur>>

Try == IF Sample = 0 \/ Len(hist) = 0 THEN UseHS ELSE RandomSubset(Sample, UseHS)   \* (state-level on purpose: drawn anew in every state)

Next == \/ \E i \in DOMAIN frags : \E n \in MinArity..MaxArity : Pick(i, n)
        \/ \E h \in Try : AddPlane(h)
        \/ Clip
        \/ \E h \in Try : SplitAll(h)
        \/ Sample > 0 /\ tgt # 0 /\ UNCHANGED vars        \* draw again

Spec == Init /\ [][Next]_vars

(* ----- properties of the specification itself -------------------------- *)
\* fragments stay pairwise disjoint and inside the original body
Disjoint == Len(shape) = 1 => \A i, j \in DOMAIN frags : i # j => frags[i] \cap frags[j] = {}
Within == \A i \in DOMAIN frags : frags[i] \subseteq body
\* every fragment is on the right side of the planes it was cut with (last call)
Sides == LET l == hist[Len(hist)] IN
    /\ l.op = "clip" => \A k \in DOMAIN l.hs : frags[l.f] \subseteq InsideT[l.hs[k]]
    /\ l.op = "split" => \A k \in DOMAIN frags :
          IF 2 * k <= Len(frags) THEN frags[k] \subseteq InsideT[l.hs[1]] ELSE frags[k] \cap InsideT[l.hs[1]] = {}
\* splitting conserves every moment
Conserve == [][(hist' # hist /\ hist'[Len(hist')].op = "split") =>
    \A k \in DOMAIN frags : \A m \in 1..NMom :
        Moments(frags[k])[m] = Moments(frags'[k])[m] + Moments(frags'[Len(frags) + k])[m]]_vars
\* the outcome of a clip call depends only on the set of half-spaces
OrderFree == [][(hist' # hist /\ hist'[Len(hist')].op = "clip") =>
    frags'[tgt] = InterHS(frags[tgt], Reverse(pend))]_vars

Singles(S) == {<<s>> : s \in S}

Done == tgt = 0 /\ (Len(hist) = Steps + 1 \/ \A i \in DOMAIN frags : frags[i] = {})
Emit == Done => PrintT(ToJson([shape |-> shape, hist |-> hist]))
=============================================================================
