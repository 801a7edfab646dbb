------------------------------- MODULE Poly4 -------------------------------
(***************************************************************************)
(* Histories of clip calls on 4D simplices and boxes.  The body is convex   *)
(* and simple (four facets at every vertex); a cut is generic if it leaves  *)
(* all vertices on one side, or passes through none of them, and generic    *)
(* cuts keep the body simple.  Besides its volume the specification fixes   *)
(* the exact vertex set and edge graph after each call: two vertices are    *)
(* joined iff they share three facets.                                      *)
(***************************************************************************)
EXTENDS Shapes4, Json, Randomization

CONSTANTS ContentOf, UseShapes, UseHS, Steps, MinArity, MaxArity, Sample, Keep

VARIABLES shape, body, facets, ext, pend, want, hist, strict    \* strict: no plane so far touched a vertex
vars == <<shape, body, facets, ext, pend, want, hist, strict>>

Tight(x, fs) == {f \in fs : PlaneVal(f, x) = 0}
Obs(R, E, fs) == LET T == [x \in E |-> Tight(x, fs)]
                     S == SetToSeq(E)
                     I == DOMAIN S
                 IN [n |-> Cardinality(R), ex |-> S,
                     ed |-> {<<i, j>> \in I \X I : i < j /\ Cardinality(T[S[i]] \cap T[S[j]]) >= D - 1}]

Init == /\ shape \in UseShapes
        /\ body = ContentOf[shape]
        /\ facets = Range(ShapeT[shape].parts)
        /\ ext = Extreme(body)
        /\ hist = <<[hs |-> <<>>, obs |-> Obs(body, ext, facets)]>>
        /\ pend = <<>> /\ want = 0 /\ strict = TRUE

Above(E, h) == {x \in E : PlaneVal(h, x) > 0}
Below(E, h) == {x \in E : PlaneVal(h, x) < 0}
Generic(E, h) == Above(E, h) = {} \/ Below(E, h) = {} \/ Above(E, h) \cup Below(E, h) = E
Cuts(E, h) == Above(E, h) # {} /\ Below(E, h) # {}

Begin(n) == /\ want = 0 /\ Len(hist) <= Steps /\ body # {}
            /\ want' = n
            /\ UNCHANGED <<shape, body, facets, ext, pend, hist, strict>>
\* body, facets, ext already reflect the planes of the call being assembled
Add(h) == /\ want > 0 /\ Len(pend) < want
          /\ Generic(ext, HST[h])
          /\ Keep = "cut" => Cuts(ext, HST[h])
          /\ Keep = "some" => Above(ext, HST[h]) # {}
          /\ pend' = Append(pend, h)
          /\ strict' = (strict /\ Above(ext, HST[h]) \cup Below(ext, HST[h]) = ext)
          /\ body' = body \cap InsideT[h]
          /\ facets' = IF Cuts(ext, HST[h]) THEN facets \cup {HST[h]} ELSE facets
          /\ ext' = IF Cuts(ext, HST[h]) THEN Extreme(body') ELSE IF Above(ext, HST[h]) = {} THEN {} ELSE ext
          /\ UNCHANGED <<shape, want, hist>>
Call == /\ want > 0 /\ Len(pend) = want
        /\ hist' = Append(hist, [hs |-> pend, obs |-> Obs(body, ext, facets)])
        /\ pend' = <<>> /\ want' = 0
        /\ UNCHANGED <<shape, body, facets, ext, strict>>

Try == IF Sample = 0 \/ Len(hist) = 0 THEN UseHS ELSE RandomSubset(Sample, UseHS)
Next == \/ \E n \in MinArity..MaxArity : Begin(n)
        \/ \E h \in Try : Add(h)
        \/ Call
        \/ Sample > 0 /\ want > 0 /\ UNCHANGED vars
Spec == Init /\ [][Next]_vars

\* the body stays simple, every vertex keeps four neighbours, and none is invented
Simple == \A x \in ext : Cardinality(Tight(x, facets)) = D
Degree == LET o == hist[Len(hist)].obs IN \A i \in DOMAIN o.ex : Cardinality({e \in o.ed : e[1] = i \/ e[2] = i}) = D
\* Euler's relation for the edge graph of a simple 4-polytope: 2 E = 4 V
Halves == LET o == hist[Len(hist)].obs IN Cardinality(o.ed) = 2 * Len(o.ex)
Nonempty == (body = {}) <=> (ext = {})

Done == want = 0 /\ (Len(hist) = Steps + 1 \/ body = {})
Emit == Done => PrintT(ToJson([shape |-> shape, hist |-> hist, strict |-> strict]))
Tables == PrintT(ToJson([tables |-> TRUE, hs |-> HSSeq, shapes |-> ShapeSeq, exps |-> <<[i \in Axes |-> 0]>>, unit |-> Fact(D)]))
ASSUME Tables
ASSUME ShapesOK
=============================================================================
