------------------------------ MODULE Shapes4 ------------------------------
(* Four-dimensional simplices (of the alcove arrangement) and boxes.         *)
EXTENDS Lattice
Simplex(name, o, p, s) == [name |-> name, kind |-> "simplex", convex |-> TRUE,
    verts |-> [k \in 1..5 |-> [i \in 1..4 |-> o[i] + (IF Rank(p, i) < k THEN s ELSE 0)]],
    parts |-> <<[i |-> p[1], j |-> 0, c |-> o[p[1]] + s, s |-> -1], [i |-> p[4], j |-> 0, c |-> o[p[4]], s |-> 1]>>
              \o [k \in 1..3 |-> IF p[k] < p[k + 1]
                     THEN [i |-> p[k], j |-> p[k + 1], c |-> o[p[k]] - o[p[k + 1]], s |-> 1]
                     ELSE [i |-> p[k + 1], j |-> p[k], c |-> o[p[k + 1]] - o[p[k]], s |-> -1]]]
Box(name, lo, hi) == [name |-> name, kind |-> "box", convex |-> TRUE,
    verts |-> SetToSeq({x \in [1..4 -> 0..N] : \A i \in 1..4 : x[i] = lo[i] \/ x[i] = hi[i]}),
    parts |-> [k \in 1..8 |-> IF k <= 4 THEN [i |-> k, j |-> 0, c |-> lo[k], s |-> 1]
                                        ELSE [i |-> k - 4, j |-> 0, c |-> hi[k - 4], s |-> -1]]]
ShapeSeq == <<
  Simplex("s1234", <<0, 0, 0, 0>>, <<1, 2, 3, 4>>, N),
  Simplex("s3142", <<0, 0, 0, 0>>, <<3, 1, 4, 2>>, N),
  Simplex("s4321", <<0, 0, 0, 0>>, <<4, 3, 2, 1>>, N),
  Simplex("s2413", <<1, 0, 0, 1>>, <<2, 4, 1, 3>>, N - 1),
  Simplex("s1432", <<0, 1, 0, 1>>, <<1, 4, 3, 2>>, N - 1),
  Simplex("s2143", <<0, 1, N - 2, 0>>, <<2, 1, 4, 3>>, 2),
  Box("b4", <<0, 0, 0, 0>>, <<N, N, N, N>>),
  Box("bthin", <<0, 1, 0, 1>>, <<N, 2, N, 2>>),
  Box("bmix", <<0, 0, 1, N - 2>>, <<2, N, 2, N>>),
  Box("bunit", <<1, 1, 1, 1>>, <<2, 2, 2, 2>>)
>>
ShapeIds == 1..Len(ShapeSeq)
ShapeT == [s \in ShapeIds |-> ShapeSeq[s]]
ContentT == [s \in ShapeIds |-> Region(ShapeT[s].parts)]
SimplexVol(s) == Pow(s, 4)      \* number of atoms of a scaled alcove
ShapesOK == \A s \in ShapeIds :
    /\ ContentT[s] # {}
    /\ Extreme(ContentT[s]) = Range(ShapeT[s].verts)
=============================================================================
