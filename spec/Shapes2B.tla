------------------------------ MODULE Shapes2B ------------------------------
(* generated by tools/mkshapes.py *)
EXTENDS Lattice

ShapeSeq == <<
  [name |-> "dense8", kind |-> "poly", convex |-> TRUE,
   loops |-> <<<<<<0, 0>>, <<1, 0>>, <<2, 0>>, <<3, 0>>, <<4, 0>>, <<5, 0>>, <<6, 0>>, <<7, 0>>, <<8, 0>>, <<8, 1>>, <<8, 2>>, <<8, 3>>, <<8, 4>>, <<8, 5>>, <<8, 6>>, <<8, 7>>, <<8, 8>>, <<7, 8>>, <<6, 8>>, <<5, 8>>, <<4, 8>>, <<3, 8>>, <<2, 8>>, <<1, 8>>, <<0, 8>>, <<0, 7>>, <<0, 6>>, <<0, 5>>, <<0, 4>>, <<0, 3>>, <<0, 2>>, <<0, 1>>>>>>,
   parts |-> <<<<[i |-> 1, j |-> 0, c |-> 0, s |-> 1], [i |-> 1, j |-> 0, c |-> 8, s |-> -1], [i |-> 2, j |-> 0, c |-> 0, s |-> 1], [i |-> 2, j |-> 0, c |-> 8, s |-> -1]>>>>,
   minus |-> <<>>],
  [name |-> "comb8", kind |-> "poly", convex |-> FALSE,
   loops |-> <<<<<<0, 0>>, <<7, 0>>, <<7, 8>>, <<6, 8>>, <<6, 1>>, <<5, 1>>, <<5, 8>>, <<4, 8>>, <<4, 1>>, <<3, 1>>, <<3, 8>>, <<2, 8>>, <<2, 1>>, <<1, 1>>, <<1, 8>>, <<0, 8>>>>>>,
   parts |-> <<<<[i |-> 1, j |-> 0, c |-> 0, s |-> 1], [i |-> 1, j |-> 0, c |-> 7, s |-> -1], [i |-> 2, j |-> 0, c |-> 0, s |-> 1], [i |-> 2, j |-> 0, c |-> 1, s |-> -1]>>, <<[i |-> 1, j |-> 0, c |-> 0, s |-> 1], [i |-> 1, j |-> 0, c |-> 1, s |-> -1], [i |-> 2, j |-> 0, c |-> 0, s |-> 1], [i |-> 2, j |-> 0, c |-> 8, s |-> -1]>>, <<[i |-> 1, j |-> 0, c |-> 2, s |-> 1], [i |-> 1, j |-> 0, c |-> 3, s |-> -1], [i |-> 2, j |-> 0, c |-> 0, s |-> 1], [i |-> 2, j |-> 0, c |-> 8, s |-> -1]>>, <<[i |-> 1, j |-> 0, c |-> 4, s |-> 1], [i |-> 1, j |-> 0, c |-> 5, s |-> -1], [i |-> 2, j |-> 0, c |-> 0, s |-> 1], [i |-> 2, j |-> 0, c |-> 8, s |-> -1]>>, <<[i |-> 1, j |-> 0, c |-> 6, s |-> 1], [i |-> 1, j |-> 0, c |-> 7, s |-> -1], [i |-> 2, j |-> 0, c |-> 0, s |-> 1], [i |-> 2, j |-> 0, c |-> 8, s |-> -1]>>>>,
   minus |-> <<>>],
  [name |-> "dcomb8", kind |-> "poly", convex |-> FALSE,
   loops |-> <<<<<<0, 0>>, <<1, 0>>, <<2, 0>>, <<3, 0>>, <<4, 0>>, <<5, 0>>, <<6, 0>>, <<7, 0>>, <<7, 1>>, <<7, 2>>, <<7, 3>>, <<7, 4>>, <<7, 5>>, <<7, 6>>, <<7, 7>>, <<7, 8>>, <<6, 8>>, <<6, 7>>, <<6, 6>>, <<6, 5>>, <<6, 4>>, <<6, 3>>, <<6, 2>>, <<6, 1>>, <<5, 1>>, <<5, 2>>, <<5, 3>>, <<5, 4>>, <<5, 5>>, <<5, 6>>, <<5, 7>>, <<5, 8>>, <<4, 8>>, <<4, 7>>, <<4, 6>>, <<4, 5>>, <<4, 4>>, <<4, 3>>, <<4, 2>>, <<4, 1>>, <<3, 1>>, <<3, 2>>, <<3, 3>>, <<3, 4>>, <<3, 5>>, <<3, 6>>, <<3, 7>>, <<3, 8>>, <<2, 8>>, <<2, 7>>, <<2, 6>>, <<2, 5>>, <<2, 4>>, <<2, 3>>, <<2, 2>>, <<2, 1>>, <<1, 1>>, <<1, 2>>, <<1, 3>>, <<1, 4>>, <<1, 5>>, <<1, 6>>, <<1, 7>>, <<1, 8>>, <<0, 8>>, <<0, 7>>, <<0, 6>>, <<0, 5>>, <<0, 4>>, <<0, 3>>, <<0, 2>>, <<0, 1>>>>>>,
   parts |-> <<<<[i |-> 1, j |-> 0, c |-> 0, s |-> 1], [i |-> 1, j |-> 0, c |-> 7, s |-> -1], [i |-> 2, j |-> 0, c |-> 0, s |-> 1], [i |-> 2, j |-> 0, c |-> 1, s |-> -1]>>, <<[i |-> 1, j |-> 0, c |-> 0, s |-> 1], [i |-> 1, j |-> 0, c |-> 1, s |-> -1], [i |-> 2, j |-> 0, c |-> 0, s |-> 1], [i |-> 2, j |-> 0, c |-> 8, s |-> -1]>>, <<[i |-> 1, j |-> 0, c |-> 2, s |-> 1], [i |-> 1, j |-> 0, c |-> 3, s |-> -1], [i |-> 2, j |-> 0, c |-> 0, s |-> 1], [i |-> 2, j |-> 0, c |-> 8, s |-> -1]>>, <<[i |-> 1, j |-> 0, c |-> 4, s |-> 1], [i |-> 1, j |-> 0, c |-> 5, s |-> -1], [i |-> 2, j |-> 0, c |-> 0, s |-> 1], [i |-> 2, j |-> 0, c |-> 8, s |-> -1]>>, <<[i |-> 1, j |-> 0, c |-> 6, s |-> 1], [i |-> 1, j |-> 0, c |-> 7, s |-> -1], [i |-> 2, j |-> 0, c |-> 0, s |-> 1], [i |-> 2, j |-> 0, c |-> 8, s |-> -1]>>>>,
   minus |-> <<>>],
  [name |-> "stair8", kind |-> "poly", convex |-> FALSE,
   loops |-> <<<<<<0, 0>>, <<8, 0>>, <<8, 1>>, <<7, 1>>, <<7, 2>>, <<6, 2>>, <<6, 3>>, <<5, 3>>, <<5, 4>>, <<4, 4>>, <<4, 5>>, <<3, 5>>, <<3, 6>>, <<2, 6>>, <<2, 7>>, <<1, 7>>, <<1, 8>>, <<0, 8>>>>>>,
   parts |-> <<<<[i |-> 1, j |-> 0, c |-> 0, s |-> 1], [i |-> 1, j |-> 0, c |-> 8, s |-> -1], [i |-> 2, j |-> 0, c |-> 0, s |-> 1], [i |-> 2, j |-> 0, c |-> 1, s |-> -1]>>, <<[i |-> 1, j |-> 0, c |-> 0, s |-> 1], [i |-> 1, j |-> 0, c |-> 7, s |-> -1], [i |-> 2, j |-> 0, c |-> 1, s |-> 1], [i |-> 2, j |-> 0, c |-> 2, s |-> -1]>>, <<[i |-> 1, j |-> 0, c |-> 0, s |-> 1], [i |-> 1, j |-> 0, c |-> 6, s |-> -1], [i |-> 2, j |-> 0, c |-> 2, s |-> 1], [i |-> 2, j |-> 0, c |-> 3, s |-> -1]>>, <<[i |-> 1, j |-> 0, c |-> 0, s |-> 1], [i |-> 1, j |-> 0, c |-> 5, s |-> -1], [i |-> 2, j |-> 0, c |-> 3, s |-> 1], [i |-> 2, j |-> 0, c |-> 4, s |-> -1]>>, <<[i |-> 1, j |-> 0, c |-> 0, s |-> 1], [i |-> 1, j |-> 0, c |-> 4, s |-> -1], [i |-> 2, j |-> 0, c |-> 4, s |-> 1], [i |-> 2, j |-> 0, c |-> 5, s |-> -1]>>, <<[i |-> 1, j |-> 0, c |-> 0, s |-> 1], [i |-> 1, j |-> 0, c |-> 3, s |-> -1], [i |-> 2, j |-> 0, c |-> 5, s |-> 1], [i |-> 2, j |-> 0, c |-> 6, s |-> -1]>>, <<[i |-> 1, j |-> 0, c |-> 0, s |-> 1], [i |-> 1, j |-> 0, c |-> 2, s |-> -1], [i |-> 2, j |-> 0, c |-> 6, s |-> 1], [i |-> 2, j |-> 0, c |-> 7, s |-> -1]>>, <<[i |-> 1, j |-> 0, c |-> 0, s |-> 1], [i |-> 1, j |-> 0, c |-> 1, s |-> -1], [i |-> 2, j |-> 0, c |-> 7, s |-> 1], [i |-> 2, j |-> 0, c |-> 8, s |-> -1]>>>>,
   minus |-> <<>>],
  [name |-> "saw8", kind |-> "poly", convex |-> FALSE,
   loops |-> <<<<<<0, 0>>, <<1, 1>>, <<1, 0>>, <<2, 1>>, <<2, 0>>, <<3, 1>>, <<3, 0>>, <<4, 1>>, <<4, 0>>, <<5, 1>>, <<5, 0>>, <<6, 1>>, <<6, 0>>, <<7, 1>>, <<7, 0>>, <<8, 1>>, <<8, 8>>, <<0, 8>>>>>>,
   parts |-> <<<<[i |-> 1, j |-> 0, c |-> 0, s |-> 1], [i |-> 1, j |-> 0, c |-> 8, s |-> -1], [i |-> 2, j |-> 0, c |-> 1, s |-> 1], [i |-> 2, j |-> 0, c |-> 8, s |-> -1]>>, <<[i |-> 1, j |-> 0, c |-> 0, s |-> 1], [i |-> 1, j |-> 0, c |-> 1, s |-> -1], [i |-> 2, j |-> 0, c |-> 0, s |-> 1], [i |-> 2, j |-> 0, c |-> 1, s |-> -1], [i |-> 1, j |-> 2, c |-> 0, s |-> -1]>>, <<[i |-> 1, j |-> 0, c |-> 1, s |-> 1], [i |-> 1, j |-> 0, c |-> 2, s |-> -1], [i |-> 2, j |-> 0, c |-> 0, s |-> 1], [i |-> 2, j |-> 0, c |-> 1, s |-> -1], [i |-> 1, j |-> 2, c |-> 1, s |-> -1]>>, <<[i |-> 1, j |-> 0, c |-> 2, s |-> 1], [i |-> 1, j |-> 0, c |-> 3, s |-> -1], [i |-> 2, j |-> 0, c |-> 0, s |-> 1], [i |-> 2, j |-> 0, c |-> 1, s |-> -1], [i |-> 1, j |-> 2, c |-> 2, s |-> -1]>>, <<[i |-> 1, j |-> 0, c |-> 3, s |-> 1], [i |-> 1, j |-> 0, c |-> 4, s |-> -1], [i |-> 2, j |-> 0, c |-> 0, s |-> 1], [i |-> 2, j |-> 0, c |-> 1, s |-> -1], [i |-> 1, j |-> 2, c |-> 3, s |-> -1]>>, <<[i |-> 1, j |-> 0, c |-> 4, s |-> 1], [i |-> 1, j |-> 0, c |-> 5, s |-> -1], [i |-> 2, j |-> 0, c |-> 0, s |-> 1], [i |-> 2, j |-> 0, c |-> 1, s |-> -1], [i |-> 1, j |-> 2, c |-> 4, s |-> -1]>>, <<[i |-> 1, j |-> 0, c |-> 5, s |-> 1], [i |-> 1, j |-> 0, c |-> 6, s |-> -1], [i |-> 2, j |-> 0, c |-> 0, s |-> 1], [i |-> 2, j |-> 0, c |-> 1, s |-> -1], [i |-> 1, j |-> 2, c |-> 5, s |-> -1]>>, <<[i |-> 1, j |-> 0, c |-> 6, s |-> 1], [i |-> 1, j |-> 0, c |-> 7, s |-> -1], [i |-> 2, j |-> 0, c |-> 0, s |-> 1], [i |-> 2, j |-> 0, c |-> 1, s |-> -1], [i |-> 1, j |-> 2, c |-> 6, s |-> -1]>>, <<[i |-> 1, j |-> 0, c |-> 7, s |-> 1], [i |-> 1, j |-> 0, c |-> 8, s |-> -1], [i |-> 2, j |-> 0, c |-> 0, s |-> 1], [i |-> 2, j |-> 0, c |-> 1, s |-> -1], [i |-> 1, j |-> 2, c |-> 7, s |-> -1]>>>>,
   minus |-> <<>>],
  [name |-> "squares", kind |-> "set", convex |-> FALSE,
   loops |-> <<<<<<0, 0>>, <<1, 0>>, <<1, 1>>, <<0, 1>>>>, <<<<0, 2>>, <<1, 2>>, <<1, 3>>, <<0, 3>>>>, <<<<0, 4>>, <<1, 4>>, <<1, 5>>, <<0, 5>>>>, <<<<0, 6>>, <<1, 6>>, <<1, 7>>, <<0, 7>>>>, <<<<2, 0>>, <<3, 0>>, <<3, 1>>, <<2, 1>>>>, <<<<2, 2>>, <<3, 2>>, <<3, 3>>, <<2, 3>>>>, <<<<2, 4>>, <<3, 4>>, <<3, 5>>, <<2, 5>>>>, <<<<2, 6>>, <<3, 6>>, <<3, 7>>, <<2, 7>>>>, <<<<4, 0>>, <<5, 0>>, <<5, 1>>, <<4, 1>>>>, <<<<4, 2>>, <<5, 2>>, <<5, 3>>, <<4, 3>>>>, <<<<4, 4>>, <<5, 4>>, <<5, 5>>, <<4, 5>>>>, <<<<4, 6>>, <<5, 6>>, <<5, 7>>, <<4, 7>>>>, <<<<6, 0>>, <<7, 0>>, <<7, 1>>, <<6, 1>>>>, <<<<6, 2>>, <<7, 2>>, <<7, 3>>, <<6, 3>>>>, <<<<6, 4>>, <<7, 4>>, <<7, 5>>, <<6, 5>>>>, <<<<6, 6>>, <<7, 6>>, <<7, 7>>, <<6, 7>>>>>>,
   parts |-> <<<<[i |-> 1, j |-> 0, c |-> 0, s |-> 1], [i |-> 1, j |-> 0, c |-> 1, s |-> -1], [i |-> 2, j |-> 0, c |-> 0, s |-> 1], [i |-> 2, j |-> 0, c |-> 1, s |-> -1]>>, <<[i |-> 1, j |-> 0, c |-> 0, s |-> 1], [i |-> 1, j |-> 0, c |-> 1, s |-> -1], [i |-> 2, j |-> 0, c |-> 2, s |-> 1], [i |-> 2, j |-> 0, c |-> 3, s |-> -1]>>, <<[i |-> 1, j |-> 0, c |-> 0, s |-> 1], [i |-> 1, j |-> 0, c |-> 1, s |-> -1], [i |-> 2, j |-> 0, c |-> 4, s |-> 1], [i |-> 2, j |-> 0, c |-> 5, s |-> -1]>>, <<[i |-> 1, j |-> 0, c |-> 0, s |-> 1], [i |-> 1, j |-> 0, c |-> 1, s |-> -1], [i |-> 2, j |-> 0, c |-> 6, s |-> 1], [i |-> 2, j |-> 0, c |-> 7, s |-> -1]>>, <<[i |-> 1, j |-> 0, c |-> 2, s |-> 1], [i |-> 1, j |-> 0, c |-> 3, s |-> -1], [i |-> 2, j |-> 0, c |-> 0, s |-> 1], [i |-> 2, j |-> 0, c |-> 1, s |-> -1]>>, <<[i |-> 1, j |-> 0, c |-> 2, s |-> 1], [i |-> 1, j |-> 0, c |-> 3, s |-> -1], [i |-> 2, j |-> 0, c |-> 2, s |-> 1], [i |-> 2, j |-> 0, c |-> 3, s |-> -1]>>, <<[i |-> 1, j |-> 0, c |-> 2, s |-> 1], [i |-> 1, j |-> 0, c |-> 3, s |-> -1], [i |-> 2, j |-> 0, c |-> 4, s |-> 1], [i |-> 2, j |-> 0, c |-> 5, s |-> -1]>>, <<[i |-> 1, j |-> 0, c |-> 2, s |-> 1], [i |-> 1, j |-> 0, c |-> 3, s |-> -1], [i |-> 2, j |-> 0, c |-> 6, s |-> 1], [i |-> 2, j |-> 0, c |-> 7, s |-> -1]>>, <<[i |-> 1, j |-> 0, c |-> 4, s |-> 1], [i |-> 1, j |-> 0, c |-> 5, s |-> -1], [i |-> 2, j |-> 0, c |-> 0, s |-> 1], [i |-> 2, j |-> 0, c |-> 1, s |-> -1]>>, <<[i |-> 1, j |-> 0, c |-> 4, s |-> 1], [i |-> 1, j |-> 0, c |-> 5, s |-> -1], [i |-> 2, j |-> 0, c |-> 2, s |-> 1], [i |-> 2, j |-> 0, c |-> 3, s |-> -1]>>, <<[i |-> 1, j |-> 0, c |-> 4, s |-> 1], [i |-> 1, j |-> 0, c |-> 5, s |-> -1], [i |-> 2, j |-> 0, c |-> 4, s |-> 1], [i |-> 2, j |-> 0, c |-> 5, s |-> -1]>>, <<[i |-> 1, j |-> 0, c |-> 4, s |-> 1], [i |-> 1, j |-> 0, c |-> 5, s |-> -1], [i |-> 2, j |-> 0, c |-> 6, s |-> 1], [i |-> 2, j |-> 0, c |-> 7, s |-> -1]>>, <<[i |-> 1, j |-> 0, c |-> 6, s |-> 1], [i |-> 1, j |-> 0, c |-> 7, s |-> -1], [i |-> 2, j |-> 0, c |-> 0, s |-> 1], [i |-> 2, j |-> 0, c |-> 1, s |-> -1]>>, <<[i |-> 1, j |-> 0, c |-> 6, s |-> 1], [i |-> 1, j |-> 0, c |-> 7, s |-> -1], [i |-> 2, j |-> 0, c |-> 2, s |-> 1], [i |-> 2, j |-> 0, c |-> 3, s |-> -1]>>, <<[i |-> 1, j |-> 0, c |-> 6, s |-> 1], [i |-> 1, j |-> 0, c |-> 7, s |-> -1], [i |-> 2, j |-> 0, c |-> 4, s |-> 1], [i |-> 2, j |-> 0, c |-> 5, s |-> -1]>>, <<[i |-> 1, j |-> 0, c |-> 6, s |-> 1], [i |-> 1, j |-> 0, c |-> 7, s |-> -1], [i |-> 2, j |-> 0, c |-> 6, s |-> 1], [i |-> 2, j |-> 0, c |-> 7, s |-> -1]>>>>,
   minus |-> <<>>],
  [name |-> "sieve", kind |-> "set", convex |-> FALSE,
   loops |-> <<<<<<0, 0>>, <<8, 0>>, <<8, 8>>, <<0, 8>>>>, <<<<1, 1>>, <<1, 2>>, <<2, 2>>, <<2, 1>>>>, <<<<1, 3>>, <<1, 4>>, <<2, 4>>, <<2, 3>>>>, <<<<1, 5>>, <<1, 6>>, <<2, 6>>, <<2, 5>>>>, <<<<3, 1>>, <<3, 2>>, <<4, 2>>, <<4, 1>>>>, <<<<3, 3>>, <<3, 4>>, <<4, 4>>, <<4, 3>>>>, <<<<3, 5>>, <<3, 6>>, <<4, 6>>, <<4, 5>>>>, <<<<5, 1>>, <<5, 2>>, <<6, 2>>, <<6, 1>>>>, <<<<5, 3>>, <<5, 4>>, <<6, 4>>, <<6, 3>>>>, <<<<5, 5>>, <<5, 6>>, <<6, 6>>, <<6, 5>>>>>>,
   parts |-> <<<<[i |-> 1, j |-> 0, c |-> 0, s |-> 1], [i |-> 1, j |-> 0, c |-> 8, s |-> -1], [i |-> 2, j |-> 0, c |-> 0, s |-> 1], [i |-> 2, j |-> 0, c |-> 8, s |-> -1]>>>>,
   minus |-> <<<<[i |-> 1, j |-> 0, c |-> 1, s |-> 1], [i |-> 1, j |-> 0, c |-> 2, s |-> -1], [i |-> 2, j |-> 0, c |-> 1, s |-> 1], [i |-> 2, j |-> 0, c |-> 2, s |-> -1]>>, <<[i |-> 1, j |-> 0, c |-> 1, s |-> 1], [i |-> 1, j |-> 0, c |-> 2, s |-> -1], [i |-> 2, j |-> 0, c |-> 3, s |-> 1], [i |-> 2, j |-> 0, c |-> 4, s |-> -1]>>, <<[i |-> 1, j |-> 0, c |-> 1, s |-> 1], [i |-> 1, j |-> 0, c |-> 2, s |-> -1], [i |-> 2, j |-> 0, c |-> 5, s |-> 1], [i |-> 2, j |-> 0, c |-> 6, s |-> -1]>>, <<[i |-> 1, j |-> 0, c |-> 3, s |-> 1], [i |-> 1, j |-> 0, c |-> 4, s |-> -1], [i |-> 2, j |-> 0, c |-> 1, s |-> 1], [i |-> 2, j |-> 0, c |-> 2, s |-> -1]>>, <<[i |-> 1, j |-> 0, c |-> 3, s |-> 1], [i |-> 1, j |-> 0, c |-> 4, s |-> -1], [i |-> 2, j |-> 0, c |-> 3, s |-> 1], [i |-> 2, j |-> 0, c |-> 4, s |-> -1]>>, <<[i |-> 1, j |-> 0, c |-> 3, s |-> 1], [i |-> 1, j |-> 0, c |-> 4, s |-> -1], [i |-> 2, j |-> 0, c |-> 5, s |-> 1], [i |-> 2, j |-> 0, c |-> 6, s |-> -1]>>, <<[i |-> 1, j |-> 0, c |-> 5, s |-> 1], [i |-> 1, j |-> 0, c |-> 6, s |-> -1], [i |-> 2, j |-> 0, c |-> 1, s |-> 1], [i |-> 2, j |-> 0, c |-> 2, s |-> -1]>>, <<[i |-> 1, j |-> 0, c |-> 5, s |-> 1], [i |-> 1, j |-> 0, c |-> 6, s |-> -1], [i |-> 2, j |-> 0, c |-> 3, s |-> 1], [i |-> 2, j |-> 0, c |-> 4, s |-> -1]>>, <<[i |-> 1, j |-> 0, c |-> 5, s |-> 1], [i |-> 1, j |-> 0, c |-> 6, s |-> -1], [i |-> 2, j |-> 0, c |-> 5, s |-> 1], [i |-> 2, j |-> 0, c |-> 6, s |-> -1]>>>>]
>>

ShapeIds == 1..Len(ShapeSeq)
ShapeT == [s \in ShapeIds |-> ShapeSeq[s]]
Content(s) == UNION {Region(s.parts[k]) : k \in DOMAIN s.parts} \ UNION {Region(s.minus[k]) : k \in DOMAIN s.minus}
ContentT == [s \in ShapeIds |-> Content(ShapeT[s])]

Cross2(a, b) == a[1] * b[2] - a[2] * b[1]
LoopArea(l) == Sum(DOMAIN l, LAMBDA k : Cross2(l[k], l[(k % Len(l)) + 1]))
TwoArea(s) == Sum(DOMAIN s.loops, LAMBDA k : LoopArea(s.loops[k]))
ShapesOK == \A s \in ShapeIds : TwoArea(ShapeT[s]) = Cardinality(ContentT[s]) /\ ContentT[s] # {}
=============================================================================
