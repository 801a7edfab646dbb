------------------------------ MODULE Shapes2 ------------------------------
(* generated by tools/mkshapes.py *)
EXTENDS Lattice

ShapeSeq == <<
  [name |-> "box22", kind |-> "box", convex |-> TRUE,
   loops |-> <<<<<<0, 0>>, <<2, 0>>, <<2, 2>>, <<0, 2>>>>>>,
   parts |-> <<<<[i |-> 1, j |-> 0, c |-> 0, s |-> 1], [i |-> 1, j |-> 0, c |-> 2, s |-> -1], [i |-> 2, j |-> 0, c |-> 0, s |-> 1], [i |-> 2, j |-> 0, c |-> 2, s |-> -1]>>>>,
   minus |-> <<>>],
  [name |-> "box13", kind |-> "box", convex |-> TRUE,
   loops |-> <<<<<<1, 0>>, <<2, 0>>, <<2, 3>>, <<1, 3>>>>>>,
   parts |-> <<<<[i |-> 1, j |-> 0, c |-> 1, s |-> 1], [i |-> 1, j |-> 0, c |-> 2, s |-> -1], [i |-> 2, j |-> 0, c |-> 0, s |-> 1], [i |-> 2, j |-> 0, c |-> 3, s |-> -1]>>>>,
   minus |-> <<>>],
  [name |-> "tri", kind |-> "poly", convex |-> TRUE,
   loops |-> <<<<<<0, 0>>, <<3, 0>>, <<3, 3>>>>>>,
   parts |-> <<<<[i |-> 1, j |-> 0, c |-> 0, s |-> 1], [i |-> 1, j |-> 0, c |-> 3, s |-> -1], [i |-> 2, j |-> 0, c |-> 0, s |-> 1], [i |-> 2, j |-> 0, c |-> 3, s |-> -1], [i |-> 1, j |-> 2, c |-> 0, s |-> 1]>>>>,
   minus |-> <<>>],
  [name |-> "tri2", kind |-> "poly", convex |-> TRUE,
   loops |-> <<<<<<1, 0>>, <<3, 2>>, <<1, 2>>>>>>,
   parts |-> <<<<[i |-> 1, j |-> 0, c |-> 1, s |-> 1], [i |-> 1, j |-> 0, c |-> 3, s |-> -1], [i |-> 2, j |-> 0, c |-> 0, s |-> 1], [i |-> 2, j |-> 0, c |-> 2, s |-> -1], [i |-> 1, j |-> 2, c |-> 1, s |-> -1]>>>>,
   minus |-> <<>>],
  [name |-> "hex", kind |-> "poly", convex |-> TRUE,
   loops |-> <<<<<<0, 0>>, <<1, 0>>, <<2, 1>>, <<2, 2>>, <<1, 2>>, <<0, 1>>>>>>,
   parts |-> <<<<[i |-> 1, j |-> 0, c |-> 0, s |-> 1], [i |-> 1, j |-> 0, c |-> 2, s |-> -1], [i |-> 2, j |-> 0, c |-> 0, s |-> 1], [i |-> 2, j |-> 0, c |-> 2, s |-> -1], [i |-> 1, j |-> 2, c |-> -1, s |-> 1], [i |-> 1, j |-> 2, c |-> 1, s |-> -1]>>>>,
   minus |-> <<>>],
  [name |-> "para", kind |-> "poly", convex |-> TRUE,
   loops |-> <<<<<<0, 1>>, <<0, 0>>, <<1, 0>>, <<3, 2>>, <<3, 3>>, <<2, 3>>>>>>,
   parts |-> <<<<[i |-> 1, j |-> 0, c |-> 0, s |-> 1], [i |-> 1, j |-> 0, c |-> 3, s |-> -1], [i |-> 2, j |-> 0, c |-> 0, s |-> 1], [i |-> 2, j |-> 0, c |-> 3, s |-> -1], [i |-> 1, j |-> 2, c |-> -1, s |-> 1], [i |-> 1, j |-> 2, c |-> 1, s |-> -1]>>>>,
   minus |-> <<>>],
  [name |-> "trap", kind |-> "poly", convex |-> TRUE,
   loops |-> <<<<<<1, 1>>, <<3, 1>>, <<3, 2>>, <<2, 2>>>>>>,
   parts |-> <<<<[i |-> 1, j |-> 0, c |-> 0, s |-> 1], [i |-> 1, j |-> 0, c |-> 3, s |-> -1], [i |-> 2, j |-> 0, c |-> 1, s |-> 1], [i |-> 2, j |-> 0, c |-> 2, s |-> -1], [i |-> 1, j |-> 2, c |-> 0, s |-> 1]>>>>,
   minus |-> <<>>],
  [name |-> "redund", kind |-> "poly", convex |-> TRUE,
   loops |-> <<<<<<0, 0>>, <<1, 0>>, <<2, 0>>, <<2, 2>>, <<1, 2>>, <<0, 2>>, <<0, 1>>>>>>,
   parts |-> <<<<[i |-> 1, j |-> 0, c |-> 0, s |-> 1], [i |-> 1, j |-> 0, c |-> 2, s |-> -1], [i |-> 2, j |-> 0, c |-> 0, s |-> 1], [i |-> 2, j |-> 0, c |-> 2, s |-> -1]>>>>,
   minus |-> <<>>],
  [name |-> "coinc", kind |-> "poly", convex |-> TRUE,
   loops |-> <<<<<<0, 0>>, <<2, 0>>, <<2, 0>>, <<2, 2>>, <<0, 2>>, <<0, 2>>, <<0, 2>>>>>>,
   parts |-> <<<<[i |-> 1, j |-> 0, c |-> 0, s |-> 1], [i |-> 1, j |-> 0, c |-> 2, s |-> -1], [i |-> 2, j |-> 0, c |-> 0, s |-> 1], [i |-> 2, j |-> 0, c |-> 2, s |-> -1]>>>>,
   minus |-> <<>>],
  [name |-> "L", kind |-> "poly", convex |-> FALSE,
   loops |-> <<<<<<0, 0>>, <<2, 0>>, <<2, 1>>, <<1, 1>>, <<1, 2>>, <<0, 2>>>>>>,
   parts |-> <<<<[i |-> 1, j |-> 0, c |-> 0, s |-> 1], [i |-> 1, j |-> 0, c |-> 2, s |-> -1], [i |-> 2, j |-> 0, c |-> 0, s |-> 1], [i |-> 2, j |-> 0, c |-> 1, s |-> -1]>>, <<[i |-> 1, j |-> 0, c |-> 0, s |-> 1], [i |-> 1, j |-> 0, c |-> 1, s |-> -1], [i |-> 2, j |-> 0, c |-> 0, s |-> 1], [i |-> 2, j |-> 0, c |-> 2, s |-> -1]>>>>,
   minus |-> <<>>],
  [name |-> "U", kind |-> "poly", convex |-> FALSE,
   loops |-> <<<<<<0, 0>>, <<3, 0>>, <<3, 2>>, <<2, 2>>, <<2, 1>>, <<1, 1>>, <<1, 2>>, <<0, 2>>>>>>,
   parts |-> <<<<[i |-> 1, j |-> 0, c |-> 0, s |-> 1], [i |-> 1, j |-> 0, c |-> 3, s |-> -1], [i |-> 2, j |-> 0, c |-> 0, s |-> 1], [i |-> 2, j |-> 0, c |-> 1, s |-> -1]>>, <<[i |-> 1, j |-> 0, c |-> 0, s |-> 1], [i |-> 1, j |-> 0, c |-> 1, s |-> -1], [i |-> 2, j |-> 0, c |-> 0, s |-> 1], [i |-> 2, j |-> 0, c |-> 2, s |-> -1]>>, <<[i |-> 1, j |-> 0, c |-> 2, s |-> 1], [i |-> 1, j |-> 0, c |-> 3, s |-> -1], [i |-> 2, j |-> 0, c |-> 0, s |-> 1], [i |-> 2, j |-> 0, c |-> 2, s |-> -1]>>>>,
   minus |-> <<>>],
  [name |-> "zig", kind |-> "poly", convex |-> FALSE,
   loops |-> <<<<<<0, 0>>, <<3, 0>>, <<3, 3>>, <<2, 2>>, <<2, 1>>, <<1, 1>>>>>>,
   parts |-> <<<<[i |-> 1, j |-> 0, c |-> 0, s |-> 1], [i |-> 1, j |-> 0, c |-> 3, s |-> -1], [i |-> 2, j |-> 0, c |-> 0, s |-> 1], [i |-> 2, j |-> 0, c |-> 1, s |-> -1], [i |-> 1, j |-> 2, c |-> 0, s |-> 1]>>, <<[i |-> 1, j |-> 0, c |-> 2, s |-> 1], [i |-> 1, j |-> 0, c |-> 3, s |-> -1], [i |-> 2, j |-> 0, c |-> 0, s |-> 1], [i |-> 2, j |-> 0, c |-> 3, s |-> -1], [i |-> 1, j |-> 2, c |-> 0, s |-> 1]>>>>,
   minus |-> <<>>],
  [name |-> "comb", kind |-> "poly", convex |-> FALSE,
   loops |-> <<<<<<0, 0>>, <<1, 1>>, <<1, 0>>, <<2, 1>>, <<2, 0>>, <<3, 1>>, <<3, 3>>, <<0, 3>>>>>>,
   parts |-> <<<<[i |-> 1, j |-> 0, c |-> 0, s |-> 1], [i |-> 1, j |-> 0, c |-> 3, s |-> -1], [i |-> 2, j |-> 0, c |-> 1, s |-> 1], [i |-> 2, j |-> 0, c |-> 3, s |-> -1]>>, <<[i |-> 1, j |-> 0, c |-> 0, s |-> 1], [i |-> 1, j |-> 0, c |-> 1, s |-> -1], [i |-> 2, j |-> 0, c |-> 0, s |-> 1], [i |-> 2, j |-> 0, c |-> 1, s |-> -1], [i |-> 1, j |-> 2, c |-> 0, s |-> -1]>>, <<[i |-> 1, j |-> 0, c |-> 1, s |-> 1], [i |-> 1, j |-> 0, c |-> 2, s |-> -1], [i |-> 2, j |-> 0, c |-> 0, s |-> 1], [i |-> 2, j |-> 0, c |-> 1, s |-> -1], [i |-> 1, j |-> 2, c |-> 1, s |-> -1]>>, <<[i |-> 1, j |-> 0, c |-> 2, s |-> 1], [i |-> 1, j |-> 0, c |-> 3, s |-> -1], [i |-> 2, j |-> 0, c |-> 0, s |-> 1], [i |-> 2, j |-> 0, c |-> 1, s |-> -1], [i |-> 1, j |-> 2, c |-> 2, s |-> -1]>>>>,
   minus |-> <<>>],
  [name |-> "annulus", kind |-> "set", convex |-> FALSE,
   loops |-> <<<<<<0, 0>>, <<3, 0>>, <<3, 3>>, <<0, 3>>>>, <<<<1, 1>>, <<1, 2>>, <<2, 2>>, <<2, 1>>>>>>,
   parts |-> <<<<[i |-> 1, j |-> 0, c |-> 0, s |-> 1], [i |-> 1, j |-> 0, c |-> 3, s |-> -1], [i |-> 2, j |-> 0, c |-> 0, s |-> 1], [i |-> 2, j |-> 0, c |-> 3, s |-> -1]>>>>,
   minus |-> <<<<[i |-> 1, j |-> 0, c |-> 1, s |-> 1], [i |-> 1, j |-> 0, c |-> 2, s |-> -1], [i |-> 2, j |-> 0, c |-> 1, s |-> 1], [i |-> 2, j |-> 0, c |-> 2, s |-> -1]>>>>],
  [name |-> "two", kind |-> "set", convex |-> FALSE,
   loops |-> <<<<<<0, 0>>, <<1, 0>>, <<1, 2>>, <<0, 2>>>>, <<<<2, 1>>, <<3, 2>>, <<3, 3>>, <<2, 3>>>>>>,
   parts |-> <<<<[i |-> 1, j |-> 0, c |-> 0, s |-> 1], [i |-> 1, j |-> 0, c |-> 1, s |-> -1], [i |-> 2, j |-> 0, c |-> 0, s |-> 1], [i |-> 2, j |-> 0, c |-> 2, s |-> -1]>>, <<[i |-> 1, j |-> 0, c |-> 2, s |-> 1], [i |-> 1, j |-> 0, c |-> 3, s |-> -1], [i |-> 2, j |-> 0, c |-> 1, s |-> 1], [i |-> 2, j |-> 0, c |-> 3, s |-> -1], [i |-> 1, j |-> 2, c |-> 1, s |-> -1]>>>>,
   minus |-> <<>>]
>>

ShapeIds == 1..Len(ShapeSeq)
ShapeT == [s \in ShapeIds |-> ShapeSeq[s]]
Content(s) == UNION {Region(s.parts[k]) : k \in DOMAIN s.parts} \ UNION {Region(s.minus[k]) : k \in DOMAIN s.minus}
ContentT == [s \in ShapeIds |-> Content(ShapeT[s])]

Cross2(a, b) == a[1] * b[2] - a[2] * b[1]
LoopArea(l) == Sum(DOMAIN l, LAMBDA k : Cross2(l[k], l[(k % Len(l)) + 1]))
TwoArea(s) == Sum(DOMAIN s.loops, LAMBDA k : LoopArea(s.loops[k]))
ShapesOK == \A s \in ShapeIds : TwoArea(ShapeT[s]) = Cardinality(ContentT[s]) /\ ContentT[s] # {}
=============================================================================
