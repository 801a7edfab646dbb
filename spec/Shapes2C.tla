------------------------------ MODULE Shapes2C ------------------------------
(* generated by tools/mkshapes.py *)
EXTENDS Lattice

ShapeSeq == <<
  [name |-> "squares48", kind |-> "set", convex |-> FALSE,
   loops |-> <<<<<<0, 0>>, <<1, 0>>, <<1, 1>>, <<0, 1>>>>, <<<<0, 2>>, <<1, 2>>, <<1, 3>>, <<0, 3>>>>, <<<<0, 4>>, <<1, 4>>, <<1, 5>>, <<0, 5>>>>, <<<<0, 6>>, <<1, 6>>, <<1, 7>>, <<0, 7>>>>, <<<<0, 8>>, <<1, 8>>, <<1, 9>>, <<0, 9>>>>, <<<<0, 10>>, <<1, 10>>, <<1, 11>>, <<0, 11>>>>, <<<<0, 12>>, <<1, 12>>, <<1, 13>>, <<0, 13>>>>, <<<<2, 2>>, <<3, 2>>, <<3, 3>>, <<2, 3>>>>, <<<<2, 8>>, <<3, 8>>, <<3, 9>>, <<2, 9>>>>, <<<<2, 10>>, <<3, 10>>, <<3, 11>>, <<2, 11>>>>, <<<<2, 12>>, <<3, 12>>, <<3, 13>>, <<2, 13>>>>, <<<<2, 14>>, <<3, 14>>, <<3, 15>>, <<2, 15>>>>, <<<<4, 0>>, <<5, 0>>, <<5, 1>>, <<4, 1>>>>, <<<<4, 2>>, <<5, 2>>, <<5, 3>>, <<4, 3>>>>, <<<<4, 4>>, <<5, 4>>, <<5, 5>>, <<4, 5>>>>, <<<<4, 8>>, <<5, 8>>, <<5, 9>>, <<4, 9>>>>, <<<<4, 10>>, <<5, 10>>, <<5, 11>>, <<4, 11>>>>, <<<<4, 12>>, <<5, 12>>, <<5, 13>>, <<4, 13>>>>, <<<<6, 2>>, <<7, 2>>, <<7, 3>>, <<6, 3>>>>, <<<<6, 4>>, <<7, 4>>, <<7, 5>>, <<6, 5>>>>, <<<<6, 6>>, <<7, 6>>, <<7, 7>>, <<6, 7>>>>, <<<<6, 8>>, <<7, 8>>, <<7, 9>>, <<6, 9>>>>, <<<<6, 10>>, <<7, 10>>, <<7, 11>>, <<6, 11>>>>, <<<<6, 12>>, <<7, 12>>, <<7, 13>>, <<6, 13>>>>, <<<<6, 14>>, <<7, 14>>, <<7, 15>>, <<6, 15>>>>, <<<<8, 0>>, <<9, 0>>, <<9, 1>>, <<8, 1>>>>, <<<<8, 2>>, <<9, 2>>, <<9, 3>>, <<8, 3>>>>, <<<<8, 4>>, <<9, 4>>, <<9, 5>>, <<8, 5>>>>, <<<<8, 6>>, <<9, 6>>, <<9, 7>>, <<8, 7>>>>, <<<<8, 8>>, <<9, 8>>, <<9, 9>>, <<8, 9>>>>, <<<<8, 10>>, <<9, 10>>, <<9, 11>>, <<8, 11>>>>, <<<<8, 12>>, <<9, 12>>, <<9, 13>>, <<8, 13>>>>, <<<<10, 0>>, <<11, 0>>, <<11, 1>>, <<10, 1>>>>, <<<<10, 2>>, <<11, 2>>, <<11, 3>>, <<10, 3>>>>, <<<<10, 4>>, <<11, 4>>, <<11, 5>>, <<10, 5>>>>, <<<<10, 8>>, <<11, 8>>, <<11, 9>>, <<10, 9>>>>, <<<<10, 10>>, <<11, 10>>, <<11, 11>>, <<10, 11>>>>, <<<<10, 12>>, <<11, 12>>, <<11, 13>>, <<10, 13>>>>, <<<<12, 0>>, <<13, 0>>, <<13, 1>>, <<12, 1>>>>, <<<<12, 2>>, <<13, 2>>, <<13, 3>>, <<12, 3>>>>, <<<<12, 4>>, <<13, 4>>, <<13, 5>>, <<12, 5>>>>, <<<<12, 8>>, <<13, 8>>, <<13, 9>>, <<12, 9>>>>, <<<<12, 10>>, <<13, 10>>, <<13, 11>>, <<12, 11>>>>, <<<<12, 12>>, <<13, 12>>, <<13, 13>>, <<12, 13>>>>, <<<<14, 4>>, <<15, 4>>, <<15, 5>>, <<14, 5>>>>, <<<<14, 6>>, <<15, 6>>, <<15, 7>>, <<14, 7>>>>, <<<<14, 8>>, <<15, 8>>, <<15, 9>>, <<14, 9>>>>, <<<<14, 10>>, <<15, 10>>, <<15, 11>>, <<14, 11>>>>>>,
   parts |-> <<<<[i |-> 1, j |-> 0, c |-> 0, s |-> 1], [i |-> 1, j |-> 0, c |-> 1, s |-> -1], [i |-> 2, j |-> 0, c |-> 0, s |-> 1], [i |-> 2, j |-> 0, c |-> 1, s |-> -1]>>, <<[i |-> 1, j |-> 0, c |-> 0, s |-> 1], [i |-> 1, j |-> 0, c |-> 1, s |-> -1], [i |-> 2, j |-> 0, c |-> 2, s |-> 1], [i |-> 2, j |-> 0, c |-> 3, s |-> -1]>>, <<[i |-> 1, j |-> 0, c |-> 0, s |-> 1], [i |-> 1, j |-> 0, c |-> 1, s |-> -1], [i |-> 2, j |-> 0, c |-> 4, s |-> 1], [i |-> 2, j |-> 0, c |-> 5, s |-> -1]>>, <<[i |-> 1, j |-> 0, c |-> 0, s |-> 1], [i |-> 1, j |-> 0, c |-> 1, s |-> -1], [i |-> 2, j |-> 0, c |-> 6, s |-> 1], [i |-> 2, j |-> 0, c |-> 7, s |-> -1]>>, <<[i |-> 1, j |-> 0, c |-> 0, s |-> 1], [i |-> 1, j |-> 0, c |-> 1, s |-> -1], [i |-> 2, j |-> 0, c |-> 8, s |-> 1], [i |-> 2, j |-> 0, c |-> 9, s |-> -1]>>, <<[i |-> 1, j |-> 0, c |-> 0, s |-> 1], [i |-> 1, j |-> 0, c |-> 1, s |-> -1], [i |-> 2, j |-> 0, c |-> 10, s |-> 1], [i |-> 2, j |-> 0, c |-> 11, s |-> -1]>>, <<[i |-> 1, j |-> 0, c |-> 0, s |-> 1], [i |-> 1, j |-> 0, c |-> 1, s |-> -1], [i |-> 2, j |-> 0, c |-> 12, s |-> 1], [i |-> 2, j |-> 0, c |-> 13, s |-> -1]>>, <<[i |-> 1, j |-> 0, c |-> 2, s |-> 1], [i |-> 1, j |-> 0, c |-> 3, s |-> -1], [i |-> 2, j |-> 0, c |-> 2, s |-> 1], [i |-> 2, j |-> 0, c |-> 3, s |-> -1]>>, <<[i |-> 1, j |-> 0, c |-> 2, s |-> 1], [i |-> 1, j |-> 0, c |-> 3, s |-> -1], [i |-> 2, j |-> 0, c |-> 8, s |-> 1], [i |-> 2, j |-> 0, c |-> 9, s |-> -1]>>, <<[i |-> 1, j |-> 0, c |-> 2, s |-> 1], [i |-> 1, j |-> 0, c |-> 3, s |-> -1], [i |-> 2, j |-> 0, c |-> 10, s |-> 1], [i |-> 2, j |-> 0, c |-> 11, s |-> -1]>>, <<[i |-> 1, j |-> 0, c |-> 2, s |-> 1], [i |-> 1, j |-> 0, c |-> 3, s |-> -1], [i |-> 2, j |-> 0, c |-> 12, s |-> 1], [i |-> 2, j |-> 0, c |-> 13, s |-> -1]>>, <<[i |-> 1, j |-> 0, c |-> 2, s |-> 1], [i |-> 1, j |-> 0, c |-> 3, s |-> -1], [i |-> 2, j |-> 0, c |-> 14, s |-> 1], [i |-> 2, j |-> 0, c |-> 15, s |-> -1]>>, <<[i |-> 1, j |-> 0, c |-> 4, s |-> 1], [i |-> 1, j |-> 0, c |-> 5, s |-> -1], [i |-> 2, j |-> 0, c |-> 0, s |-> 1], [i |-> 2, j |-> 0, c |-> 1, s |-> -1]>>, <<[i |-> 1, j |-> 0, c |-> 4, s |-> 1], [i |-> 1, j |-> 0, c |-> 5, s |-> -1], [i |-> 2, j |-> 0, c |-> 2, s |-> 1], [i |-> 2, j |-> 0, c |-> 3, s |-> -1]>>, <<[i |-> 1, j |-> 0, c |-> 4, s |-> 1], [i |-> 1, j |-> 0, c |-> 5, s |-> -1], [i |-> 2, j |-> 0, c |-> 4, s |-> 1], [i |-> 2, j |-> 0, c |-> 5, s |-> -1]>>, <<[i |-> 1, j |-> 0, c |-> 4, s |-> 1], [i |-> 1, j |-> 0, c |-> 5, s |-> -1], [i |-> 2, j |-> 0, c |-> 8, s |-> 1], [i |-> 2, j |-> 0, c |-> 9, s |-> -1]>>, <<[i |-> 1, j |-> 0, c |-> 4, s |-> 1], [i |-> 1, j |-> 0, c |-> 5, s |-> -1], [i |-> 2, j |-> 0, c |-> 10, s |-> 1], [i |-> 2, j |-> 0, c |-> 11, s |-> -1]>>, <<[i |-> 1, j |-> 0, c |-> 4, s |-> 1], [i |-> 1, j |-> 0, c |-> 5, s |-> -1], [i |-> 2, j |-> 0, c |-> 12, s |-> 1], [i |-> 2, j |-> 0, c |-> 13, s |-> -1]>>, <<[i |-> 1, j |-> 0, c |-> 6, s |-> 1], [i |-> 1, j |-> 0, c |-> 7, s |-> -1], [i |-> 2, j |-> 0, c |-> 2, s |-> 1], [i |-> 2, j |-> 0, c |-> 3, s |-> -1]>>, <<[i |-> 1, j |-> 0, c |-> 6, s |-> 1], [i |-> 1, j |-> 0, c |-> 7, s |-> -1], [i |-> 2, j |-> 0, c |-> 4, s |-> 1], [i |-> 2, j |-> 0, c |-> 5, s |-> -1]>>, <<[i |-> 1, j |-> 0, c |-> 6, s |-> 1], [i |-> 1, j |-> 0, c |-> 7, s |-> -1], [i |-> 2, j |-> 0, c |-> 6, s |-> 1], [i |-> 2, j |-> 0, c |-> 7, s |-> -1]>>, <<[i |-> 1, j |-> 0, c |-> 6, s |-> 1], [i |-> 1, j |-> 0, c |-> 7, s |-> -1], [i |-> 2, j |-> 0, c |-> 8, s |-> 1], [i |-> 2, j |-> 0, c |-> 9, s |-> -1]>>, <<[i |-> 1, j |-> 0, c |-> 6, s |-> 1], [i |-> 1, j |-> 0, c |-> 7, s |-> -1], [i |-> 2, j |-> 0, c |-> 10, s |-> 1], [i |-> 2, j |-> 0, c |-> 11, s |-> -1]>>, <<[i |-> 1, j |-> 0, c |-> 6, s |-> 1], [i |-> 1, j |-> 0, c |-> 7, s |-> -1], [i |-> 2, j |-> 0, c |-> 12, s |-> 1], [i |-> 2, j |-> 0, c |-> 13, s |-> -1]>>, <<[i |-> 1, j |-> 0, c |-> 6, s |-> 1], [i |-> 1, j |-> 0, c |-> 7, s |-> -1], [i |-> 2, j |-> 0, c |-> 14, s |-> 1], [i |-> 2, j |-> 0, c |-> 15, s |-> -1]>>, <<[i |-> 1, j |-> 0, c |-> 8, s |-> 1], [i |-> 1, j |-> 0, c |-> 9, s |-> -1], [i |-> 2, j |-> 0, c |-> 0, s |-> 1], [i |-> 2, j |-> 0, c |-> 1, s |-> -1]>>, <<[i |-> 1, j |-> 0, c |-> 8, s |-> 1], [i |-> 1, j |-> 0, c |-> 9, s |-> -1], [i |-> 2, j |-> 0, c |-> 2, s |-> 1], [i |-> 2, j |-> 0, c |-> 3, s |-> -1]>>, <<[i |-> 1, j |-> 0, c |-> 8, s |-> 1], [i |-> 1, j |-> 0, c |-> 9, s |-> -1], [i |-> 2, j |-> 0, c |-> 4, s |-> 1], [i |-> 2, j |-> 0, c |-> 5, s |-> -1]>>, <<[i |-> 1, j |-> 0, c |-> 8, s |-> 1], [i |-> 1, j |-> 0, c |-> 9, s |-> -1], [i |-> 2, j |-> 0, c |-> 6, s |-> 1], [i |-> 2, j |-> 0, c |-> 7, s |-> -1]>>, <<[i |-> 1, j |-> 0, c |-> 8, s |-> 1], [i |-> 1, j |-> 0, c |-> 9, s |-> -1], [i |-> 2, j |-> 0, c |-> 8, s |-> 1], [i |-> 2, j |-> 0, c |-> 9, s |-> -1]>>, <<[i |-> 1, j |-> 0, c |-> 8, s |-> 1], [i |-> 1, j |-> 0, c |-> 9, s |-> -1], [i |-> 2, j |-> 0, c |-> 10, s |-> 1], [i |-> 2, j |-> 0, c |-> 11, s |-> -1]>>, <<[i |-> 1, j |-> 0, c |-> 8, s |-> 1], [i |-> 1, j |-> 0, c |-> 9, s |-> -1], [i |-> 2, j |-> 0, c |-> 12, s |-> 1], [i |-> 2, j |-> 0, c |-> 13, s |-> -1]>>, <<[i |-> 1, j |-> 0, c |-> 10, s |-> 1], [i |-> 1, j |-> 0, c |-> 11, s |-> -1], [i |-> 2, j |-> 0, c |-> 0, s |-> 1], [i |-> 2, j |-> 0, c |-> 1, s |-> -1]>>, <<[i |-> 1, j |-> 0, c |-> 10, s |-> 1], [i |-> 1, j |-> 0, c |-> 11, s |-> -1], [i |-> 2, j |-> 0, c |-> 2, s |-> 1], [i |-> 2, j |-> 0, c |-> 3, s |-> -1]>>, <<[i |-> 1, j |-> 0, c |-> 10, s |-> 1], [i |-> 1, j |-> 0, c |-> 11, s |-> -1], [i |-> 2, j |-> 0, c |-> 4, s |-> 1], [i |-> 2, j |-> 0, c |-> 5, s |-> -1]>>, <<[i |-> 1, j |-> 0, c |-> 10, s |-> 1], [i |-> 1, j |-> 0, c |-> 11, s |-> -1], [i |-> 2, j |-> 0, c |-> 8, s |-> 1], [i |-> 2, j |-> 0, c |-> 9, s |-> -1]>>, <<[i |-> 1, j |-> 0, c |-> 10, s |-> 1], [i |-> 1, j |-> 0, c |-> 11, s |-> -1], [i |-> 2, j |-> 0, c |-> 10, s |-> 1], [i |-> 2, j |-> 0, c |-> 11, s |-> -1]>>, <<[i |-> 1, j |-> 0, c |-> 10, s |-> 1], [i |-> 1, j |-> 0, c |-> 11, s |-> -1], [i |-> 2, j |-> 0, c |-> 12, s |-> 1], [i |-> 2, j |-> 0, c |-> 13, s |-> -1]>>, <<[i |-> 1, j |-> 0, c |-> 12, s |-> 1], [i |-> 1, j |-> 0, c |-> 13, s |-> -1], [i |-> 2, j |-> 0, c |-> 0, s |-> 1], [i |-> 2, j |-> 0, c |-> 1, s |-> -1]>>, <<[i |-> 1, j |-> 0, c |-> 12, s |-> 1], [i |-> 1, j |-> 0, c |-> 13, s |-> -1], [i |-> 2, j |-> 0, c |-> 2, s |-> 1], [i |-> 2, j |-> 0, c |-> 3, s |-> -1]>>, <<[i |-> 1, j |-> 0, c |-> 12, s |-> 1], [i |-> 1, j |-> 0, c |-> 13, s |-> -1], [i |-> 2, j |-> 0, c |-> 4, s |-> 1], [i |-> 2, j |-> 0, c |-> 5, s |-> -1]>>, <<[i |-> 1, j |-> 0, c |-> 12, s |-> 1], [i |-> 1, j |-> 0, c |-> 13, s |-> -1], [i |-> 2, j |-> 0, c |-> 8, s |-> 1], [i |-> 2, j |-> 0, c |-> 9, s |-> -1]>>, <<[i |-> 1, j |-> 0, c |-> 12, s |-> 1], [i |-> 1, j |-> 0, c |-> 13, s |-> -1], [i |-> 2, j |-> 0, c |-> 10, s |-> 1], [i |-> 2, j |-> 0, c |-> 11, s |-> -1]>>, <<[i |-> 1, j |-> 0, c |-> 12, s |-> 1], [i |-> 1, j |-> 0, c |-> 13, s |-> -1], [i |-> 2, j |-> 0, c |-> 12, s |-> 1], [i |-> 2, j |-> 0, c |-> 13, s |-> -1]>>, <<[i |-> 1, j |-> 0, c |-> 14, s |-> 1], [i |-> 1, j |-> 0, c |-> 15, s |-> -1], [i |-> 2, j |-> 0, c |-> 4, s |-> 1], [i |-> 2, j |-> 0, c |-> 5, s |-> -1]>>, <<[i |-> 1, j |-> 0, c |-> 14, s |-> 1], [i |-> 1, j |-> 0, c |-> 15, s |-> -1], [i |-> 2, j |-> 0, c |-> 6, s |-> 1], [i |-> 2, j |-> 0, c |-> 7, s |-> -1]>>, <<[i |-> 1, j |-> 0, c |-> 14, s |-> 1], [i |-> 1, j |-> 0, c |-> 15, s |-> -1], [i |-> 2, j |-> 0, c |-> 8, s |-> 1], [i |-> 2, j |-> 0, c |-> 9, s |-> -1]>>, <<[i |-> 1, j |-> 0, c |-> 14, s |-> 1], [i |-> 1, j |-> 0, c |-> 15, s |-> -1], [i |-> 2, j |-> 0, c |-> 10, s |-> 1], [i |-> 2, j |-> 0, c |-> 11, s |-> -1]>>>>,
   minus |-> <<>>],
  [name |-> "tripled15", kind |-> "poly", convex |-> TRUE,
   loops |-> <<<<<<0, 0>>, <<0, 0>>, <<0, 0>>, <<1, 0>>, <<1, 0>>, <<1, 0>>, <<2, 0>>, <<2, 0>>, <<2, 0>>, <<3, 0>>, <<3, 0>>, <<3, 0>>, <<4, 0>>, <<4, 0>>, <<4, 0>>, <<5, 0>>, <<5, 0>>, <<5, 0>>, <<6, 0>>, <<6, 0>>, <<6, 0>>, <<7, 0>>, <<7, 0>>, <<7, 0>>, <<8, 0>>, <<8, 0>>, <<8, 0>>, <<9, 0>>, <<9, 0>>, <<9, 0>>, <<10, 0>>, <<10, 0>>, <<10, 0>>, <<11, 0>>, <<11, 0>>, <<11, 0>>, <<12, 0>>, <<12, 0>>, <<12, 0>>, <<13, 0>>, <<13, 0>>, <<13, 0>>, <<14, 0>>, <<14, 0>>, <<14, 0>>, <<15, 0>>, <<15, 0>>, <<15, 0>>, <<15, 1>>, <<15, 1>>, <<15, 1>>, <<15, 2>>, <<15, 2>>, <<15, 2>>, <<15, 3>>, <<15, 3>>, <<15, 3>>, <<15, 4>>, <<15, 4>>, <<15, 4>>, <<15, 5>>, <<15, 5>>, <<15, 5>>, <<15, 6>>, <<15, 6>>, <<15, 6>>, <<15, 7>>, <<15, 7>>, <<15, 7>>, <<15, 8>>, <<15, 8>>, <<15, 8>>, <<15, 9>>, <<15, 9>>, <<15, 9>>, <<15, 10>>, <<15, 10>>, <<15, 10>>, <<15, 11>>, <<15, 11>>, <<15, 11>>, <<15, 12>>, <<15, 12>>, <<15, 12>>, <<15, 13>>, <<15, 13>>, <<15, 13>>, <<15, 14>>, <<15, 14>>, <<15, 14>>, <<15, 15>>, <<15, 15>>, <<15, 15>>, <<14, 15>>, <<14, 15>>, <<14, 15>>, <<13, 15>>, <<13, 15>>, <<13, 15>>, <<12, 15>>, <<12, 15>>, <<12, 15>>, <<11, 15>>, <<11, 15>>, <<11, 15>>, <<10, 15>>, <<10, 15>>, <<10, 15>>, <<9, 15>>, <<9, 15>>, <<9, 15>>, <<8, 15>>, <<8, 15>>, <<8, 15>>, <<7, 15>>, <<7, 15>>, <<7, 15>>, <<6, 15>>, <<6, 15>>, <<6, 15>>, <<5, 15>>, <<5, 15>>, <<5, 15>>, <<4, 15>>, <<4, 15>>, <<4, 15>>, <<3, 15>>, <<3, 15>>, <<3, 15>>, <<2, 15>>, <<2, 15>>, <<2, 15>>, <<1, 15>>, <<1, 15>>, <<1, 15>>, <<0, 15>>, <<0, 15>>, <<0, 15>>, <<0, 14>>, <<0, 14>>, <<0, 14>>, <<0, 13>>, <<0, 13>>, <<0, 13>>, <<0, 12>>, <<0, 12>>, <<0, 12>>, <<0, 11>>, <<0, 11>>, <<0, 11>>, <<0, 10>>, <<0, 10>>, <<0, 10>>, <<0, 9>>, <<0, 9>>, <<0, 9>>, <<0, 8>>, <<0, 8>>, <<0, 8>>, <<0, 7>>, <<0, 7>>, <<0, 7>>, <<0, 6>>, <<0, 6>>, <<0, 6>>, <<0, 5>>, <<0, 5>>, <<0, 5>>, <<0, 4>>, <<0, 4>>, <<0, 4>>, <<0, 3>>, <<0, 3>>, <<0, 3>>, <<0, 2>>, <<0, 2>>, <<0, 2>>, <<0, 1>>, <<0, 1>>, <<0, 1>>>>>>,
   parts |-> <<<<[i |-> 1, j |-> 0, c |-> 0, s |-> 1], [i |-> 1, j |-> 0, c |-> 15, s |-> -1], [i |-> 2, j |-> 0, c |-> 0, s |-> 1], [i |-> 2, j |-> 0, c |-> 15, s |-> -1]>>>>,
   minus |-> <<>>],
  [name |-> "dcomb15", kind |-> "poly", convex |-> FALSE,
   loops |-> <<<<<<0, 0>>, <<1, 0>>, <<3, 0>>, <<5, 0>>, <<7, 0>>, <<9, 0>>, <<11, 0>>, <<13, 0>>, <<15, 0>>, <<15, 2>>, <<15, 4>>, <<15, 6>>, <<15, 8>>, <<15, 10>>, <<15, 12>>, <<15, 14>>, <<15, 15>>, <<14, 15>>, <<14, 13>>, <<14, 11>>, <<14, 9>>, <<14, 7>>, <<14, 5>>, <<14, 3>>, <<14, 1>>, <<13, 1>>, <<13, 2>>, <<13, 4>>, <<13, 6>>, <<13, 8>>, <<13, 10>>, <<13, 12>>, <<13, 14>>, <<13, 15>>, <<12, 15>>, <<12, 13>>, <<12, 11>>, <<12, 9>>, <<12, 7>>, <<12, 5>>, <<12, 3>>, <<12, 1>>, <<11, 1>>, <<11, 2>>, <<11, 4>>, <<11, 6>>, <<11, 8>>, <<11, 10>>, <<11, 12>>, <<11, 14>>, <<11, 15>>, <<10, 15>>, <<10, 13>>, <<10, 11>>, <<10, 9>>, <<10, 7>>, <<10, 5>>, <<10, 3>>, <<10, 1>>, <<9, 1>>, <<9, 2>>, <<9, 4>>, <<9, 6>>, <<9, 8>>, <<9, 10>>, <<9, 12>>, <<9, 14>>, <<9, 15>>, <<8, 15>>, <<8, 13>>, <<8, 11>>, <<8, 9>>, <<8, 7>>, <<8, 5>>, <<8, 3>>, <<8, 1>>, <<7, 1>>, <<7, 2>>, <<7, 4>>, <<7, 6>>, <<7, 8>>, <<7, 10>>, <<7, 12>>, <<7, 14>>, <<7, 15>>, <<6, 15>>, <<6, 13>>, <<6, 11>>, <<6, 9>>, <<6, 7>>, <<6, 5>>, <<6, 3>>, <<6, 1>>, <<5, 1>>, <<5, 2>>, <<5, 4>>, <<5, 6>>, <<5, 8>>, <<5, 10>>, <<5, 12>>, <<5, 14>>, <<5, 15>>, <<4, 15>>, <<4, 13>>, <<4, 11>>, <<4, 9>>, <<4, 7>>, <<4, 5>>, <<4, 3>>, <<4, 1>>, <<3, 1>>, <<3, 2>>, <<3, 4>>, <<3, 6>>, <<3, 8>>, <<3, 10>>, <<3, 12>>, <<3, 14>>, <<3, 15>>, <<2, 15>>, <<2, 13>>, <<2, 11>>, <<2, 9>>, <<2, 7>>, <<2, 5>>, <<2, 3>>, <<2, 1>>, <<1, 1>>, <<1, 2>>, <<1, 4>>, <<1, 6>>, <<1, 8>>, <<1, 10>>, <<1, 12>>, <<1, 14>>, <<1, 15>>, <<0, 15>>, <<0, 13>>, <<0, 11>>, <<0, 9>>, <<0, 7>>, <<0, 5>>, <<0, 3>>, <<0, 1>>>>>>,
   parts |-> <<<<[i |-> 1, j |-> 0, c |-> 0, s |-> 1], [i |-> 1, j |-> 0, c |-> 15, s |-> -1], [i |-> 2, j |-> 0, c |-> 0, s |-> 1], [i |-> 2, j |-> 0, c |-> 1, s |-> -1]>>, <<[i |-> 1, j |-> 0, c |-> 0, s |-> 1], [i |-> 1, j |-> 0, c |-> 1, s |-> -1], [i |-> 2, j |-> 0, c |-> 0, s |-> 1], [i |-> 2, j |-> 0, c |-> 15, s |-> -1]>>, <<[i |-> 1, j |-> 0, c |-> 2, s |-> 1], [i |-> 1, j |-> 0, c |-> 3, s |-> -1], [i |-> 2, j |-> 0, c |-> 0, s |-> 1], [i |-> 2, j |-> 0, c |-> 15, s |-> -1]>>, <<[i |-> 1, j |-> 0, c |-> 4, s |-> 1], [i |-> 1, j |-> 0, c |-> 5, s |-> -1], [i |-> 2, j |-> 0, c |-> 0, s |-> 1], [i |-> 2, j |-> 0, c |-> 15, s |-> -1]>>, <<[i |-> 1, j |-> 0, c |-> 6, s |-> 1], [i |-> 1, j |-> 0, c |-> 7, s |-> -1], [i |-> 2, j |-> 0, c |-> 0, s |-> 1], [i |-> 2, j |-> 0, c |-> 15, s |-> -1]>>, <<[i |-> 1, j |-> 0, c |-> 8, s |-> 1], [i |-> 1, j |-> 0, c |-> 9, s |-> -1], [i |-> 2, j |-> 0, c |-> 0, s |-> 1], [i |-> 2, j |-> 0, c |-> 15, s |-> -1]>>, <<[i |-> 1, j |-> 0, c |-> 10, s |-> 1], [i |-> 1, j |-> 0, c |-> 11, s |-> -1], [i |-> 2, j |-> 0, c |-> 0, s |-> 1], [i |-> 2, j |-> 0, c |-> 15, s |-> -1]>>, <<[i |-> 1, j |-> 0, c |-> 12, s |-> 1], [i |-> 1, j |-> 0, c |-> 13, s |-> -1], [i |-> 2, j |-> 0, c |-> 0, s |-> 1], [i |-> 2, j |-> 0, c |-> 15, s |-> -1]>>, <<[i |-> 1, j |-> 0, c |-> 14, s |-> 1], [i |-> 1, j |-> 0, c |-> 15, s |-> -1], [i |-> 2, j |-> 0, c |-> 0, s |-> 1], [i |-> 2, j |-> 0, c |-> 15, s |-> -1]>>>>,
   minus |-> <<>>],
  [name |-> "dstair15", kind |-> "poly", convex |-> FALSE,
   loops |-> <<<<<<0, 0>>, <<1, 0>>, <<2, 0>>, <<3, 0>>, <<4, 0>>, <<5, 0>>, <<6, 0>>, <<7, 0>>, <<8, 0>>, <<9, 0>>, <<10, 0>>, <<11, 0>>, <<12, 0>>, <<13, 0>>, <<14, 0>>, <<15, 0>>, <<15, 1>>, <<14, 1>>, <<14, 2>>, <<13, 2>>, <<13, 3>>, <<12, 3>>, <<12, 4>>, <<11, 4>>, <<11, 5>>, <<10, 5>>, <<10, 6>>, <<9, 6>>, <<9, 7>>, <<8, 7>>, <<8, 8>>, <<7, 8>>, <<7, 9>>, <<6, 9>>, <<6, 10>>, <<5, 10>>, <<5, 11>>, <<4, 11>>, <<4, 12>>, <<3, 12>>, <<3, 13>>, <<2, 13>>, <<2, 14>>, <<1, 14>>, <<1, 15>>, <<0, 15>>, <<0, 14>>, <<0, 13>>, <<0, 12>>, <<0, 11>>, <<0, 10>>, <<0, 9>>, <<0, 8>>, <<0, 7>>, <<0, 6>>, <<0, 5>>, <<0, 4>>, <<0, 3>>, <<0, 2>>, <<0, 1>>>>>>,
   parts |-> <<<<[i |-> 1, j |-> 0, c |-> 0, s |-> 1], [i |-> 1, j |-> 0, c |-> 15, s |-> -1], [i |-> 2, j |-> 0, c |-> 0, s |-> 1], [i |-> 2, j |-> 0, c |-> 1, s |-> -1]>>, <<[i |-> 1, j |-> 0, c |-> 0, s |-> 1], [i |-> 1, j |-> 0, c |-> 14, s |-> -1], [i |-> 2, j |-> 0, c |-> 1, s |-> 1], [i |-> 2, j |-> 0, c |-> 2, s |-> -1]>>, <<[i |-> 1, j |-> 0, c |-> 0, s |-> 1], [i |-> 1, j |-> 0, c |-> 13, s |-> -1], [i |-> 2, j |-> 0, c |-> 2, s |-> 1], [i |-> 2, j |-> 0, c |-> 3, s |-> -1]>>, <<[i |-> 1, j |-> 0, c |-> 0, s |-> 1], [i |-> 1, j |-> 0, c |-> 12, s |-> -1], [i |-> 2, j |-> 0, c |-> 3, s |-> 1], [i |-> 2, j |-> 0, c |-> 4, s |-> -1]>>, <<[i |-> 1, j |-> 0, c |-> 0, s |-> 1], [i |-> 1, j |-> 0, c |-> 11, s |-> -1], [i |-> 2, j |-> 0, c |-> 4, s |-> 1], [i |-> 2, j |-> 0, c |-> 5, s |-> -1]>>, <<[i |-> 1, j |-> 0, c |-> 0, s |-> 1], [i |-> 1, j |-> 0, c |-> 10, s |-> -1], [i |-> 2, j |-> 0, c |-> 5, s |-> 1], [i |-> 2, j |-> 0, c |-> 6, s |-> -1]>>, <<[i |-> 1, j |-> 0, c |-> 0, s |-> 1], [i |-> 1, j |-> 0, c |-> 9, s |-> -1], [i |-> 2, j |-> 0, c |-> 6, s |-> 1], [i |-> 2, j |-> 0, c |-> 7, s |-> -1]>>, <<[i |-> 1, j |-> 0, c |-> 0, s |-> 1], [i |-> 1, j |-> 0, c |-> 8, s |-> -1], [i |-> 2, j |-> 0, c |-> 7, s |-> 1], [i |-> 2, j |-> 0, c |-> 8, s |-> -1]>>, <<[i |-> 1, j |-> 0, c |-> 0, s |-> 1], [i |-> 1, j |-> 0, c |-> 7, s |-> -1], [i |-> 2, j |-> 0, c |-> 8, s |-> 1], [i |-> 2, j |-> 0, c |-> 9, s |-> -1]>>, <<[i |-> 1, j |-> 0, c |-> 0, s |-> 1], [i |-> 1, j |-> 0, c |-> 6, s |-> -1], [i |-> 2, j |-> 0, c |-> 9, s |-> 1], [i |-> 2, j |-> 0, c |-> 10, s |-> -1]>>, <<[i |-> 1, j |-> 0, c |-> 0, s |-> 1], [i |-> 1, j |-> 0, c |-> 5, s |-> -1], [i |-> 2, j |-> 0, c |-> 10, s |-> 1], [i |-> 2, j |-> 0, c |-> 11, s |-> -1]>>, <<[i |-> 1, j |-> 0, c |-> 0, s |-> 1], [i |-> 1, j |-> 0, c |-> 4, s |-> -1], [i |-> 2, j |-> 0, c |-> 11, s |-> 1], [i |-> 2, j |-> 0, c |-> 12, s |-> -1]>>, <<[i |-> 1, j |-> 0, c |-> 0, s |-> 1], [i |-> 1, j |-> 0, c |-> 3, s |-> -1], [i |-> 2, j |-> 0, c |-> 12, s |-> 1], [i |-> 2, j |-> 0, c |-> 13, s |-> -1]>>, <<[i |-> 1, j |-> 0, c |-> 0, s |-> 1], [i |-> 1, j |-> 0, c |-> 2, s |-> -1], [i |-> 2, j |-> 0, c |-> 13, s |-> 1], [i |-> 2, j |-> 0, c |-> 14, s |-> -1]>>, <<[i |-> 1, j |-> 0, c |-> 0, s |-> 1], [i |-> 1, j |-> 0, c |-> 1, s |-> -1], [i |-> 2, j |-> 0, c |-> 14, s |-> 1], [i |-> 2, j |-> 0, c |-> 15, s |-> -1]>>>>,
   minus |-> <<>>]
>>

ShapeIds == 1..Len(ShapeSeq)
ShapeT == [s \in ShapeIds |-> ShapeSeq[s]]
Content(s) == UNION {Region(s.parts[k]) : k \in DOMAIN s.parts} \ UNION {Region(s.minus[k]) : k \in DOMAIN s.minus}
ContentT == [s \in ShapeIds |-> Content(ShapeT[s])]

Cross2(a, b) == a[1] * b[2] - a[2] * b[1]
LoopArea(l) == Sum(DOMAIN l, LAMBDA k : Cross2(l[k], l[(k % Len(l)) + 1]))
TwoArea(s) == Sum(DOMAIN s.loops, LAMBDA k : LoopArea(s.loops[k]))
ShapesOK == \A s \in ShapeIds : TwoArea(ShapeT[s]) = Cardinality(ContentT[s]) /\ ContentT[s] # {}
=============================================================================
