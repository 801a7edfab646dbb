------------------------------ MODULE Shapes3 ------------------------------
(* generated by tools/mkshapes.py *)
EXTENDS Lattice

ShapeSeq == <<
  [name |-> "box222", kind |-> "box", convex |-> TRUE,
   verts |-> <<<<0, 0, 0>>, <<0, 0, 2>>, <<0, 2, 0>>, <<0, 2, 2>>, <<2, 0, 0>>, <<2, 0, 2>>, <<2, 2, 0>>, <<2, 2, 2>>>>,
   faces |-> <<<<3, 1, 2, 4>>, <<6, 5, 7, 8>>, <<2, 1, 5, 6>>, <<7, 3, 4, 8>>, <<5, 1, 3, 7>>, <<4, 2, 6, 8>>>>,
   parts |-> <<<<[i |-> 1, j |-> 0, c |-> 0, s |-> 1], [i |-> 1, j |-> 0, c |-> 2, s |-> -1], [i |-> 2, j |-> 0, c |-> 0, s |-> 1], [i |-> 2, j |-> 0, c |-> 2, s |-> -1], [i |-> 3, j |-> 0, c |-> 0, s |-> 1], [i |-> 3, j |-> 0, c |-> 2, s |-> -1]>>>>,
   minus |-> <<>>],
  [name |-> "box213", kind |-> "box", convex |-> TRUE,
   verts |-> <<<<1, 0, 0>>, <<1, 0, 3>>, <<1, 1, 0>>, <<1, 1, 3>>, <<3, 0, 0>>, <<3, 0, 3>>, <<3, 1, 0>>, <<3, 1, 3>>>>,
   faces |-> <<<<3, 1, 2, 4>>, <<6, 5, 7, 8>>, <<2, 1, 5, 6>>, <<7, 3, 4, 8>>, <<5, 1, 3, 7>>, <<4, 2, 6, 8>>>>,
   parts |-> <<<<[i |-> 1, j |-> 0, c |-> 1, s |-> 1], [i |-> 1, j |-> 0, c |-> 3, s |-> -1], [i |-> 2, j |-> 0, c |-> 0, s |-> 1], [i |-> 2, j |-> 0, c |-> 1, s |-> -1], [i |-> 3, j |-> 0, c |-> 0, s |-> 1], [i |-> 3, j |-> 0, c |-> 3, s |-> -1]>>>>,
   minus |-> <<>>],
  [name |-> "tet123", kind |-> "tet", convex |-> TRUE,
   verts |-> <<<<0, 0, 0>>, <<3, 0, 0>>, <<3, 3, 0>>, <<3, 3, 3>>>>,
   faces |-> <<<<2, 3, 4>>, <<1, 4, 3>>, <<1, 2, 4>>, <<1, 3, 2>>>>,
   parts |-> <<<<[i |-> 1, j |-> 0, c |-> 3, s |-> -1], [i |-> 3, j |-> 0, c |-> 0, s |-> 1], [i |-> 1, j |-> 2, c |-> 0, s |-> 1], [i |-> 2, j |-> 3, c |-> 0, s |-> 1]>>>>,
   minus |-> <<>>],
  [name |-> "tet312", kind |-> "tet", convex |-> TRUE,
   verts |-> <<<<1, 0, 1>>, <<1, 0, 3>>, <<3, 0, 3>>, <<3, 2, 3>>>>,
   faces |-> <<<<2, 3, 4>>, <<1, 4, 3>>, <<1, 2, 4>>, <<1, 3, 2>>>>,
   parts |-> <<<<[i |-> 3, j |-> 0, c |-> 3, s |-> -1], [i |-> 2, j |-> 0, c |-> 0, s |-> 1], [i |-> 1, j |-> 3, c |-> 0, s |-> -1], [i |-> 1, j |-> 2, c |-> 1, s |-> 1]>>>>,
   minus |-> <<>>],
  [name |-> "tet132", kind |-> "tet", convex |-> TRUE,
   verts |-> <<<<0, 1, 0>>, <<2, 1, 2>>, <<2, 1, 0>>, <<2, 3, 2>>>>,
   faces |-> <<<<2, 3, 4>>, <<1, 4, 3>>, <<1, 2, 4>>, <<1, 3, 2>>>>,
   parts |-> <<<<[i |-> 1, j |-> 0, c |-> 2, s |-> -1], [i |-> 2, j |-> 0, c |-> 1, s |-> 1], [i |-> 1, j |-> 3, c |-> 0, s |-> 1], [i |-> 2, j |-> 3, c |-> 1, s |-> -1]>>>>,
   minus |-> <<>>],
  [name |-> "wedge", kind |-> "poly", convex |-> TRUE,
   verts |-> <<<<0, 0, 0>>, <<0, 0, 3>>, <<2, 0, 0>>, <<2, 0, 3>>, <<2, 2, 0>>, <<2, 2, 3>>>>,
   faces |-> <<<<4, 3, 5, 6>>, <<2, 1, 3, 4>>, <<3, 1, 5>>, <<6, 2, 4>>, <<5, 1, 2, 6>>>>,
   parts |-> <<<<[i |-> 1, j |-> 0, c |-> 0, s |-> 1], [i |-> 1, j |-> 0, c |-> 2, s |-> -1], [i |-> 2, j |-> 0, c |-> 0, s |-> 1], [i |-> 2, j |-> 0, c |-> 2, s |-> -1], [i |-> 3, j |-> 0, c |-> 0, s |-> 1], [i |-> 3, j |-> 0, c |-> 3, s |-> -1], [i |-> 1, j |-> 2, c |-> 0, s |-> 1]>>>>,
   minus |-> <<>>],
  [name |-> "pyramid", kind |-> "poly", convex |-> TRUE,
   verts |-> <<<<0, 0, 0>>, <<0, 3, 0>>, <<3, 0, 0>>, <<3, 3, 0>>, <<3, 3, 3>>>>,
   faces |-> <<<<5, 3, 4>>, <<4, 2, 5>>, <<3, 1, 2, 4>>, <<2, 1, 5>>, <<5, 1, 3>>>>,
   parts |-> <<<<[i |-> 1, j |-> 0, c |-> 0, s |-> 1], [i |-> 1, j |-> 0, c |-> 3, s |-> -1], [i |-> 2, j |-> 0, c |-> 0, s |-> 1], [i |-> 2, j |-> 0, c |-> 3, s |-> -1], [i |-> 3, j |-> 0, c |-> 0, s |-> 1], [i |-> 3, j |-> 0, c |-> 3, s |-> -1], [i |-> 1, j |-> 3, c |-> 0, s |-> 1], [i |-> 2, j |-> 3, c |-> 0, s |-> 1]>>>>,
   minus |-> <<>>],
  [name |-> "octa", kind |-> "poly", convex |-> TRUE,
   verts |-> <<<<0, 0, 1>>, <<0, 1, 1>>, <<0, 1, 2>>, <<1, 1, 1>>, <<1, 1, 2>>, <<1, 2, 2>>>>,
   faces |-> <<<<2, 1, 3>>, <<5, 4, 6>>, <<5, 1, 4>>, <<6, 2, 3>>, <<4, 2, 6>>, <<3, 1, 5>>, <<4, 1, 2>>, <<6, 3, 5>>>>,
   parts |-> <<<<[i |-> 1, j |-> 0, c |-> 0, s |-> 1], [i |-> 1, j |-> 0, c |-> 1, s |-> -1], [i |-> 1, j |-> 2, c |-> 0, s |-> -1], [i |-> 1, j |-> 2, c |-> -1, s |-> 1], [i |-> 2, j |-> 3, c |-> 0, s |-> -1], [i |-> 2, j |-> 3, c |-> -1, s |-> 1], [i |-> 3, j |-> 0, c |-> 1, s |-> 1], [i |-> 3, j |-> 0, c |-> 2, s |-> -1]>>>>,
   minus |-> <<>>],
  [name |-> "rhombic", kind |-> "poly", convex |-> TRUE,
   verts |-> <<<<0, 0, 0>>, <<0, 0, 1>>, <<0, 1, 0>>, <<0, 1, 1>>, <<1, 0, 0>>, <<1, 0, 1>>, <<1, 1, 0>>, <<1, 1, 2>>, <<1, 2, 1>>, <<1, 2, 2>>, <<2, 1, 1>>, <<2, 1, 2>>, <<2, 2, 1>>, <<2, 2, 2>>>>,
   faces |-> <<<<3, 1, 2, 4>>, <<12, 11, 13, 14>>, <<2, 1, 5, 6>>, <<13, 9, 10, 14>>, <<5, 1, 3, 7>>, <<10, 8, 12, 14>>, <<9, 3, 4, 10>>, <<6, 5, 11, 12>>, <<4, 2, 8, 10>>, <<11, 5, 7, 13>>, <<8, 2, 6, 12>>, <<7, 3, 9, 13>>>>,
   parts |-> <<<<[i |-> 1, j |-> 0, c |-> 0, s |-> 1], [i |-> 1, j |-> 0, c |-> 2, s |-> -1], [i |-> 2, j |-> 0, c |-> 0, s |-> 1], [i |-> 2, j |-> 0, c |-> 2, s |-> -1], [i |-> 3, j |-> 0, c |-> 0, s |-> 1], [i |-> 3, j |-> 0, c |-> 2, s |-> -1], [i |-> 1, j |-> 2, c |-> -1, s |-> 1], [i |-> 1, j |-> 2, c |-> 1, s |-> -1], [i |-> 1, j |-> 3, c |-> -1, s |-> 1], [i |-> 1, j |-> 3, c |-> 1, s |-> -1], [i |-> 2, j |-> 3, c |-> -1, s |-> 1], [i |-> 2, j |-> 3, c |-> 1, s |-> -1]>>>>,
   minus |-> <<>>],
  [name |-> "hexprism", kind |-> "poly", convex |-> TRUE,
   verts |-> <<<<0, 0, 0>>, <<0, 0, 2>>, <<0, 1, 0>>, <<0, 1, 2>>, <<1, 0, 0>>, <<1, 0, 2>>, <<1, 2, 0>>, <<1, 2, 2>>, <<2, 1, 0>>, <<2, 1, 2>>, <<2, 2, 0>>, <<2, 2, 2>>>>,
   faces |-> <<<<3, 1, 2, 4>>, <<10, 9, 11, 12>>, <<2, 1, 5, 6>>, <<11, 7, 8, 12>>, <<9, 5, 1, 3, 7, 11>>, <<8, 4, 2, 6, 10, 12>>, <<7, 3, 4, 8>>, <<6, 5, 9, 10>>>>,
   parts |-> <<<<[i |-> 1, j |-> 0, c |-> 0, s |-> 1], [i |-> 1, j |-> 0, c |-> 2, s |-> -1], [i |-> 2, j |-> 0, c |-> 0, s |-> 1], [i |-> 2, j |-> 0, c |-> 2, s |-> -1], [i |-> 3, j |-> 0, c |-> 0, s |-> 1], [i |-> 3, j |-> 0, c |-> 2, s |-> -1], [i |-> 1, j |-> 2, c |-> -1, s |-> 1], [i |-> 1, j |-> 2, c |-> 1, s |-> -1]>>>>,
   minus |-> <<>>],
  [name |-> "cutbox", kind |-> "poly", convex |-> TRUE,
   verts |-> <<<<0, 0, 0>>, <<0, 0, 1>>, <<0, 2, 0>>, <<0, 3, 1>>, <<1, 0, 0>>, <<1, 0, 2>>, <<1, 3, 2>>, <<3, 2, 0>>, <<3, 2, 2>>, <<3, 3, 1>>, <<3, 3, 2>>>>,
   faces |-> <<<<4, 3, 1, 2>>, <<9, 8, 10, 11>>, <<6, 2, 1, 5>>, <<10, 4, 7, 11>>, <<8, 5, 1, 3>>, <<7, 6, 9, 11>>, <<6, 5, 8, 9>>, <<4, 2, 6, 7>>, <<8, 3, 4, 10>>>>,
   parts |-> <<<<[i |-> 1, j |-> 0, c |-> 0, s |-> 1], [i |-> 1, j |-> 0, c |-> 3, s |-> -1], [i |-> 2, j |-> 0, c |-> 0, s |-> 1], [i |-> 2, j |-> 0, c |-> 3, s |-> -1], [i |-> 3, j |-> 0, c |-> 0, s |-> 1], [i |-> 3, j |-> 0, c |-> 2, s |-> -1], [i |-> 1, j |-> 2, c |-> 1, s |-> -1], [i |-> 1, j |-> 3, c |-> -1, s |-> 1], [i |-> 2, j |-> 3, c |-> 2, s |-> -1]>>>>,
   minus |-> <<>>],
  [name |-> "slab", kind |-> "poly", convex |-> TRUE,
   verts |-> <<<<0, 0, 0>>, <<0, 0, 3>>, <<0, 1, 0>>, <<0, 1, 3>>, <<2, 3, 0>>, <<2, 3, 3>>, <<3, 3, 0>>, <<3, 3, 3>>>>,
   faces |-> <<<<3, 1, 2, 4>>, <<7, 5, 6, 8>>, <<7, 1, 3, 5>>, <<6, 4, 2, 8>>, <<5, 3, 4, 6>>, <<2, 1, 7, 8>>>>,
   parts |-> <<<<[i |-> 1, j |-> 0, c |-> 0, s |-> 1], [i |-> 1, j |-> 0, c |-> 3, s |-> -1], [i |-> 2, j |-> 0, c |-> 0, s |-> 1], [i |-> 2, j |-> 0, c |-> 3, s |-> -1], [i |-> 3, j |-> 0, c |-> 0, s |-> 1], [i |-> 3, j |-> 0, c |-> 3, s |-> -1], [i |-> 1, j |-> 2, c |-> -1, s |-> 1], [i |-> 1, j |-> 2, c |-> 0, s |-> -1]>>>>,
   minus |-> <<>>],
  [name |-> "Lprism", kind |-> "poly", convex |-> FALSE,
   verts |-> <<<<0, 0, 0>>, <<2, 0, 0>>, <<2, 1, 0>>, <<1, 1, 0>>, <<1, 2, 0>>, <<0, 2, 0>>, <<0, 0, 2>>, <<2, 0, 2>>, <<2, 1, 2>>, <<1, 1, 2>>, <<1, 2, 2>>, <<0, 2, 2>>>>,
   faces |-> <<<<6, 5, 4, 3, 2, 1>>, <<7, 8, 9, 10, 11, 12>>, <<1, 2, 8, 7>>, <<2, 3, 9, 8>>, <<3, 4, 10, 9>>, <<4, 5, 11, 10>>, <<5, 6, 12, 11>>, <<6, 1, 7, 12>>>>,
   parts |-> <<<<[i |-> 1, j |-> 0, c |-> 0, s |-> 1], [i |-> 1, j |-> 0, c |-> 2, s |-> -1], [i |-> 2, j |-> 0, c |-> 0, s |-> 1], [i |-> 2, j |-> 0, c |-> 1, s |-> -1], [i |-> 3, j |-> 0, c |-> 0, s |-> 1], [i |-> 3, j |-> 0, c |-> 2, s |-> -1]>>, <<[i |-> 1, j |-> 0, c |-> 0, s |-> 1], [i |-> 1, j |-> 0, c |-> 1, s |-> -1], [i |-> 2, j |-> 0, c |-> 0, s |-> 1], [i |-> 2, j |-> 0, c |-> 2, s |-> -1], [i |-> 3, j |-> 0, c |-> 0, s |-> 1], [i |-> 3, j |-> 0, c |-> 2, s |-> -1]>>>>,
   minus |-> <<>>],
  [name |-> "Uprism", kind |-> "poly", convex |-> FALSE,
   verts |-> <<<<0, 0, 0>>, <<3, 0, 0>>, <<3, 2, 0>>, <<2, 2, 0>>, <<2, 1, 0>>, <<1, 1, 0>>, <<1, 2, 0>>, <<0, 2, 0>>, <<0, 0, 2>>, <<3, 0, 2>>, <<3, 2, 2>>, <<2, 2, 2>>, <<2, 1, 2>>, <<1, 1, 2>>, <<1, 2, 2>>, <<0, 2, 2>>>>,
   faces |-> <<<<8, 7, 6, 5, 4, 3, 2, 1>>, <<9, 10, 11, 12, 13, 14, 15, 16>>, <<1, 2, 10, 9>>, <<2, 3, 11, 10>>, <<3, 4, 12, 11>>, <<4, 5, 13, 12>>, <<5, 6, 14, 13>>, <<6, 7, 15, 14>>, <<7, 8, 16, 15>>, <<8, 1, 9, 16>>>>,
   parts |-> <<<<[i |-> 1, j |-> 0, c |-> 0, s |-> 1], [i |-> 1, j |-> 0, c |-> 3, s |-> -1], [i |-> 2, j |-> 0, c |-> 0, s |-> 1], [i |-> 2, j |-> 0, c |-> 1, s |-> -1], [i |-> 3, j |-> 0, c |-> 0, s |-> 1], [i |-> 3, j |-> 0, c |-> 2, s |-> -1]>>, <<[i |-> 1, j |-> 0, c |-> 0, s |-> 1], [i |-> 1, j |-> 0, c |-> 1, s |-> -1], [i |-> 2, j |-> 0, c |-> 0, s |-> 1], [i |-> 2, j |-> 0, c |-> 2, s |-> -1], [i |-> 3, j |-> 0, c |-> 0, s |-> 1], [i |-> 3, j |-> 0, c |-> 2, s |-> -1]>>, <<[i |-> 1, j |-> 0, c |-> 2, s |-> 1], [i |-> 1, j |-> 0, c |-> 3, s |-> -1], [i |-> 2, j |-> 0, c |-> 0, s |-> 1], [i |-> 2, j |-> 0, c |-> 2, s |-> -1], [i |-> 3, j |-> 0, c |-> 0, s |-> 1], [i |-> 3, j |-> 0, c |-> 2, s |-> -1]>>>>,
   minus |-> <<>>],
  [name |-> "arrow", kind |-> "poly", convex |-> FALSE,
   verts |-> <<<<0, 0, 1>>, <<3, 0, 1>>, <<3, 3, 1>>, <<2, 2, 1>>, <<1, 2, 1>>, <<1, 1, 1>>, <<0, 0, 3>>, <<3, 0, 3>>, <<3, 3, 3>>, <<2, 2, 3>>, <<1, 2, 3>>, <<1, 1, 3>>>>,
   faces |-> <<<<6, 5, 4, 3, 2, 1>>, <<7, 8, 9, 10, 11, 12>>, <<1, 2, 8, 7>>, <<2, 3, 9, 8>>, <<3, 4, 10, 9>>, <<4, 5, 11, 10>>, <<5, 6, 12, 11>>, <<6, 1, 7, 12>>>>,
   parts |-> <<<<[i |-> 1, j |-> 0, c |-> 0, s |-> 1], [i |-> 1, j |-> 0, c |-> 3, s |-> -1], [i |-> 2, j |-> 0, c |-> 0, s |-> 1], [i |-> 2, j |-> 0, c |-> 3, s |-> -1], [i |-> 1, j |-> 2, c |-> 0, s |-> 1], [i |-> 2, j |-> 0, c |-> 1, s |-> -1], [i |-> 3, j |-> 0, c |-> 1, s |-> 1], [i |-> 3, j |-> 0, c |-> 3, s |-> -1]>>, <<[i |-> 1, j |-> 0, c |-> 1, s |-> 1], [i |-> 1, j |-> 0, c |-> 2, s |-> -1], [i |-> 2, j |-> 0, c |-> 1, s |-> 1], [i |-> 2, j |-> 0, c |-> 2, s |-> -1], [i |-> 3, j |-> 0, c |-> 1, s |-> 1], [i |-> 3, j |-> 0, c |-> 3, s |-> -1]>>, <<[i |-> 1, j |-> 0, c |-> 2, s |-> 1], [i |-> 1, j |-> 0, c |-> 3, s |-> -1], [i |-> 2, j |-> 0, c |-> 1, s |-> 1], [i |-> 2, j |-> 0, c |-> 3, s |-> -1], [i |-> 1, j |-> 2, c |-> 0, s |-> 1], [i |-> 3, j |-> 0, c |-> 1, s |-> 1], [i |-> 3, j |-> 0, c |-> 3, s |-> -1]>>>>,
   minus |-> <<>>],
  [name |-> "torus", kind |-> "poly", convex |-> FALSE,
   verts |-> <<<<0, 0, 0>>, <<3, 0, 0>>, <<3, 3, 0>>, <<0, 3, 0>>, <<1, 1, 0>>, <<2, 1, 0>>, <<2, 2, 0>>, <<1, 2, 0>>, <<0, 0, 2>>, <<3, 0, 2>>, <<3, 3, 2>>, <<0, 3, 2>>, <<1, 1, 2>>, <<2, 1, 2>>, <<2, 2, 2>>, <<1, 2, 2>>>>,
   faces |-> <<<<2, 1, 5, 6>>, <<9, 10, 14, 13>>, <<1, 2, 10, 9>>, <<6, 5, 13, 14>>, <<3, 2, 6, 7>>, <<10, 11, 15, 14>>, <<2, 3, 11, 10>>, <<7, 6, 14, 15>>, <<4, 3, 7, 8>>, <<11, 12, 16, 15>>, <<3, 4, 12, 11>>, <<8, 7, 15, 16>>, <<1, 4, 8, 5>>, <<12, 9, 13, 16>>, <<4, 1, 9, 12>>, <<5, 8, 16, 13>>>>,
   parts |-> <<<<[i |-> 1, j |-> 0, c |-> 0, s |-> 1], [i |-> 1, j |-> 0, c |-> 3, s |-> -1], [i |-> 2, j |-> 0, c |-> 0, s |-> 1], [i |-> 2, j |-> 0, c |-> 1, s |-> -1], [i |-> 3, j |-> 0, c |-> 0, s |-> 1], [i |-> 3, j |-> 0, c |-> 2, s |-> -1]>>, <<[i |-> 1, j |-> 0, c |-> 0, s |-> 1], [i |-> 1, j |-> 0, c |-> 3, s |-> -1], [i |-> 2, j |-> 0, c |-> 2, s |-> 1], [i |-> 2, j |-> 0, c |-> 3, s |-> -1], [i |-> 3, j |-> 0, c |-> 0, s |-> 1], [i |-> 3, j |-> 0, c |-> 2, s |-> -1]>>, <<[i |-> 1, j |-> 0, c |-> 0, s |-> 1], [i |-> 1, j |-> 0, c |-> 1, s |-> -1], [i |-> 2, j |-> 0, c |-> 0, s |-> 1], [i |-> 2, j |-> 0, c |-> 3, s |-> -1], [i |-> 3, j |-> 0, c |-> 0, s |-> 1], [i |-> 3, j |-> 0, c |-> 2, s |-> -1]>>, <<[i |-> 1, j |-> 0, c |-> 2, s |-> 1], [i |-> 1, j |-> 0, c |-> 3, s |-> -1], [i |-> 2, j |-> 0, c |-> 0, s |-> 1], [i |-> 2, j |-> 0, c |-> 3, s |-> -1], [i |-> 3, j |-> 0, c |-> 0, s |-> 1], [i |-> 3, j |-> 0, c |-> 2, s |-> -1]>>>>,
   minus |-> <<>>],
  [name |-> "twoboxes", kind |-> "poly", convex |-> FALSE,
   verts |-> <<<<0, 0, 0>>, <<0, 0, 2>>, <<0, 3, 0>>, <<0, 3, 2>>, <<1, 0, 0>>, <<1, 0, 2>>, <<1, 3, 0>>, <<1, 3, 2>>, <<2, 1, 1>>, <<2, 1, 3>>, <<2, 3, 1>>, <<2, 3, 3>>, <<3, 1, 1>>, <<3, 1, 3>>, <<3, 3, 1>>, <<3, 3, 3>>>>,
   faces |-> <<<<3, 1, 2, 4>>, <<6, 5, 7, 8>>, <<2, 1, 5, 6>>, <<7, 3, 4, 8>>, <<5, 1, 3, 7>>, <<4, 2, 6, 8>>, <<11, 9, 10, 12>>, <<14, 13, 15, 16>>, <<10, 9, 13, 14>>, <<15, 11, 12, 16>>, <<13, 9, 11, 15>>, <<12, 10, 14, 16>>>>,
   parts |-> <<<<[i |-> 1, j |-> 0, c |-> 0, s |-> 1], [i |-> 1, j |-> 0, c |-> 1, s |-> -1], [i |-> 2, j |-> 0, c |-> 0, s |-> 1], [i |-> 2, j |-> 0, c |-> 3, s |-> -1], [i |-> 3, j |-> 0, c |-> 0, s |-> 1], [i |-> 3, j |-> 0, c |-> 2, s |-> -1]>>, <<[i |-> 1, j |-> 0, c |-> 2, s |-> 1], [i |-> 1, j |-> 0, c |-> 3, s |-> -1], [i |-> 2, j |-> 0, c |-> 1, s |-> 1], [i |-> 2, j |-> 0, c |-> 3, s |-> -1], [i |-> 3, j |-> 0, c |-> 1, s |-> 1], [i |-> 3, j |-> 0, c |-> 3, s |-> -1]>>>>,
   minus |-> <<>>],
  [name |-> "boxtet", kind |-> "poly", convex |-> FALSE,
   verts |-> <<<<0, 0, 0>>, <<0, 0, 1>>, <<0, 2, 0>>, <<0, 2, 1>>, <<1, 0, 0>>, <<1, 0, 1>>, <<1, 2, 0>>, <<1, 2, 1>>, <<1, 1, 1>>, <<3, 3, 1>>, <<1, 3, 1>>, <<3, 3, 3>>>>,
   faces |-> <<<<3, 1, 2, 4>>, <<6, 5, 7, 8>>, <<2, 1, 5, 6>>, <<7, 3, 4, 8>>, <<5, 1, 3, 7>>, <<4, 2, 6, 8>>, <<10, 11, 12>>, <<9, 12, 11>>, <<9, 10, 12>>, <<9, 11, 10>>>>,
   parts |-> <<<<[i |-> 1, j |-> 0, c |-> 0, s |-> 1], [i |-> 1, j |-> 0, c |-> 1, s |-> -1], [i |-> 2, j |-> 0, c |-> 0, s |-> 1], [i |-> 2, j |-> 0, c |-> 2, s |-> -1], [i |-> 3, j |-> 0, c |-> 0, s |-> 1], [i |-> 3, j |-> 0, c |-> 1, s |-> -1]>>, <<[i |-> 2, j |-> 0, c |-> 3, s |-> -1], [i |-> 3, j |-> 0, c |-> 1, s |-> 1], [i |-> 1, j |-> 2, c |-> 0, s |-> -1], [i |-> 1, j |-> 3, c |-> 0, s |-> 1]>>>>,
   minus |-> <<>>],
  [name |-> "cavity", kind |-> "poly", convex |-> FALSE,
   verts |-> <<<<0, 0, 0>>, <<0, 0, 3>>, <<0, 3, 0>>, <<0, 3, 3>>, <<3, 0, 0>>, <<3, 0, 3>>, <<3, 3, 0>>, <<3, 3, 3>>, <<1, 1, 1>>, <<1, 1, 2>>, <<1, 2, 1>>, <<1, 2, 2>>, <<2, 1, 1>>, <<2, 1, 2>>, <<2, 2, 1>>, <<2, 2, 2>>>>,
   faces |-> <<<<3, 1, 2, 4>>, <<6, 5, 7, 8>>, <<2, 1, 5, 6>>, <<7, 3, 4, 8>>, <<5, 1, 3, 7>>, <<4, 2, 6, 8>>, <<12, 10, 9, 11>>, <<16, 15, 13, 14>>, <<14, 13, 9, 10>>, <<16, 12, 11, 15>>, <<15, 11, 9, 13>>, <<16, 14, 10, 12>>>>,
   parts |-> <<<<[i |-> 1, j |-> 0, c |-> 0, s |-> 1], [i |-> 1, j |-> 0, c |-> 3, s |-> -1], [i |-> 2, j |-> 0, c |-> 0, s |-> 1], [i |-> 2, j |-> 0, c |-> 3, s |-> -1], [i |-> 3, j |-> 0, c |-> 0, s |-> 1], [i |-> 3, j |-> 0, c |-> 3, s |-> -1]>>>>,
   minus |-> <<<<[i |-> 1, j |-> 0, c |-> 1, s |-> 1], [i |-> 1, j |-> 0, c |-> 2, s |-> -1], [i |-> 2, j |-> 0, c |-> 1, s |-> 1], [i |-> 2, j |-> 0, c |-> 2, s |-> -1], [i |-> 3, j |-> 0, c |-> 1, s |-> 1], [i |-> 3, j |-> 0, c |-> 2, s |-> -1]>>>>],
  [name |-> "pyrcav", kind |-> "poly", convex |-> FALSE,
   verts |-> <<<<0, 0, 0>>, <<0, 0, 3>>, <<0, 3, 0>>, <<0, 3, 3>>, <<3, 0, 0>>, <<3, 0, 3>>, <<3, 3, 0>>, <<3, 3, 3>>, <<1, 1, 1>>, <<2, 1, 1>>, <<2, 2, 1>>, <<2, 2, 2>>>>,
   faces |-> <<<<3, 1, 2, 4>>, <<6, 5, 7, 8>>, <<2, 1, 5, 6>>, <<7, 3, 4, 8>>, <<5, 1, 3, 7>>, <<4, 2, 6, 8>>, <<12, 11, 10>>, <<11, 12, 9>>, <<12, 10, 9>>, <<10, 11, 9>>>>,
   parts |-> <<<<[i |-> 1, j |-> 0, c |-> 0, s |-> 1], [i |-> 1, j |-> 0, c |-> 3, s |-> -1], [i |-> 2, j |-> 0, c |-> 0, s |-> 1], [i |-> 2, j |-> 0, c |-> 3, s |-> -1], [i |-> 3, j |-> 0, c |-> 0, s |-> 1], [i |-> 3, j |-> 0, c |-> 3, s |-> -1]>>>>,
   minus |-> <<<<[i |-> 1, j |-> 0, c |-> 2, s |-> -1], [i |-> 3, j |-> 0, c |-> 1, s |-> 1], [i |-> 1, j |-> 2, c |-> 0, s |-> 1], [i |-> 2, j |-> 3, c |-> 0, s |-> 1]>>>>]
>>

ShapeIds == 1..Len(ShapeSeq)
ShapeT == [s \in ShapeIds |-> ShapeSeq[s]]
Content(s) == UNION {Region(s.parts[k]) : k \in DOMAIN s.parts} \ UNION {Region(s.minus[k]) : k \in DOMAIN s.minus}
ContentT == [s \in ShapeIds |-> Content(ShapeT[s])]

(* the boundary description encloses exactly the content: six times the signed volume (sum over
   face fans) equals the number of atoms, every directed edge has its reverse exactly once *)
Det3(a, b, c) == a[1] * (b[2] * c[3] - b[3] * c[2]) - a[2] * (b[1] * c[3] - b[3] * c[1]) + a[3] * (b[1] * c[2] - b[2] * c[1])
FaceVol(s, f) == Sum(2..(Len(f) - 1), LAMBDA k : Det3(s.verts[f[1]], s.verts[f[k]], s.verts[f[k + 1]]))
SixVol(s) == Sum(DOMAIN s.faces, LAMBDA k : FaceVol(s, s.faces[k]))
DirEdges(s) == UNION {{<<k, m>> : m \in DOMAIN s.faces[k]} : k \in DOMAIN s.faces}
EdgeEnds(s, e) == LET f == s.faces[e[1]] IN <<f[e[2]], f[(e[2] % Len(f)) + 1]>>
ClosedBoundary(s) ==
    LET E == {EdgeEnds(s, e) : e \in DirEdges(s)}
    IN /\ Cardinality(E) = Cardinality(DirEdges(s))
       /\ \A e \in E : <<e[2], e[1]>> \in E
ShapesOK == \A s \in ShapeIds : SixVol(ShapeT[s]) = Cardinality(ContentT[s]) /\ ClosedBoundary(ShapeT[s]) /\ ContentT[s] # {}
=============================================================================
