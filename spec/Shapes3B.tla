------------------------------ MODULE Shapes3B ------------------------------
(* generated by tools/mkshapes.py *)
EXTENDS Lattice

ShapeSeq == <<
  [name |-> "quad333", kind |-> "poly", convex |-> FALSE,
   verts |-> <<<<0, 0, 1>>, <<0, 1, 1>>, <<0, 1, 0>>, <<0, 0, 0>>, <<1, 0, 0>>, <<1, 0, 1>>, <<1, 1, 0>>, <<0, 0, 2>>, <<0, 1, 2>>, <<1, 0, 2>>, <<0, 0, 3>>, <<0, 1, 3>>, <<1, 0, 3>>, <<1, 1, 3>>, <<0, 2, 1>>, <<0, 2, 0>>, <<1, 2, 0>>, <<0, 2, 2>>, <<0, 2, 3>>, <<1, 2, 3>>, <<0, 3, 1>>, <<0, 3, 0>>, <<1, 3, 1>>, <<1, 3, 0>>, <<0, 3, 2>>, <<1, 3, 2>>, <<0, 3, 3>>, <<1, 3, 3>>, <<2, 0, 0>>, <<2, 0, 1>>, <<2, 1, 0>>, <<2, 0, 2>>, <<2, 0, 3>>, <<2, 1, 3>>, <<2, 2, 0>>, <<2, 2, 3>>, <<2, 3, 1>>, <<2, 3, 0>>, <<2, 3, 2>>, <<2, 3, 3>>, <<3, 0, 0>>, <<3, 1, 0>>, <<3, 1, 1>>, <<3, 0, 1>>, <<3, 1, 2>>, <<3, 0, 2>>, <<3, 1, 3>>, <<3, 0, 3>>, <<3, 2, 0>>, <<3, 2, 1>>, <<3, 2, 2>>, <<3, 2, 3>>, <<3, 3, 0>>, <<3, 3, 1>>, <<3, 3, 2>>, <<3, 3, 3>>>>,
   faces |-> <<<<1, 2, 3, 4>>, <<5, 6, 1, 4>>, <<3, 7, 5, 4>>, <<8, 9, 2, 1>>, <<6, 10, 8, 1>>, <<11, 12, 9, 8>>, <<10, 13, 11, 8>>, <<11, 13, 14, 12>>, <<2, 15, 16, 3>>, <<16, 17, 7, 3>>, <<9, 18, 15, 2>>, <<12, 19, 18, 9>>, <<12, 14, 20, 19>>, <<15, 21, 22, 16>>, <<22, 21, 23, 24>>, <<22, 24, 17, 16>>, <<18, 25, 21, 15>>, <<21, 25, 26, 23>>, <<19, 27, 25, 18>>, <<25, 27, 28, 26>>, <<19, 20, 28, 27>>, <<29, 30, 6, 5>>, <<7, 31, 29, 5>>, <<30, 32, 10, 6>>, <<32, 33, 13, 10>>, <<13, 33, 34, 14>>, <<17, 35, 31, 7>>, <<14, 34, 36, 20>>, <<24, 23, 37, 38>>, <<24, 38, 35, 17>>, <<23, 26, 39, 37>>, <<26, 28, 40, 39>>, <<20, 36, 40, 28>>, <<41, 42, 43, 44>>, <<41, 44, 30, 29>>, <<31, 42, 41, 29>>, <<44, 43, 45, 46>>, <<44, 46, 32, 30>>, <<46, 45, 47, 48>>, <<46, 48, 33, 32>>, <<33, 48, 47, 34>>, <<42, 49, 50, 43>>, <<35, 49, 42, 31>>, <<43, 50, 51, 45>>, <<45, 51, 52, 47>>, <<34, 47, 52, 36>>, <<49, 53, 54, 50>>, <<38, 37, 54, 53>>, <<38, 53, 49, 35>>, <<50, 54, 55, 51>>, <<37, 39, 55, 54>>, <<51, 55, 56, 52>>, <<39, 40, 56, 55>>, <<36, 52, 56, 40>>>>,
   parts |-> <<<<[i |-> 1, j |-> 0, c |-> 0, s |-> 1], [i |-> 1, j |-> 0, c |-> 1, s |-> -1], [i |-> 2, j |-> 0, c |-> 0, s |-> 1], [i |-> 2, j |-> 0, c |-> 1, s |-> -1], [i |-> 3, j |-> 0, c |-> 0, s |-> 1], [i |-> 3, j |-> 0, c |-> 1, s |-> -1]>>, <<[i |-> 1, j |-> 0, c |-> 0, s |-> 1], [i |-> 1, j |-> 0, c |-> 1, s |-> -1], [i |-> 2, j |-> 0, c |-> 0, s |-> 1], [i |-> 2, j |-> 0, c |-> 1, s |-> -1], [i |-> 3, j |-> 0, c |-> 1, s |-> 1], [i |-> 3, j |-> 0, c |-> 2, s |-> -1]>>, <<[i |-> 1, j |-> 0, c |-> 0, s |-> 1], [i |-> 1, j |-> 0, c |-> 1, s |-> -1], [i |-> 2, j |-> 0, c |-> 0, s |-> 1], [i |-> 2, j |-> 0, c |-> 1, s |-> -1], [i |-> 3, j |-> 0, c |-> 2, s |-> 1], [i |-> 3, j |-> 0, c |-> 3, s |-> -1]>>, <<[i |-> 1, j |-> 0, c |-> 0, s |-> 1], [i |-> 1, j |-> 0, c |-> 1, s |-> -1], [i |-> 2, j |-> 0, c |-> 1, s |-> 1], [i |-> 2, j |-> 0, c |-> 2, s |-> -1], [i |-> 3, j |-> 0, c |-> 0, s |-> 1], [i |-> 3, j |-> 0, c |-> 1, s |-> -1]>>, <<[i |-> 1, j |-> 0, c |-> 0, s |-> 1], [i |-> 1, j |-> 0, c |-> 1, s |-> -1], [i |-> 2, j |-> 0, c |-> 1, s |-> 1], [i |-> 2, j |-> 0, c |-> 2, s |-> -1], [i |-> 3, j |-> 0, c |-> 1, s |-> 1], [i |-> 3, j |-> 0, c |-> 2, s |-> -1]>>, <<[i |-> 1, j |-> 0, c |-> 0, s |-> 1], [i |-> 1, j |-> 0, c |-> 1, s |-> -1], [i |-> 2, j |-> 0, c |-> 1, s |-> 1], [i |-> 2, j |-> 0, c |-> 2, s |-> -1], [i |-> 3, j |-> 0, c |-> 2, s |-> 1], [i |-> 3, j |-> 0, c |-> 3, s |-> -1]>>, <<[i |-> 1, j |-> 0, c |-> 0, s |-> 1], [i |-> 1, j |-> 0, c |-> 1, s |-> -1], [i |-> 2, j |-> 0, c |-> 2, s |-> 1], [i |-> 2, j |-> 0, c |-> 3, s |-> -1], [i |-> 3, j |-> 0, c |-> 0, s |-> 1], [i |-> 3, j |-> 0, c |-> 1, s |-> -1]>>, <<[i |-> 1, j |-> 0, c |-> 0, s |-> 1], [i |-> 1, j |-> 0, c |-> 1, s |-> -1], [i |-> 2, j |-> 0, c |-> 2, s |-> 1], [i |-> 2, j |-> 0, c |-> 3, s |-> -1], [i |-> 3, j |-> 0, c |-> 1, s |-> 1], [i |-> 3, j |-> 0, c |-> 2, s |-> -1]>>, <<[i |-> 1, j |-> 0, c |-> 0, s |-> 1], [i |-> 1, j |-> 0, c |-> 1, s |-> -1], [i |-> 2, j |-> 0, c |-> 2, s |-> 1], [i |-> 2, j |-> 0, c |-> 3, s |-> -1], [i |-> 3, j |-> 0, c |-> 2, s |-> 1], [i |-> 3, j |-> 0, c |-> 3, s |-> -1]>>, <<[i |-> 1, j |-> 0, c |-> 1, s |-> 1], [i |-> 1, j |-> 0, c |-> 2, s |-> -1], [i |-> 2, j |-> 0, c |-> 0, s |-> 1], [i |-> 2, j |-> 0, c |-> 1, s |-> -1], [i |-> 3, j |-> 0, c |-> 0, s |-> 1], [i |-> 3, j |-> 0, c |-> 1, s |-> -1]>>, <<[i |-> 1, j |-> 0, c |-> 1, s |-> 1], [i |-> 1, j |-> 0, c |-> 2, s |-> -1], [i |-> 2, j |-> 0, c |-> 0, s |-> 1], [i |-> 2, j |-> 0, c |-> 1, s |-> -1], [i |-> 3, j |-> 0, c |-> 1, s |-> 1], [i |-> 3, j |-> 0, c |-> 2, s |-> -1]>>, <<[i |-> 1, j |-> 0, c |-> 1, s |-> 1], [i |-> 1, j |-> 0, c |-> 2, s |-> -1], [i |-> 2, j |-> 0, c |-> 0, s |-> 1], [i |-> 2, j |-> 0, c |-> 1, s |-> -1], [i |-> 3, j |-> 0, c |-> 2, s |-> 1], [i |-> 3, j |-> 0, c |-> 3, s |-> -1]>>, <<[i |-> 1, j |-> 0, c |-> 1, s |-> 1], [i |-> 1, j |-> 0, c |-> 2, s |-> -1], [i |-> 2, j |-> 0, c |-> 1, s |-> 1], [i |-> 2, j |-> 0, c |-> 2, s |-> -1], [i |-> 3, j |-> 0, c |-> 0, s |-> 1], [i |-> 3, j |-> 0, c |-> 1, s |-> -1]>>, <<[i |-> 1, j |-> 0, c |-> 1, s |-> 1], [i |-> 1, j |-> 0, c |-> 2, s |-> -1], [i |-> 2, j |-> 0, c |-> 1, s |-> 1], [i |-> 2, j |-> 0, c |-> 2, s |-> -1], [i |-> 3, j |-> 0, c |-> 1, s |-> 1], [i |-> 3, j |-> 0, c |-> 2, s |-> -1]>>, <<[i |-> 1, j |-> 0, c |-> 1, s |-> 1], [i |-> 1, j |-> 0, c |-> 2, s |-> -1], [i |-> 2, j |-> 0, c |-> 1, s |-> 1], [i |-> 2, j |-> 0, c |-> 2, s |-> -1], [i |-> 3, j |-> 0, c |-> 2, s |-> 1], [i |-> 3, j |-> 0, c |-> 3, s |-> -1]>>, <<[i |-> 1, j |-> 0, c |-> 1, s |-> 1], [i |-> 1, j |-> 0, c |-> 2, s |-> -1], [i |-> 2, j |-> 0, c |-> 2, s |-> 1], [i |-> 2, j |-> 0, c |-> 3, s |-> -1], [i |-> 3, j |-> 0, c |-> 0, s |-> 1], [i |-> 3, j |-> 0, c |-> 1, s |-> -1]>>, <<[i |-> 1, j |-> 0, c |-> 1, s |-> 1], [i |-> 1, j |-> 0, c |-> 2, s |-> -1], [i |-> 2, j |-> 0, c |-> 2, s |-> 1], [i |-> 2, j |-> 0, c |-> 3, s |-> -1], [i |-> 3, j |-> 0, c |-> 1, s |-> 1], [i |-> 3, j |-> 0, c |-> 2, s |-> -1]>>, <<[i |-> 1, j |-> 0, c |-> 1, s |-> 1], [i |-> 1, j |-> 0, c |-> 2, s |-> -1], [i |-> 2, j |-> 0, c |-> 2, s |-> 1], [i |-> 2, j |-> 0, c |-> 3, s |-> -1], [i |-> 3, j |-> 0, c |-> 2, s |-> 1], [i |-> 3, j |-> 0, c |-> 3, s |-> -1]>>, <<[i |-> 1, j |-> 0, c |-> 2, s |-> 1], [i |-> 1, j |-> 0, c |-> 3, s |-> -1], [i |-> 2, j |-> 0, c |-> 0, s |-> 1], [i |-> 2, j |-> 0, c |-> 1, s |-> -1], [i |-> 3, j |-> 0, c |-> 0, s |-> 1], [i |-> 3, j |-> 0, c |-> 1, s |-> -1]>>, <<[i |-> 1, j |-> 0, c |-> 2, s |-> 1], [i |-> 1, j |-> 0, c |-> 3, s |-> -1], [i |-> 2, j |-> 0, c |-> 0, s |-> 1], [i |-> 2, j |-> 0, c |-> 1, s |-> -1], [i |-> 3, j |-> 0, c |-> 1, s |-> 1], [i |-> 3, j |-> 0, c |-> 2, s |-> -1]>>, <<[i |-> 1, j |-> 0, c |-> 2, s |-> 1], [i |-> 1, j |-> 0, c |-> 3, s |-> -1], [i |-> 2, j |-> 0, c |-> 0, s |-> 1], [i |-> 2, j |-> 0, c |-> 1, s |-> -1], [i |-> 3, j |-> 0, c |-> 2, s |-> 1], [i |-> 3, j |-> 0, c |-> 3, s |-> -1]>>, <<[i |-> 1, j |-> 0, c |-> 2, s |-> 1], [i |-> 1, j |-> 0, c |-> 3, s |-> -1], [i |-> 2, j |-> 0, c |-> 1, s |-> 1], [i |-> 2, j |-> 0, c |-> 2, s |-> -1], [i |-> 3, j |-> 0, c |-> 0, s |-> 1], [i |-> 3, j |-> 0, c |-> 1, s |-> -1]>>, <<[i |-> 1, j |-> 0, c |-> 2, s |-> 1], [i |-> 1, j |-> 0, c |-> 3, s |-> -1], [i |-> 2, j |-> 0, c |-> 1, s |-> 1], [i |-> 2, j |-> 0, c |-> 2, s |-> -1], [i |-> 3, j |-> 0, c |-> 1, s |-> 1], [i |-> 3, j |-> 0, c |-> 2, s |-> -1]>>, <<[i |-> 1, j |-> 0, c |-> 2, s |-> 1], [i |-> 1, j |-> 0, c |-> 3, s |-> -1], [i |-> 2, j |-> 0, c |-> 1, s |-> 1], [i |-> 2, j |-> 0, c |-> 2, s |-> -1], [i |-> 3, j |-> 0, c |-> 2, s |-> 1], [i |-> 3, j |-> 0, c |-> 3, s |-> -1]>>, <<[i |-> 1, j |-> 0, c |-> 2, s |-> 1], [i |-> 1, j |-> 0, c |-> 3, s |-> -1], [i |-> 2, j |-> 0, c |-> 2, s |-> 1], [i |-> 2, j |-> 0, c |-> 3, s |-> -1], [i |-> 3, j |-> 0, c |-> 0, s |-> 1], [i |-> 3, j |-> 0, c |-> 1, s |-> -1]>>, <<[i |-> 1, j |-> 0, c |-> 2, s |-> 1], [i |-> 1, j |-> 0, c |-> 3, s |-> -1], [i |-> 2, j |-> 0, c |-> 2, s |-> 1], [i |-> 2, j |-> 0, c |-> 3, s |-> -1], [i |-> 3, j |-> 0, c |-> 1, s |-> 1], [i |-> 3, j |-> 0, c |-> 2, s |-> -1]>>, <<[i |-> 1, j |-> 0, c |-> 2, s |-> 1], [i |-> 1, j |-> 0, c |-> 3, s |-> -1], [i |-> 2, j |-> 0, c |-> 2, s |-> 1], [i |-> 2, j |-> 0, c |-> 3, s |-> -1], [i |-> 3, j |-> 0, c |-> 2, s |-> 1], [i |-> 3, j |-> 0, c |-> 3, s |-> -1]>>>>,
   minus |-> <<>>],
  [name |-> "quad414", kind |-> "poly", convex |-> FALSE,
   verts |-> <<<<0, 0, 1>>, <<0, 1, 1>>, <<0, 1, 0>>, <<0, 0, 0>>, <<1, 0, 0>>, <<1, 0, 1>>, <<1, 1, 1>>, <<1, 1, 0>>, <<0, 0, 2>>, <<0, 1, 2>>, <<1, 0, 2>>, <<1, 1, 2>>, <<0, 0, 3>>, <<0, 1, 3>>, <<1, 0, 3>>, <<1, 1, 3>>, <<0, 0, 4>>, <<0, 1, 4>>, <<1, 0, 4>>, <<1, 1, 4>>, <<2, 0, 0>>, <<2, 0, 1>>, <<2, 1, 1>>, <<2, 1, 0>>, <<2, 0, 2>>, <<2, 1, 2>>, <<2, 0, 3>>, <<2, 1, 3>>, <<2, 0, 4>>, <<2, 1, 4>>, <<3, 0, 0>>, <<3, 0, 1>>, <<3, 1, 1>>, <<3, 1, 0>>, <<3, 0, 2>>, <<3, 1, 2>>, <<3, 0, 3>>, <<3, 1, 3>>, <<3, 0, 4>>, <<3, 1, 4>>, <<4, 0, 0>>, <<4, 1, 0>>, <<4, 1, 1>>, <<4, 0, 1>>, <<4, 1, 2>>, <<4, 0, 2>>, <<4, 1, 3>>, <<4, 0, 3>>, <<4, 1, 4>>, <<4, 0, 4>>>>,
   faces |-> <<<<1, 2, 3, 4>>, <<5, 6, 1, 4>>, <<3, 2, 7, 8>>, <<3, 8, 5, 4>>, <<9, 10, 2, 1>>, <<6, 11, 9, 1>>, <<2, 10, 12, 7>>, <<13, 14, 10, 9>>, <<11, 15, 13, 9>>, <<10, 14, 16, 12>>, <<17, 18, 14, 13>>, <<15, 19, 17, 13>>, <<14, 18, 20, 16>>, <<17, 19, 20, 18>>, <<21, 22, 6, 5>>, <<8, 7, 23, 24>>, <<8, 24, 21, 5>>, <<22, 25, 11, 6>>, <<7, 12, 26, 23>>, <<25, 27, 15, 11>>, <<12, 16, 28, 26>>, <<27, 29, 19, 15>>, <<16, 20, 30, 28>>, <<19, 29, 30, 20>>, <<31, 32, 22, 21>>, <<24, 23, 33, 34>>, <<24, 34, 31, 21>>, <<32, 35, 25, 22>>, <<23, 26, 36, 33>>, <<35, 37, 27, 25>>, <<26, 28, 38, 36>>, <<37, 39, 29, 27>>, <<28, 30, 40, 38>>, <<29, 39, 40, 30>>, <<41, 42, 43, 44>>, <<41, 44, 32, 31>>, <<34, 33, 43, 42>>, <<34, 42, 41, 31>>, <<44, 43, 45, 46>>, <<44, 46, 35, 32>>, <<33, 36, 45, 43>>, <<46, 45, 47, 48>>, <<46, 48, 37, 35>>, <<36, 38, 47, 45>>, <<48, 47, 49, 50>>, <<48, 50, 39, 37>>, <<38, 40, 49, 47>>, <<39, 50, 49, 40>>>>,
   parts |-> <<<<[i |-> 1, j |-> 0, c |-> 0, s |-> 1], [i |-> 1, j |-> 0, c |-> 1, s |-> -1], [i |-> 2, j |-> 0, c |-> 0, s |-> 1], [i |-> 2, j |-> 0, c |-> 1, s |-> -1], [i |-> 3, j |-> 0, c |-> 0, s |-> 1], [i |-> 3, j |-> 0, c |-> 1, s |-> -1]>>, <<[i |-> 1, j |-> 0, c |-> 0, s |-> 1], [i |-> 1, j |-> 0, c |-> 1, s |-> -1], [i |-> 2, j |-> 0, c |-> 0, s |-> 1], [i |-> 2, j |-> 0, c |-> 1, s |-> -1], [i |-> 3, j |-> 0, c |-> 1, s |-> 1], [i |-> 3, j |-> 0, c |-> 2, s |-> -1]>>, <<[i |-> 1, j |-> 0, c |-> 0, s |-> 1], [i |-> 1, j |-> 0, c |-> 1, s |-> -1], [i |-> 2, j |-> 0, c |-> 0, s |-> 1], [i |-> 2, j |-> 0, c |-> 1, s |-> -1], [i |-> 3, j |-> 0, c |-> 2, s |-> 1], [i |-> 3, j |-> 0, c |-> 3, s |-> -1]>>, <<[i |-> 1, j |-> 0, c |-> 0, s |-> 1], [i |-> 1, j |-> 0, c |-> 1, s |-> -1], [i |-> 2, j |-> 0, c |-> 0, s |-> 1], [i |-> 2, j |-> 0, c |-> 1, s |-> -1], [i |-> 3, j |-> 0, c |-> 3, s |-> 1], [i |-> 3, j |-> 0, c |-> 4, s |-> -1]>>, <<[i |-> 1, j |-> 0, c |-> 1, s |-> 1], [i |-> 1, j |-> 0, c |-> 2, s |-> -1], [i |-> 2, j |-> 0, c |-> 0, s |-> 1], [i |-> 2, j |-> 0, c |-> 1, s |-> -1], [i |-> 3, j |-> 0, c |-> 0, s |-> 1], [i |-> 3, j |-> 0, c |-> 1, s |-> -1]>>, <<[i |-> 1, j |-> 0, c |-> 1, s |-> 1], [i |-> 1, j |-> 0, c |-> 2, s |-> -1], [i |-> 2, j |-> 0, c |-> 0, s |-> 1], [i |-> 2, j |-> 0, c |-> 1, s |-> -1], [i |-> 3, j |-> 0, c |-> 1, s |-> 1], [i |-> 3, j |-> 0, c |-> 2, s |-> -1]>>, <<[i |-> 1, j |-> 0, c |-> 1, s |-> 1], [i |-> 1, j |-> 0, c |-> 2, s |-> -1], [i |-> 2, j |-> 0, c |-> 0, s |-> 1], [i |-> 2, j |-> 0, c |-> 1, s |-> -1], [i |-> 3, j |-> 0, c |-> 2, s |-> 1], [i |-> 3, j |-> 0, c |-> 3, s |-> -1]>>, <<[i |-> 1, j |-> 0, c |-> 1, s |-> 1], [i |-> 1, j |-> 0, c |-> 2, s |-> -1], [i |-> 2, j |-> 0, c |-> 0, s |-> 1], [i |-> 2, j |-> 0, c |-> 1, s |-> -1], [i |-> 3, j |-> 0, c |-> 3, s |-> 1], [i |-> 3, j |-> 0, c |-> 4, s |-> -1]>>, <<[i |-> 1, j |-> 0, c |-> 2, s |-> 1], [i |-> 1, j |-> 0, c |-> 3, s |-> -1], [i |-> 2, j |-> 0, c |-> 0, s |-> 1], [i |-> 2, j |-> 0, c |-> 1, s |-> -1], [i |-> 3, j |-> 0, c |-> 0, s |-> 1], [i |-> 3, j |-> 0, c |-> 1, s |-> -1]>>, <<[i |-> 1, j |-> 0, c |-> 2, s |-> 1], [i |-> 1, j |-> 0, c |-> 3, s |-> -1], [i |-> 2, j |-> 0, c |-> 0, s |-> 1], [i |-> 2, j |-> 0, c |-> 1, s |-> -1], [i |-> 3, j |-> 0, c |-> 1, s |-> 1], [i |-> 3, j |-> 0, c |-> 2, s |-> -1]>>, <<[i |-> 1, j |-> 0, c |-> 2, s |-> 1], [i |-> 1, j |-> 0, c |-> 3, s |-> -1], [i |-> 2, j |-> 0, c |-> 0, s |-> 1], [i |-> 2, j |-> 0, c |-> 1, s |-> -1], [i |-> 3, j |-> 0, c |-> 2, s |-> 1], [i |-> 3, j |-> 0, c |-> 3, s |-> -1]>>, <<[i |-> 1, j |-> 0, c |-> 2, s |-> 1], [i |-> 1, j |-> 0, c |-> 3, s |-> -1], [i |-> 2, j |-> 0, c |-> 0, s |-> 1], [i |-> 2, j |-> 0, c |-> 1, s |-> -1], [i |-> 3, j |-> 0, c |-> 3, s |-> 1], [i |-> 3, j |-> 0, c |-> 4, s |-> -1]>>, <<[i |-> 1, j |-> 0, c |-> 3, s |-> 1], [i |-> 1, j |-> 0, c |-> 4, s |-> -1], [i |-> 2, j |-> 0, c |-> 0, s |-> 1], [i |-> 2, j |-> 0, c |-> 1, s |-> -1], [i |-> 3, j |-> 0, c |-> 0, s |-> 1], [i |-> 3, j |-> 0, c |-> 1, s |-> -1]>>, <<[i |-> 1, j |-> 0, c |-> 3, s |-> 1], [i |-> 1, j |-> 0, c |-> 4, s |-> -1], [i |-> 2, j |-> 0, c |-> 0, s |-> 1], [i |-> 2, j |-> 0, c |-> 1, s |-> -1], [i |-> 3, j |-> 0, c |-> 1, s |-> 1], [i |-> 3, j |-> 0, c |-> 2, s |-> -1]>>, <<[i |-> 1, j |-> 0, c |-> 3, s |-> 1], [i |-> 1, j |-> 0, c |-> 4, s |-> -1], [i |-> 2, j |-> 0, c |-> 0, s |-> 1], [i |-> 2, j |-> 0, c |-> 1, s |-> -1], [i |-> 3, j |-> 0, c |-> 2, s |-> 1], [i |-> 3, j |-> 0, c |-> 3, s |-> -1]>>, <<[i |-> 1, j |-> 0, c |-> 3, s |-> 1], [i |-> 1, j |-> 0, c |-> 4, s |-> -1], [i |-> 2, j |-> 0, c |-> 0, s |-> 1], [i |-> 2, j |-> 0, c |-> 1, s |-> -1], [i |-> 3, j |-> 0, c |-> 3, s |-> 1], [i |-> 3, j |-> 0, c |-> 4, s |-> -1]>>>>,
   minus |-> <<>>],
  [name |-> "tower", kind |-> "poly", convex |-> FALSE,
   verts |-> <<<<0, 0, 1>>, <<0, 1, 1>>, <<0, 1, 0>>, <<0, 0, 0>>, <<1, 0, 0>>, <<1, 0, 1>>, <<1, 1, 0>>, <<1, 1, 1>>, <<0, 2, 1>>, <<0, 2, 0>>, <<1, 2, 0>>, <<1, 2, 1>>, <<0, 3, 1>>, <<0, 3, 0>>, <<1, 3, 0>>, <<1, 3, 1>>, <<0, 4, 1>>, <<0, 4, 0>>, <<1, 4, 1>>, <<1, 4, 0>>, <<2, 0, 0>>, <<2, 0, 1>>, <<2, 1, 0>>, <<2, 1, 1>>, <<2, 2, 0>>, <<1, 1, 2>>, <<1, 2, 2>>, <<2, 1, 2>>, <<2, 2, 2>>, <<2, 3, 0>>, <<1, 3, 2>>, <<2, 3, 2>>, <<2, 4, 1>>, <<2, 4, 0>>, <<1, 4, 2>>, <<2, 4, 2>>, <<3, 0, 0>>, <<3, 0, 1>>, <<3, 1, 0>>, <<3, 1, 1>>, <<3, 2, 0>>, <<3, 1, 2>>, <<3, 2, 2>>, <<3, 3, 0>>, <<2, 2, 3>>, <<2, 3, 3>>, <<3, 2, 3>>, <<3, 3, 3>>, <<3, 4, 1>>, <<3, 4, 0>>, <<3, 4, 2>>, <<2, 4, 3>>, <<3, 4, 3>>, <<4, 0, 0>>, <<4, 1, 0>>, <<4, 1, 1>>, <<4, 0, 1>>, <<4, 2, 0>>, <<4, 2, 1>>, <<4, 2, 2>>, <<4, 1, 2>>, <<4, 3, 0>>, <<4, 3, 1>>, <<4, 3, 2>>, <<4, 3, 3>>, <<4, 2, 3>>, <<4, 4, 0>>, <<4, 4, 1>>, <<4, 4, 2>>, <<4, 4, 3>>, <<3, 3, 4>>, <<3, 4, 4>>, <<4, 4, 4>>, <<4, 3, 4>>>>,
   faces |-> <<<<1, 2, 3, 4>>, <<5, 6, 1, 4>>, <<3, 7, 5, 4>>, <<1, 6, 8, 2>>, <<2, 9, 10, 3>>, <<10, 11, 7, 3>>, <<2, 8, 12, 9>>, <<9, 13, 14, 10>>, <<14, 15, 11, 10>>, <<9, 12, 16, 13>>, <<13, 17, 18, 14>>, <<18, 17, 19, 20>>, <<18, 20, 15, 14>>, <<13, 16, 19, 17>>, <<21, 22, 6, 5>>, <<7, 23, 21, 5>>, <<6, 22, 24, 8>>, <<11, 25, 23, 7>>, <<26, 27, 12, 8>>, <<24, 28, 26, 8>>, <<26, 28, 29, 27>>, <<15, 30, 25, 11>>, <<27, 31, 16, 12>>, <<27, 29, 32, 31>>, <<20, 19, 33, 34>>, <<20, 34, 30, 15>>, <<31, 35, 19, 16>>, <<19, 35, 36, 33>>, <<31, 32, 36, 35>>, <<37, 38, 22, 21>>, <<23, 39, 37, 21>>, <<22, 38, 40, 24>>, <<25, 41, 39, 23>>, <<40, 42, 28, 24>>, <<28, 42, 43, 29>>, <<30, 44, 41, 25>>, <<45, 46, 32, 29>>, <<43, 47, 45, 29>>, <<45, 47, 48, 46>>, <<34, 33, 49, 50>>, <<34, 50, 44, 30>>, <<33, 36, 51, 49>>, <<46, 52, 36, 32>>, <<36, 52, 53, 51>>, <<46, 48, 53, 52>>, <<54, 55, 56, 57>>, <<54, 57, 38, 37>>, <<39, 55, 54, 37>>, <<38, 57, 56, 40>>, <<55, 58, 59, 56>>, <<41, 58, 55, 39>>, <<56, 59, 60, 61>>, <<56, 61, 42, 40>>, <<42, 61, 60, 43>>, <<58, 62, 63, 59>>, <<44, 62, 58, 41>>, <<59, 63, 64, 60>>, <<60, 64, 65, 66>>, <<60, 66, 47, 43>>, <<47, 66, 65, 48>>, <<62, 67, 68, 63>>, <<50, 49, 68, 67>>, <<50, 67, 62, 44>>, <<63, 68, 69, 64>>, <<49, 51, 69, 68>>, <<64, 69, 70, 65>>, <<51, 53, 70, 69>>, <<71, 72, 53, 48>>, <<65, 70, 73, 74>>, <<65, 74, 71, 48>>, <<53, 72, 73, 70>>, <<71, 74, 73, 72>>>>,
   parts |-> <<<<[i |-> 1, j |-> 0, c |-> 0, s |-> 1], [i |-> 1, j |-> 0, c |-> 1, s |-> -1], [i |-> 2, j |-> 0, c |-> 0, s |-> 1], [i |-> 2, j |-> 0, c |-> 1, s |-> -1], [i |-> 3, j |-> 0, c |-> 0, s |-> 1], [i |-> 3, j |-> 0, c |-> 1, s |-> -1]>>, <<[i |-> 1, j |-> 0, c |-> 0, s |-> 1], [i |-> 1, j |-> 0, c |-> 1, s |-> -1], [i |-> 2, j |-> 0, c |-> 1, s |-> 1], [i |-> 2, j |-> 0, c |-> 2, s |-> -1], [i |-> 3, j |-> 0, c |-> 0, s |-> 1], [i |-> 3, j |-> 0, c |-> 1, s |-> -1]>>, <<[i |-> 1, j |-> 0, c |-> 0, s |-> 1], [i |-> 1, j |-> 0, c |-> 1, s |-> -1], [i |-> 2, j |-> 0, c |-> 2, s |-> 1], [i |-> 2, j |-> 0, c |-> 3, s |-> -1], [i |-> 3, j |-> 0, c |-> 0, s |-> 1], [i |-> 3, j |-> 0, c |-> 1, s |-> -1]>>, <<[i |-> 1, j |-> 0, c |-> 0, s |-> 1], [i |-> 1, j |-> 0, c |-> 1, s |-> -1], [i |-> 2, j |-> 0, c |-> 3, s |-> 1], [i |-> 2, j |-> 0, c |-> 4, s |-> -1], [i |-> 3, j |-> 0, c |-> 0, s |-> 1], [i |-> 3, j |-> 0, c |-> 1, s |-> -1]>>, <<[i |-> 1, j |-> 0, c |-> 1, s |-> 1], [i |-> 1, j |-> 0, c |-> 2, s |-> -1], [i |-> 2, j |-> 0, c |-> 0, s |-> 1], [i |-> 2, j |-> 0, c |-> 1, s |-> -1], [i |-> 3, j |-> 0, c |-> 0, s |-> 1], [i |-> 3, j |-> 0, c |-> 1, s |-> -1]>>, <<[i |-> 1, j |-> 0, c |-> 1, s |-> 1], [i |-> 1, j |-> 0, c |-> 2, s |-> -1], [i |-> 2, j |-> 0, c |-> 1, s |-> 1], [i |-> 2, j |-> 0, c |-> 2, s |-> -1], [i |-> 3, j |-> 0, c |-> 0, s |-> 1], [i |-> 3, j |-> 0, c |-> 1, s |-> -1]>>, <<[i |-> 1, j |-> 0, c |-> 1, s |-> 1], [i |-> 1, j |-> 0, c |-> 2, s |-> -1], [i |-> 2, j |-> 0, c |-> 1, s |-> 1], [i |-> 2, j |-> 0, c |-> 2, s |-> -1], [i |-> 3, j |-> 0, c |-> 1, s |-> 1], [i |-> 3, j |-> 0, c |-> 2, s |-> -1]>>, <<[i |-> 1, j |-> 0, c |-> 1, s |-> 1], [i |-> 1, j |-> 0, c |-> 2, s |-> -1], [i |-> 2, j |-> 0, c |-> 2, s |-> 1], [i |-> 2, j |-> 0, c |-> 3, s |-> -1], [i |-> 3, j |-> 0, c |-> 0, s |-> 1], [i |-> 3, j |-> 0, c |-> 1, s |-> -1]>>, <<[i |-> 1, j |-> 0, c |-> 1, s |-> 1], [i |-> 1, j |-> 0, c |-> 2, s |-> -1], [i |-> 2, j |-> 0, c |-> 2, s |-> 1], [i |-> 2, j |-> 0, c |-> 3, s |-> -1], [i |-> 3, j |-> 0, c |-> 1, s |-> 1], [i |-> 3, j |-> 0, c |-> 2, s |-> -1]>>, <<[i |-> 1, j |-> 0, c |-> 1, s |-> 1], [i |-> 1, j |-> 0, c |-> 2, s |-> -1], [i |-> 2, j |-> 0, c |-> 3, s |-> 1], [i |-> 2, j |-> 0, c |-> 4, s |-> -1], [i |-> 3, j |-> 0, c |-> 0, s |-> 1], [i |-> 3, j |-> 0, c |-> 1, s |-> -1]>>, <<[i |-> 1, j |-> 0, c |-> 1, s |-> 1], [i |-> 1, j |-> 0, c |-> 2, s |-> -1], [i |-> 2, j |-> 0, c |-> 3, s |-> 1], [i |-> 2, j |-> 0, c |-> 4, s |-> -1], [i |-> 3, j |-> 0, c |-> 1, s |-> 1], [i |-> 3, j |-> 0, c |-> 2, s |-> -1]>>, <<[i |-> 1, j |-> 0, c |-> 2, s |-> 1], [i |-> 1, j |-> 0, c |-> 3, s |-> -1], [i |-> 2, j |-> 0, c |-> 0, s |-> 1], [i |-> 2, j |-> 0, c |-> 1, s |-> -1], [i |-> 3, j |-> 0, c |-> 0, s |-> 1], [i |-> 3, j |-> 0, c |-> 1, s |-> -1]>>, <<[i |-> 1, j |-> 0, c |-> 2, s |-> 1], [i |-> 1, j |-> 0, c |-> 3, s |-> -1], [i |-> 2, j |-> 0, c |-> 1, s |-> 1], [i |-> 2, j |-> 0, c |-> 2, s |-> -1], [i |-> 3, j |-> 0, c |-> 0, s |-> 1], [i |-> 3, j |-> 0, c |-> 1, s |-> -1]>>, <<[i |-> 1, j |-> 0, c |-> 2, s |-> 1], [i |-> 1, j |-> 0, c |-> 3, s |-> -1], [i |-> 2, j |-> 0, c |-> 1, s |-> 1], [i |-> 2, j |-> 0, c |-> 2, s |-> -1], [i |-> 3, j |-> 0, c |-> 1, s |-> 1], [i |-> 3, j |-> 0, c |-> 2, s |-> -1]>>, <<[i |-> 1, j |-> 0, c |-> 2, s |-> 1], [i |-> 1, j |-> 0, c |-> 3, s |-> -1], [i |-> 2, j |-> 0, c |-> 2, s |-> 1], [i |-> 2, j |-> 0, c |-> 3, s |-> -1], [i |-> 3, j |-> 0, c |-> 0, s |-> 1], [i |-> 3, j |-> 0, c |-> 1, s |-> -1]>>, <<[i |-> 1, j |-> 0, c |-> 2, s |-> 1], [i |-> 1, j |-> 0, c |-> 3, s |-> -1], [i |-> 2, j |-> 0, c |-> 2, s |-> 1], [i |-> 2, j |-> 0, c |-> 3, s |-> -1], [i |-> 3, j |-> 0, c |-> 1, s |-> 1], [i |-> 3, j |-> 0, c |-> 2, s |-> -1]>>, <<[i |-> 1, j |-> 0, c |-> 2, s |-> 1], [i |-> 1, j |-> 0, c |-> 3, s |-> -1], [i |-> 2, j |-> 0, c |-> 2, s |-> 1], [i |-> 2, j |-> 0, c |-> 3, s |-> -1], [i |-> 3, j |-> 0, c |-> 2, s |-> 1], [i |-> 3, j |-> 0, c |-> 3, s |-> -1]>>, <<[i |-> 1, j |-> 0, c |-> 2, s |-> 1], [i |-> 1, j |-> 0, c |-> 3, s |-> -1], [i |-> 2, j |-> 0, c |-> 3, s |-> 1], [i |-> 2, j |-> 0, c |-> 4, s |-> -1], [i |-> 3, j |-> 0, c |-> 0, s |-> 1], [i |-> 3, j |-> 0, c |-> 1, s |-> -1]>>, <<[i |-> 1, j |-> 0, c |-> 2, s |-> 1], [i |-> 1, j |-> 0, c |-> 3, s |-> -1], [i |-> 2, j |-> 0, c |-> 3, s |-> 1], [i |-> 2, j |-> 0, c |-> 4, s |-> -1], [i |-> 3, j |-> 0, c |-> 1, s |-> 1], [i |-> 3, j |-> 0, c |-> 2, s |-> -1]>>, <<[i |-> 1, j |-> 0, c |-> 2, s |-> 1], [i |-> 1, j |-> 0, c |-> 3, s |-> -1], [i |-> 2, j |-> 0, c |-> 3, s |-> 1], [i |-> 2, j |-> 0, c |-> 4, s |-> -1], [i |-> 3, j |-> 0, c |-> 2, s |-> 1], [i |-> 3, j |-> 0, c |-> 3, s |-> -1]>>, <<[i |-> 1, j |-> 0, c |-> 3, s |-> 1], [i |-> 1, j |-> 0, c |-> 4, s |-> -1], [i |-> 2, j |-> 0, c |-> 0, s |-> 1], [i |-> 2, j |-> 0, c |-> 1, s |-> -1], [i |-> 3, j |-> 0, c |-> 0, s |-> 1], [i |-> 3, j |-> 0, c |-> 1, s |-> -1]>>, <<[i |-> 1, j |-> 0, c |-> 3, s |-> 1], [i |-> 1, j |-> 0, c |-> 4, s |-> -1], [i |-> 2, j |-> 0, c |-> 1, s |-> 1], [i |-> 2, j |-> 0, c |-> 2, s |-> -1], [i |-> 3, j |-> 0, c |-> 0, s |-> 1], [i |-> 3, j |-> 0, c |-> 1, s |-> -1]>>, <<[i |-> 1, j |-> 0, c |-> 3, s |-> 1], [i |-> 1, j |-> 0, c |-> 4, s |-> -1], [i |-> 2, j |-> 0, c |-> 1, s |-> 1], [i |-> 2, j |-> 0, c |-> 2, s |-> -1], [i |-> 3, j |-> 0, c |-> 1, s |-> 1], [i |-> 3, j |-> 0, c |-> 2, s |-> -1]>>, <<[i |-> 1, j |-> 0, c |-> 3, s |-> 1], [i |-> 1, j |-> 0, c |-> 4, s |-> -1], [i |-> 2, j |-> 0, c |-> 2, s |-> 1], [i |-> 2, j |-> 0, c |-> 3, s |-> -1], [i |-> 3, j |-> 0, c |-> 0, s |-> 1], [i |-> 3, j |-> 0, c |-> 1, s |-> -1]>>, <<[i |-> 1, j |-> 0, c |-> 3, s |-> 1], [i |-> 1, j |-> 0, c |-> 4, s |-> -1], [i |-> 2, j |-> 0, c |-> 2, s |-> 1], [i |-> 2, j |-> 0, c |-> 3, s |-> -1], [i |-> 3, j |-> 0, c |-> 1, s |-> 1], [i |-> 3, j |-> 0, c |-> 2, s |-> -1]>>, <<[i |-> 1, j |-> 0, c |-> 3, s |-> 1], [i |-> 1, j |-> 0, c |-> 4, s |-> -1], [i |-> 2, j |-> 0, c |-> 2, s |-> 1], [i |-> 2, j |-> 0, c |-> 3, s |-> -1], [i |-> 3, j |-> 0, c |-> 2, s |-> 1], [i |-> 3, j |-> 0, c |-> 3, s |-> -1]>>, <<[i |-> 1, j |-> 0, c |-> 3, s |-> 1], [i |-> 1, j |-> 0, c |-> 4, s |-> -1], [i |-> 2, j |-> 0, c |-> 3, s |-> 1], [i |-> 2, j |-> 0, c |-> 4, s |-> -1], [i |-> 3, j |-> 0, c |-> 0, s |-> 1], [i |-> 3, j |-> 0, c |-> 1, s |-> -1]>>, <<[i |-> 1, j |-> 0, c |-> 3, s |-> 1], [i |-> 1, j |-> 0, c |-> 4, s |-> -1], [i |-> 2, j |-> 0, c |-> 3, s |-> 1], [i |-> 2, j |-> 0, c |-> 4, s |-> -1], [i |-> 3, j |-> 0, c |-> 1, s |-> 1], [i |-> 3, j |-> 0, c |-> 2, s |-> -1]>>, <<[i |-> 1, j |-> 0, c |-> 3, s |-> 1], [i |-> 1, j |-> 0, c |-> 4, s |-> -1], [i |-> 2, j |-> 0, c |-> 3, s |-> 1], [i |-> 2, j |-> 0, c |-> 4, s |-> -1], [i |-> 3, j |-> 0, c |-> 2, s |-> 1], [i |-> 3, j |-> 0, c |-> 3, s |-> -1]>>, <<[i |-> 1, j |-> 0, c |-> 3, s |-> 1], [i |-> 1, j |-> 0, c |-> 4, s |-> -1], [i |-> 2, j |-> 0, c |-> 3, s |-> 1], [i |-> 2, j |-> 0, c |-> 4, s |-> -1], [i |-> 3, j |-> 0, c |-> 3, s |-> 1], [i |-> 3, j |-> 0, c |-> 4, s |-> -1]>>>>,
   minus |-> <<>>],
  [name |-> "blob12", kind |-> "poly", convex |-> FALSE,
   verts |-> <<<<0, 0, 3>>, <<0, 1, 3>>, <<0, 1, 2>>, <<0, 0, 2>>, <<1, 0, 2>>, <<1, 0, 3>>, <<1, 1, 2>>, <<1, 1, 3>>, <<0, 2, 2>>, <<0, 2, 1>>, <<0, 1, 1>>, <<1, 1, 1>>, <<1, 2, 1>>, <<0, 2, 3>>, <<1, 2, 3>>, <<0, 3, 2>>, <<0, 3, 1>>, <<1, 3, 1>>, <<1, 3, 2>>, <<1, 2, 2>>, <<0, 3, 3>>, <<1, 3, 3>>, <<0, 4, 3>>, <<0, 4, 2>>, <<1, 4, 2>>, <<1, 4, 3>>, <<1, 0, 1>>, <<2, 0, 1>>, <<2, 1, 1>>, <<2, 1, 2>>, <<2, 0, 2>>, <<2, 0, 3>>, <<2, 1, 3>>, <<2, 2, 1>>, <<2, 2, 2>>, <<2, 2, 3>>, <<2, 3, 2>>, <<2, 3, 3>>, <<3, 0, 2>>, <<3, 1, 2>>, <<3, 1, 3>>, <<3, 0, 3>>>>,
   faces |-> <<<<1, 2, 3, 4>>, <<5, 6, 1, 4>>, <<3, 7, 5, 4>>, <<1, 6, 8, 2>>, <<3, 9, 10, 11>>, <<12, 7, 3, 11>>, <<10, 13, 12, 11>>, <<2, 14, 9, 3>>, <<2, 8, 15, 14>>, <<9, 16, 17, 10>>, <<13, 18, 19, 20>>, <<17, 16, 19, 18>>, <<17, 18, 13, 10>>, <<14, 21, 16, 9>>, <<14, 15, 22, 21>>, <<21, 23, 24, 16>>, <<19, 25, 26, 22>>, <<24, 23, 26, 25>>, <<24, 25, 19, 16>>, <<21, 22, 26, 23>>, <<5, 7, 12, 27>>, <<28, 29, 30, 31>>, <<28, 31, 5, 27>>, <<12, 29, 28, 27>>, <<31, 32, 6, 5>>, <<6, 32, 33, 8>>, <<29, 34, 35, 30>>, <<13, 20, 35, 34>>, <<13, 34, 29, 12>>, <<30, 35, 36, 33>>, <<8, 33, 36, 15>>, <<35, 37, 38, 36>>, <<19, 22, 38, 37>>, <<19, 37, 35, 20>>, <<15, 36, 38, 22>>, <<39, 40, 41, 42>>, <<39, 42, 32, 31>>, <<30, 33, 41, 40>>, <<30, 40, 39, 31>>, <<32, 42, 41, 33>>>>,
   parts |-> <<<<[i |-> 1, j |-> 0, c |-> 0, s |-> 1], [i |-> 1, j |-> 0, c |-> 1, s |-> -1], [i |-> 2, j |-> 0, c |-> 0, s |-> 1], [i |-> 2, j |-> 0, c |-> 1, s |-> -1], [i |-> 3, j |-> 0, c |-> 2, s |-> 1], [i |-> 3, j |-> 0, c |-> 3, s |-> -1]>>, <<[i |-> 1, j |-> 0, c |-> 0, s |-> 1], [i |-> 1, j |-> 0, c |-> 1, s |-> -1], [i |-> 2, j |-> 0, c |-> 1, s |-> 1], [i |-> 2, j |-> 0, c |-> 2, s |-> -1], [i |-> 3, j |-> 0, c |-> 1, s |-> 1], [i |-> 3, j |-> 0, c |-> 2, s |-> -1]>>, <<[i |-> 1, j |-> 0, c |-> 0, s |-> 1], [i |-> 1, j |-> 0, c |-> 1, s |-> -1], [i |-> 2, j |-> 0, c |-> 1, s |-> 1], [i |-> 2, j |-> 0, c |-> 2, s |-> -1], [i |-> 3, j |-> 0, c |-> 2, s |-> 1], [i |-> 3, j |-> 0, c |-> 3, s |-> -1]>>, <<[i |-> 1, j |-> 0, c |-> 0, s |-> 1], [i |-> 1, j |-> 0, c |-> 1, s |-> -1], [i |-> 2, j |-> 0, c |-> 2, s |-> 1], [i |-> 2, j |-> 0, c |-> 3, s |-> -1], [i |-> 3, j |-> 0, c |-> 1, s |-> 1], [i |-> 3, j |-> 0, c |-> 2, s |-> -1]>>, <<[i |-> 1, j |-> 0, c |-> 0, s |-> 1], [i |-> 1, j |-> 0, c |-> 1, s |-> -1], [i |-> 2, j |-> 0, c |-> 2, s |-> 1], [i |-> 2, j |-> 0, c |-> 3, s |-> -1], [i |-> 3, j |-> 0, c |-> 2, s |-> 1], [i |-> 3, j |-> 0, c |-> 3, s |-> -1]>>, <<[i |-> 1, j |-> 0, c |-> 0, s |-> 1], [i |-> 1, j |-> 0, c |-> 1, s |-> -1], [i |-> 2, j |-> 0, c |-> 3, s |-> 1], [i |-> 2, j |-> 0, c |-> 4, s |-> -1], [i |-> 3, j |-> 0, c |-> 2, s |-> 1], [i |-> 3, j |-> 0, c |-> 3, s |-> -1]>>, <<[i |-> 1, j |-> 0, c |-> 1, s |-> 1], [i |-> 1, j |-> 0, c |-> 2, s |-> -1], [i |-> 2, j |-> 0, c |-> 0, s |-> 1], [i |-> 2, j |-> 0, c |-> 1, s |-> -1], [i |-> 3, j |-> 0, c |-> 1, s |-> 1], [i |-> 3, j |-> 0, c |-> 2, s |-> -1]>>, <<[i |-> 1, j |-> 0, c |-> 1, s |-> 1], [i |-> 1, j |-> 0, c |-> 2, s |-> -1], [i |-> 2, j |-> 0, c |-> 0, s |-> 1], [i |-> 2, j |-> 0, c |-> 1, s |-> -1], [i |-> 3, j |-> 0, c |-> 2, s |-> 1], [i |-> 3, j |-> 0, c |-> 3, s |-> -1]>>, <<[i |-> 1, j |-> 0, c |-> 1, s |-> 1], [i |-> 1, j |-> 0, c |-> 2, s |-> -1], [i |-> 2, j |-> 0, c |-> 1, s |-> 1], [i |-> 2, j |-> 0, c |-> 2, s |-> -1], [i |-> 3, j |-> 0, c |-> 1, s |-> 1], [i |-> 3, j |-> 0, c |-> 2, s |-> -1]>>, <<[i |-> 1, j |-> 0, c |-> 1, s |-> 1], [i |-> 1, j |-> 0, c |-> 2, s |-> -1], [i |-> 2, j |-> 0, c |-> 1, s |-> 1], [i |-> 2, j |-> 0, c |-> 2, s |-> -1], [i |-> 3, j |-> 0, c |-> 2, s |-> 1], [i |-> 3, j |-> 0, c |-> 3, s |-> -1]>>, <<[i |-> 1, j |-> 0, c |-> 1, s |-> 1], [i |-> 1, j |-> 0, c |-> 2, s |-> -1], [i |-> 2, j |-> 0, c |-> 2, s |-> 1], [i |-> 2, j |-> 0, c |-> 3, s |-> -1], [i |-> 3, j |-> 0, c |-> 2, s |-> 1], [i |-> 3, j |-> 0, c |-> 3, s |-> -1]>>, <<[i |-> 1, j |-> 0, c |-> 2, s |-> 1], [i |-> 1, j |-> 0, c |-> 3, s |-> -1], [i |-> 2, j |-> 0, c |-> 0, s |-> 1], [i |-> 2, j |-> 0, c |-> 1, s |-> -1], [i |-> 3, j |-> 0, c |-> 2, s |-> 1], [i |-> 3, j |-> 0, c |-> 3, s |-> -1]>>>>,
   minus |-> <<>>],
  [name |-> "blob20", kind |-> "poly", convex |-> FALSE,
   verts |-> <<<<0, 0, 4>>, <<0, 1, 4>>, <<0, 1, 3>>, <<0, 0, 3>>, <<1, 0, 3>>, <<1, 1, 3>>, <<1, 1, 4>>, <<1, 0, 4>>, <<0, 1, 2>>, <<0, 2, 2>>, <<0, 2, 1>>, <<0, 1, 1>>, <<1, 1, 1>>, <<1, 1, 2>>, <<1, 2, 1>>, <<0, 2, 3>>, <<1, 2, 2>>, <<1, 2, 3>>, <<0, 2, 4>>, <<1, 2, 4>>, <<0, 3, 2>>, <<0, 3, 1>>, <<1, 3, 2>>, <<1, 3, 1>>, <<0, 3, 3>>, <<0, 3, 4>>, <<1, 3, 4>>, <<1, 3, 3>>, <<0, 4, 3>>, <<0, 4, 2>>, <<1, 4, 3>>, <<1, 4, 2>>, <<2, 1, 1>>, <<2, 1, 2>>, <<2, 2, 1>>, <<2, 2, 2>>, <<2, 1, 3>>, <<2, 2, 3>>, <<2, 2, 4>>, <<2, 1, 4>>, <<2, 3, 1>>, <<2, 3, 2>>, <<2, 3, 3>>, <<2, 3, 4>>, <<1, 4, 1>>, <<2, 4, 1>>, <<2, 4, 2>>, <<2, 4, 3>>, <<2, 0, 2>>, <<2, 0, 1>>, <<3, 0, 1>>, <<3, 1, 1>>, <<3, 1, 2>>, <<3, 0, 2>>, <<2, 2, 0>>, <<2, 1, 0>>, <<3, 1, 0>>, <<3, 2, 0>>, <<3, 2, 1>>, <<3, 2, 2>>, <<2, 3, 0>>, <<3, 3, 0>>, <<3, 3, 1>>, <<3, 3, 2>>>>,
   faces |-> <<<<1, 2, 3, 4>>, <<5, 6, 7, 8>>, <<5, 8, 1, 4>>, <<3, 6, 5, 4>>, <<1, 8, 7, 2>>, <<9, 10, 11, 12>>, <<13, 14, 9, 12>>, <<11, 15, 13, 12>>, <<3, 16, 10, 9>>, <<14, 17, 18, 6>>, <<14, 6, 3, 9>>, <<2, 19, 16, 3>>, <<2, 7, 20, 19>>, <<10, 21, 22, 11>>, <<22, 21, 23, 24>>, <<22, 24, 15, 11>>, <<16, 25, 21, 10>>, <<19, 26, 25, 16>>, <<25, 26, 27, 28>>, <<19, 20, 27, 26>>, <<25, 29, 30, 21>>, <<30, 29, 31, 32>>, <<30, 32, 23, 21>>, <<25, 28, 31, 29>>, <<33, 34, 14, 13>>, <<15, 35, 33, 13>>, <<14, 34, 36, 17>>, <<37, 38, 39, 40>>, <<37, 40, 7, 6>>, <<18, 38, 37, 6>>, <<7, 40, 39, 20>>, <<24, 41, 35, 15>>, <<36, 42, 43, 38>>, <<36, 38, 18, 17>>, <<38, 43, 44, 39>>, <<28, 27, 44, 43>>, <<20, 39, 44, 27>>, <<23, 32, 45, 24>>, <<41, 46, 47, 42>>, <<45, 32, 47, 46>>, <<45, 46, 41, 24>>, <<42, 47, 48, 43>>, <<32, 31, 48, 47>>, <<28, 43, 48, 31>>, <<49, 34, 33, 50>>, <<51, 52, 53, 54>>, <<51, 54, 49, 50>>, <<33, 52, 51, 50>>, <<49, 54, 53, 34>>, <<33, 35, 55, 56>>, <<57, 58, 59, 52>>, <<57, 52, 33, 56>>, <<55, 58, 57, 56>>, <<52, 59, 60, 53>>, <<34, 53, 60, 36>>, <<35, 41, 61, 55>>, <<58, 62, 63, 59>>, <<61, 41, 63, 62>>, <<61, 62, 58, 55>>, <<59, 63, 64, 60>>, <<41, 42, 64, 63>>, <<36, 60, 64, 42>>>>,
   parts |-> <<<<[i |-> 1, j |-> 0, c |-> 0, s |-> 1], [i |-> 1, j |-> 0, c |-> 1, s |-> -1], [i |-> 2, j |-> 0, c |-> 0, s |-> 1], [i |-> 2, j |-> 0, c |-> 1, s |-> -1], [i |-> 3, j |-> 0, c |-> 3, s |-> 1], [i |-> 3, j |-> 0, c |-> 4, s |-> -1]>>, <<[i |-> 1, j |-> 0, c |-> 0, s |-> 1], [i |-> 1, j |-> 0, c |-> 1, s |-> -1], [i |-> 2, j |-> 0, c |-> 1, s |-> 1], [i |-> 2, j |-> 0, c |-> 2, s |-> -1], [i |-> 3, j |-> 0, c |-> 1, s |-> 1], [i |-> 3, j |-> 0, c |-> 2, s |-> -1]>>, <<[i |-> 1, j |-> 0, c |-> 0, s |-> 1], [i |-> 1, j |-> 0, c |-> 1, s |-> -1], [i |-> 2, j |-> 0, c |-> 1, s |-> 1], [i |-> 2, j |-> 0, c |-> 2, s |-> -1], [i |-> 3, j |-> 0, c |-> 2, s |-> 1], [i |-> 3, j |-> 0, c |-> 3, s |-> -1]>>, <<[i |-> 1, j |-> 0, c |-> 0, s |-> 1], [i |-> 1, j |-> 0, c |-> 1, s |-> -1], [i |-> 2, j |-> 0, c |-> 1, s |-> 1], [i |-> 2, j |-> 0, c |-> 2, s |-> -1], [i |-> 3, j |-> 0, c |-> 3, s |-> 1], [i |-> 3, j |-> 0, c |-> 4, s |-> -1]>>, <<[i |-> 1, j |-> 0, c |-> 0, s |-> 1], [i |-> 1, j |-> 0, c |-> 1, s |-> -1], [i |-> 2, j |-> 0, c |-> 2, s |-> 1], [i |-> 2, j |-> 0, c |-> 3, s |-> -1], [i |-> 3, j |-> 0, c |-> 1, s |-> 1], [i |-> 3, j |-> 0, c |-> 2, s |-> -1]>>, <<[i |-> 1, j |-> 0, c |-> 0, s |-> 1], [i |-> 1, j |-> 0, c |-> 1, s |-> -1], [i |-> 2, j |-> 0, c |-> 2, s |-> 1], [i |-> 2, j |-> 0, c |-> 3, s |-> -1], [i |-> 3, j |-> 0, c |-> 2, s |-> 1], [i |-> 3, j |-> 0, c |-> 3, s |-> -1]>>, <<[i |-> 1, j |-> 0, c |-> 0, s |-> 1], [i |-> 1, j |-> 0, c |-> 1, s |-> -1], [i |-> 2, j |-> 0, c |-> 2, s |-> 1], [i |-> 2, j |-> 0, c |-> 3, s |-> -1], [i |-> 3, j |-> 0, c |-> 3, s |-> 1], [i |-> 3, j |-> 0, c |-> 4, s |-> -1]>>, <<[i |-> 1, j |-> 0, c |-> 0, s |-> 1], [i |-> 1, j |-> 0, c |-> 1, s |-> -1], [i |-> 2, j |-> 0, c |-> 3, s |-> 1], [i |-> 2, j |-> 0, c |-> 4, s |-> -1], [i |-> 3, j |-> 0, c |-> 2, s |-> 1], [i |-> 3, j |-> 0, c |-> 3, s |-> -1]>>, <<[i |-> 1, j |-> 0, c |-> 1, s |-> 1], [i |-> 1, j |-> 0, c |-> 2, s |-> -1], [i |-> 2, j |-> 0, c |-> 1, s |-> 1], [i |-> 2, j |-> 0, c |-> 2, s |-> -1], [i |-> 3, j |-> 0, c |-> 1, s |-> 1], [i |-> 3, j |-> 0, c |-> 2, s |-> -1]>>, <<[i |-> 1, j |-> 0, c |-> 1, s |-> 1], [i |-> 1, j |-> 0, c |-> 2, s |-> -1], [i |-> 2, j |-> 0, c |-> 1, s |-> 1], [i |-> 2, j |-> 0, c |-> 2, s |-> -1], [i |-> 3, j |-> 0, c |-> 3, s |-> 1], [i |-> 3, j |-> 0, c |-> 4, s |-> -1]>>, <<[i |-> 1, j |-> 0, c |-> 1, s |-> 1], [i |-> 1, j |-> 0, c |-> 2, s |-> -1], [i |-> 2, j |-> 0, c |-> 2, s |-> 1], [i |-> 2, j |-> 0, c |-> 3, s |-> -1], [i |-> 3, j |-> 0, c |-> 1, s |-> 1], [i |-> 3, j |-> 0, c |-> 2, s |-> -1]>>, <<[i |-> 1, j |-> 0, c |-> 1, s |-> 1], [i |-> 1, j |-> 0, c |-> 2, s |-> -1], [i |-> 2, j |-> 0, c |-> 2, s |-> 1], [i |-> 2, j |-> 0, c |-> 3, s |-> -1], [i |-> 3, j |-> 0, c |-> 2, s |-> 1], [i |-> 3, j |-> 0, c |-> 3, s |-> -1]>>, <<[i |-> 1, j |-> 0, c |-> 1, s |-> 1], [i |-> 1, j |-> 0, c |-> 2, s |-> -1], [i |-> 2, j |-> 0, c |-> 2, s |-> 1], [i |-> 2, j |-> 0, c |-> 3, s |-> -1], [i |-> 3, j |-> 0, c |-> 3, s |-> 1], [i |-> 3, j |-> 0, c |-> 4, s |-> -1]>>, <<[i |-> 1, j |-> 0, c |-> 1, s |-> 1], [i |-> 1, j |-> 0, c |-> 2, s |-> -1], [i |-> 2, j |-> 0, c |-> 3, s |-> 1], [i |-> 2, j |-> 0, c |-> 4, s |-> -1], [i |-> 3, j |-> 0, c |-> 1, s |-> 1], [i |-> 3, j |-> 0, c |-> 2, s |-> -1]>>, <<[i |-> 1, j |-> 0, c |-> 1, s |-> 1], [i |-> 1, j |-> 0, c |-> 2, s |-> -1], [i |-> 2, j |-> 0, c |-> 3, s |-> 1], [i |-> 2, j |-> 0, c |-> 4, s |-> -1], [i |-> 3, j |-> 0, c |-> 2, s |-> 1], [i |-> 3, j |-> 0, c |-> 3, s |-> -1]>>, <<[i |-> 1, j |-> 0, c |-> 2, s |-> 1], [i |-> 1, j |-> 0, c |-> 3, s |-> -1], [i |-> 2, j |-> 0, c |-> 0, s |-> 1], [i |-> 2, j |-> 0, c |-> 1, s |-> -1], [i |-> 3, j |-> 0, c |-> 1, s |-> 1], [i |-> 3, j |-> 0, c |-> 2, s |-> -1]>>, <<[i |-> 1, j |-> 0, c |-> 2, s |-> 1], [i |-> 1, j |-> 0, c |-> 3, s |-> -1], [i |-> 2, j |-> 0, c |-> 1, s |-> 1], [i |-> 2, j |-> 0, c |-> 2, s |-> -1], [i |-> 3, j |-> 0, c |-> 0, s |-> 1], [i |-> 3, j |-> 0, c |-> 1, s |-> -1]>>, <<[i |-> 1, j |-> 0, c |-> 2, s |-> 1], [i |-> 1, j |-> 0, c |-> 3, s |-> -1], [i |-> 2, j |-> 0, c |-> 1, s |-> 1], [i |-> 2, j |-> 0, c |-> 2, s |-> -1], [i |-> 3, j |-> 0, c |-> 1, s |-> 1], [i |-> 3, j |-> 0, c |-> 2, s |-> -1]>>, <<[i |-> 1, j |-> 0, c |-> 2, s |-> 1], [i |-> 1, j |-> 0, c |-> 3, s |-> -1], [i |-> 2, j |-> 0, c |-> 2, s |-> 1], [i |-> 2, j |-> 0, c |-> 3, s |-> -1], [i |-> 3, j |-> 0, c |-> 0, s |-> 1], [i |-> 3, j |-> 0, c |-> 1, s |-> -1]>>, <<[i |-> 1, j |-> 0, c |-> 2, s |-> 1], [i |-> 1, j |-> 0, c |-> 3, s |-> -1], [i |-> 2, j |-> 0, c |-> 2, s |-> 1], [i |-> 2, j |-> 0, c |-> 3, s |-> -1], [i |-> 3, j |-> 0, c |-> 1, s |-> 1], [i |-> 3, j |-> 0, c |-> 2, s |-> -1]>>>>,
   minus |-> <<>>],
  [name |-> "combprism", kind |-> "poly", convex |-> FALSE,
   verts |-> <<<<0, 0, 0>>, <<3, 0, 0>>, <<3, 3, 0>>, <<2, 3, 0>>, <<2, 1, 0>>, <<1, 1, 0>>, <<1, 3, 0>>, <<0, 3, 0>>, <<0, 0, 4>>, <<3, 0, 4>>, <<3, 3, 4>>, <<2, 3, 4>>, <<2, 1, 4>>, <<1, 1, 4>>, <<1, 3, 4>>, <<0, 3, 4>>>>,
   faces |-> <<<<8, 7, 6, 5, 4, 3, 2, 1>>, <<9, 10, 11, 12, 13, 14, 15, 16>>, <<1, 2, 10, 9>>, <<2, 3, 11, 10>>, <<3, 4, 12, 11>>, <<4, 5, 13, 12>>, <<5, 6, 14, 13>>, <<6, 7, 15, 14>>, <<7, 8, 16, 15>>, <<8, 1, 9, 16>>>>,
   parts |-> <<<<[i |-> 1, j |-> 0, c |-> 0, s |-> 1], [i |-> 1, j |-> 0, c |-> 3, s |-> -1], [i |-> 2, j |-> 0, c |-> 0, s |-> 1], [i |-> 2, j |-> 0, c |-> 1, s |-> -1], [i |-> 3, j |-> 0, c |-> 0, s |-> 1], [i |-> 3, j |-> 0, c |-> 4, s |-> -1]>>, <<[i |-> 1, j |-> 0, c |-> 0, s |-> 1], [i |-> 1, j |-> 0, c |-> 1, s |-> -1], [i |-> 2, j |-> 0, c |-> 0, s |-> 1], [i |-> 2, j |-> 0, c |-> 3, s |-> -1], [i |-> 3, j |-> 0, c |-> 0, s |-> 1], [i |-> 3, j |-> 0, c |-> 4, s |-> -1]>>, <<[i |-> 1, j |-> 0, c |-> 2, s |-> 1], [i |-> 1, j |-> 0, c |-> 3, s |-> -1], [i |-> 2, j |-> 0, c |-> 0, s |-> 1], [i |-> 2, j |-> 0, c |-> 3, s |-> -1], [i |-> 3, j |-> 0, c |-> 0, s |-> 1], [i |-> 3, j |-> 0, c |-> 4, s |-> -1]>>>>,
   minus |-> <<>>],
  [name |-> "stair4", kind |-> "poly", convex |-> FALSE,
   verts |-> <<<<0, 0, 1>>, <<4, 0, 1>>, <<4, 1, 1>>, <<3, 1, 1>>, <<3, 2, 1>>, <<2, 2, 1>>, <<2, 3, 1>>, <<1, 3, 1>>, <<1, 4, 1>>, <<0, 4, 1>>, <<0, 0, 4>>, <<4, 0, 4>>, <<4, 1, 4>>, <<3, 1, 4>>, <<3, 2, 4>>, <<2, 2, 4>>, <<2, 3, 4>>, <<1, 3, 4>>, <<1, 4, 4>>, <<0, 4, 4>>>>,
   faces |-> <<<<10, 9, 8, 7, 6, 5, 4, 3, 2, 1>>, <<11, 12, 13, 14, 15, 16, 17, 18, 19, 20>>, <<1, 2, 12, 11>>, <<2, 3, 13, 12>>, <<3, 4, 14, 13>>, <<4, 5, 15, 14>>, <<5, 6, 16, 15>>, <<6, 7, 17, 16>>, <<7, 8, 18, 17>>, <<8, 9, 19, 18>>, <<9, 10, 20, 19>>, <<10, 1, 11, 20>>>>,
   parts |-> <<<<[i |-> 1, j |-> 0, c |-> 0, s |-> 1], [i |-> 1, j |-> 0, c |-> 4, s |-> -1], [i |-> 2, j |-> 0, c |-> 0, s |-> 1], [i |-> 2, j |-> 0, c |-> 1, s |-> -1], [i |-> 3, j |-> 0, c |-> 1, s |-> 1], [i |-> 3, j |-> 0, c |-> 4, s |-> -1]>>, <<[i |-> 1, j |-> 0, c |-> 0, s |-> 1], [i |-> 1, j |-> 0, c |-> 3, s |-> -1], [i |-> 2, j |-> 0, c |-> 1, s |-> 1], [i |-> 2, j |-> 0, c |-> 2, s |-> -1], [i |-> 3, j |-> 0, c |-> 1, s |-> 1], [i |-> 3, j |-> 0, c |-> 4, s |-> -1]>>, <<[i |-> 1, j |-> 0, c |-> 0, s |-> 1], [i |-> 1, j |-> 0, c |-> 2, s |-> -1], [i |-> 2, j |-> 0, c |-> 2, s |-> 1], [i |-> 2, j |-> 0, c |-> 3, s |-> -1], [i |-> 3, j |-> 0, c |-> 1, s |-> 1], [i |-> 3, j |-> 0, c |-> 4, s |-> -1]>>, <<[i |-> 1, j |-> 0, c |-> 0, s |-> 1], [i |-> 1, j |-> 0, c |-> 1, s |-> -1], [i |-> 2, j |-> 0, c |-> 3, s |-> 1], [i |-> 2, j |-> 0, c |-> 4, s |-> -1], [i |-> 3, j |-> 0, c |-> 1, s |-> 1], [i |-> 3, j |-> 0, c |-> 4, s |-> -1]>>>>,
   minus |-> <<>>]
>>

ShapeIds == 1..Len(ShapeSeq)
ShapeT == [s \in ShapeIds |-> ShapeSeq[s]]
Content(s) == UNION {Region(s.parts[k]) : k \in DOMAIN s.parts} \ UNION {Region(s.minus[k]) : k \in DOMAIN s.minus}
ContentT == [s \in ShapeIds |-> Content(ShapeT[s])]

(* the boundary description encloses exactly the content: six times the signed volume (sum over
   face fans) equals the number of atoms, every directed edge has its reverse exactly once *)
Det3(a, b, c) == a[1] * (b[2] * c[3] - b[3] * c[2]) - a[2] * (b[1] * c[3] - b[3] * c[1]) + a[3] * (b[1] * c[2] - b[2] * c[1])
FaceVol(s, f) == Sum(2..(Len(f) - 1), LAMBDA k : Det3(s.verts[f[1]], s.verts[f[k]], s.verts[f[k + 1]]))
SixVol(s) == Sum(DOMAIN s.faces, LAMBDA k : FaceVol(s, s.faces[k]))
DirEdges(s) == UNION {{<<k, m>> : m \in DOMAIN s.faces[k]} : k \in DOMAIN s.faces}
EdgeEnds(s, e) == LET f == s.faces[e[1]] IN <<f[e[2]], f[(e[2] % Len(f)) + 1]>>
ClosedBoundary(s) ==
    LET E == {EdgeEnds(s, e) : e \in DirEdges(s)}
    IN /\ Cardinality(E) = Cardinality(DirEdges(s))
       /\ \A e \in E : <<e[2], e[1]>> \in E
ShapesOK == \A s \in ShapeIds : SixVol(ShapeT[s]) = Cardinality(ContentT[s]) /\ ClosedBoundary(ShapeT[s]) /\ ContentT[s] # {}
=============================================================================
