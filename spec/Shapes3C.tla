------------------------------ MODULE Shapes3C ------------------------------
(* generated by tools/mkshapes.py *)
EXTENDS Lattice

ShapeSeq == <<
  [name |-> "field36", kind |-> "poly", convex |-> FALSE,
   verts |-> <<<<0, 0, 0>>, <<1, 0, 0>>, <<1, 1, 0>>, <<0, 1, 0>>, <<0, 0, 1>>, <<1, 0, 1>>, <<1, 1, 1>>, <<0, 1, 1>>, <<0, 0, 2>>, <<1, 0, 2>>, <<1, 1, 2>>, <<0, 1, 2>>, <<0, 0, 3>>, <<1, 0, 3>>, <<1, 1, 3>>, <<0, 1, 3>>, <<0, 0, 4>>, <<1, 0, 4>>, <<1, 1, 4>>, <<0, 1, 4>>, <<0, 0, 5>>, <<1, 0, 5>>, <<1, 1, 5>>, <<0, 1, 5>>, <<0, 0, 6>>, <<1, 0, 6>>, <<1, 1, 6>>, <<0, 1, 6>>, <<0, 0, 7>>, <<1, 0, 7>>, <<1, 1, 7>>, <<0, 1, 7>>, <<0, 2, 0>>, <<1, 2, 0>>, <<1, 3, 0>>, <<0, 3, 0>>, <<0, 2, 1>>, <<1, 2, 1>>, <<1, 3, 1>>, <<0, 3, 1>>, <<0, 2, 2>>, <<1, 2, 2>>, <<1, 3, 2>>, <<0, 3, 2>>, <<0, 2, 3>>, <<1, 2, 3>>, <<1, 3, 3>>, <<0, 3, 3>>, <<0, 2, 4>>, <<1, 2, 4>>, <<1, 3, 4>>, <<0, 3, 4>>, <<0, 2, 5>>, <<1, 2, 5>>, <<1, 3, 5>>, <<0, 3, 5>>, <<0, 4, 2>>, <<1, 4, 2>>, <<1, 5, 2>>, <<0, 5, 2>>, <<0, 4, 3>>, <<1, 4, 3>>, <<1, 5, 3>>, <<0, 5, 3>>, <<0, 4, 4>>, <<1, 4, 4>>, <<1, 5, 4>>, <<0, 5, 4>>, <<0, 4, 5>>, <<1, 4, 5>>, <<1, 5, 5>>, <<0, 5, 5>>, <<0, 4, 6>>, <<1, 4, 6>>, <<1, 5, 6>>, <<0, 5, 6>>, <<0, 4, 7>>, <<1, 4, 7>>, <<1, 5, 7>>, <<0, 5, 7>>, <<0, 6, 0>>, <<1, 6, 0>>, <<1, 7, 0>>, <<0, 7, 0>>, <<0, 6, 1>>, <<1, 6, 1>>, <<1, 7, 1>>, <<0, 7, 1>>, <<2, 0, 6>>, <<3, 0, 6>>, <<3, 1, 6>>, <<2, 1, 6>>, <<2, 0, 7>>, <<3, 0, 7>>, <<3, 1, 7>>, <<2, 1, 7>>, <<2, 4, 2>>, <<3, 4, 2>>, <<3, 5, 2>>, <<2, 5, 2>>, <<2, 4, 3>>, <<3, 4, 3>>, <<3, 5, 3>>, <<2, 5, 3>>, <<2, 6, 0>>, <<3, 6, 0>>, <<3, 7, 0>>, <<2, 7, 0>>, <<2, 6, 1>>, <<3, 6, 1>>, <<3, 7, 1>>, <<2, 7, 1>>, <<2, 6, 2>>, <<3, 6, 2>>, <<3, 7, 2>>, <<2, 7, 2>>, <<2, 6, 3>>, <<3, 6, 3>>, <<3, 7, 3>>, <<2, 7, 3>>, <<2, 6, 4>>, <<3, 6, 4>>, <<3, 7, 4>>, <<2, 7, 4>>, <<2, 6, 5>>, <<3, 6, 5>>, <<3, 7, 5>>, <<2, 7, 5>>, <<4, 0, 0>>, <<5, 0, 0>>, <<5, 1, 0>>, <<4, 1, 0>>, <<4, 0, 1>>, <<5, 0, 1>>, <<5, 1, 1>>, <<4, 1, 1>>, <<4, 0, 2>>, <<5, 0, 2>>, <<5, 1, 2>>, <<4, 1, 2>>, <<4, 0, 3>>, <<5, 0, 3>>, <<5, 1, 3>>, <<4, 1, 3>>, <<4, 0, 4>>, <<5, 0, 4>>, <<5, 1, 4>>, <<4, 1, 4>>, <<4, 0, 5>>, <<5, 0, 5>>, <<5, 1, 5>>, <<4, 1, 5>>, <<4, 0, 6>>, <<5, 0, 6>>, <<5, 1, 6>>, <<4, 1, 6>>, <<4, 0, 7>>, <<5, 0, 7>>, <<5, 1, 7>>, <<4, 1, 7>>, <<4, 2, 0>>, <<5, 2, 0>>, <<5, 3, 0>>, <<4, 3, 0>>, <<4, 2, 1>>, <<5, 2, 1>>, <<5, 3, 1>>, <<4, 3, 1>>, <<4, 2, 2>>, <<5, 2, 2>>, <<5, 3, 2>>, <<4, 3, 2>>, <<4, 2, 3>>, <<5, 2, 3>>, <<5, 3, 3>>, <<4, 3, 3>>, <<4, 2, 4>>, <<5, 2, 4>>, <<5, 3, 4>>, <<4, 3, 4>>, <<4, 2, 5>>, <<5, 2, 5>>, <<5, 3, 5>>, <<4, 3, 5>>, <<4, 2, 6>>, <<5, 2, 6>>, <<5, 3, 6>>, <<4, 3, 6>>, <<4, 2, 7>>, <<5, 2, 7>>, <<5, 3, 7>>, <<4, 3, 7>>, <<4, 4, 0>>, <<5, 4, 0>>, <<5, 5, 0>>, <<4, 5, 0>>, <<4, 4, 1>>, <<5, 4, 1>>, <<5, 5, 1>>, <<4, 5, 1>>, <<4, 6, 0>>, <<5, 6, 0>>, <<5, 7, 0>>, <<4, 7, 0>>, <<4, 6, 1>>, <<5, 6, 1>>, <<5, 7, 1>>, <<4, 7, 1>>, <<4, 6, 2>>, <<5, 6, 2>>, <<5, 7, 2>>, <<4, 7, 2>>, <<4, 6, 3>>, <<5, 6, 3>>, <<5, 7, 3>>, <<4, 7, 3>>, <<6, 0, 2>>, <<7, 0, 2>>, <<7, 1, 2>>, <<6, 1, 2>>, <<6, 0, 3>>, <<7, 0, 3>>, <<7, 1, 3>>, <<6, 1, 3>>, <<6, 0, 6>>, <<7, 0, 6>>, <<7, 1, 6>>, <<6, 1, 6>>, <<6, 0, 7>>, <<7, 0, 7>>, <<7, 1, 7>>, <<6, 1, 7>>, <<6, 2, 4>>, <<7, 2, 4>>, <<7, 3, 4>>, <<6, 3, 4>>, <<6, 2, 5>>, <<7, 2, 5>>, <<7, 3, 5>>, <<6, 3, 5>>, <<6, 2, 6>>, <<7, 2, 6>>, <<7, 3, 6>>, <<6, 3, 6>>, <<6, 2, 7>>, <<7, 2, 7>>, <<7, 3, 7>>, <<6, 3, 7>>, <<6, 4, 0>>, <<7, 4, 0>>, <<7, 5, 0>>, <<6, 5, 0>>, <<6, 4, 1>>, <<7, 4, 1>>, <<7, 5, 1>>, <<6, 5, 1>>, <<6, 4, 2>>, <<7, 4, 2>>, <<7, 5, 2>>, <<6, 5, 2>>, <<6, 4, 3>>, <<7, 4, 3>>, <<7, 5, 3>>, <<6, 5, 3>>, <<6, 4, 6>>, <<7, 4, 6>>, <<7, 5, 6>>, <<6, 5, 6>>, <<6, 4, 7>>, <<7, 4, 7>>, <<7, 5, 7>>, <<6, 5, 7>>, <<6, 6, 0>>, <<7, 6, 0>>, <<7, 7, 0>>, <<6, 7, 0>>, <<6, 6, 1>>, <<7, 6, 1>>, <<7, 7, 1>>, <<6, 7, 1>>, <<6, 6, 4>>, <<7, 6, 4>>, <<7, 7, 4>>, <<6, 7, 4>>, <<6, 6, 5>>, <<7, 6, 5>>, <<7, 7, 5>>, <<6, 7, 5>>>>,
   faces |-> <<<<1, 4, 3, 2>>, <<5, 6, 7, 8>>, <<1, 2, 6, 5>>, <<2, 3, 7, 6>>, <<3, 4, 8, 7>>, <<4, 1, 5, 8>>, <<9, 12, 11, 10>>, <<13, 14, 15, 16>>, <<9, 10, 14, 13>>, <<10, 11, 15, 14>>, <<11, 12, 16, 15>>, <<12, 9, 13, 16>>, <<17, 20, 19, 18>>, <<21, 22, 23, 24>>, <<17, 18, 22, 21>>, <<18, 19, 23, 22>>, <<19, 20, 24, 23>>, <<20, 17, 21, 24>>, <<25, 28, 27, 26>>, <<29, 30, 31, 32>>, <<25, 26, 30, 29>>, <<26, 27, 31, 30>>, <<27, 28, 32, 31>>, <<28, 25, 29, 32>>, <<33, 36, 35, 34>>, <<37, 38, 39, 40>>, <<33, 34, 38, 37>>, <<34, 35, 39, 38>>, <<35, 36, 40, 39>>, <<36, 33, 37, 40>>, <<41, 44, 43, 42>>, <<45, 46, 47, 48>>, <<41, 42, 46, 45>>, <<42, 43, 47, 46>>, <<43, 44, 48, 47>>, <<44, 41, 45, 48>>, <<49, 52, 51, 50>>, <<53, 54, 55, 56>>, <<49, 50, 54, 53>>, <<50, 51, 55, 54>>, <<51, 52, 56, 55>>, <<52, 49, 53, 56>>, <<57, 60, 59, 58>>, <<61, 62, 63, 64>>, <<57, 58, 62, 61>>, <<58, 59, 63, 62>>, <<59, 60, 64, 63>>, <<60, 57, 61, 64>>, <<65, 68, 67, 66>>, <<69, 70, 71, 72>>, <<65, 66, 70, 69>>, <<66, 67, 71, 70>>, <<67, 68, 72, 71>>, <<68, 65, 69, 72>>, <<73, 76, 75, 74>>, <<77, 78, 79, 80>>, <<73, 74, 78, 77>>, <<74, 75, 79, 78>>, <<75, 76, 80, 79>>, <<76, 73, 77, 80>>, <<81, 84, 83, 82>>, <<85, 86, 87, 88>>, <<81, 82, 86, 85>>, <<82, 83, 87, 86>>, <<83, 84, 88, 87>>, <<84, 81, 85, 88>>, <<89, 92, 91, 90>>, <<93, 94, 95, 96>>, <<89, 90, 94, 93>>, <<90, 91, 95, 94>>, <<91, 92, 96, 95>>, <<92, 89, 93, 96>>, <<97, 100, 99, 98>>, <<101, 102, 103, 104>>, <<97, 98, 102, 101>>, <<98, 99, 103, 102>>, <<99, 100, 104, 103>>, <<100, 97, 101, 104>>, <<105, 108, 107, 106>>, <<109, 110, 111, 112>>, <<105, 106, 110, 109>>, <<106, 107, 111, 110>>, <<107, 108, 112, 111>>, <<108, 105, 109, 112>>, <<113, 116, 115, 114>>, <<117, 118, 119, 120>>, <<113, 114, 118, 117>>, <<114, 115, 119, 118>>, <<115, 116, 120, 119>>, <<116, 113, 117, 120>>, <<121, 124, 123, 122>>, <<125, 126, 127, 128>>, <<121, 122, 126, 125>>, <<122, 123, 127, 126>>, <<123, 124, 128, 127>>, <<124, 121, 125, 128>>, <<129, 132, 131, 130>>, <<133, 134, 135, 136>>, <<129, 130, 134, 133>>, <<130, 131, 135, 134>>, <<131, 132, 136, 135>>, <<132, 129, 133, 136>>, <<137, 140, 139, 138>>, <<141, 142, 143, 144>>, <<137, 138, 142, 141>>, <<138, 139, 143, 142>>, <<139, 140, 144, 143>>, <<140, 137, 141, 144>>, <<145, 148, 147, 146>>, <<149, 150, 151, 152>>, <<145, 146, 150, 149>>, <<146, 147, 151, 150>>, <<147, 148, 152, 151>>, <<148, 145, 149, 152>>, <<153, 156, 155, 154>>, <<157, 158, 159, 160>>, <<153, 154, 158, 157>>, <<154, 155, 159, 158>>, <<155, 156, 160, 159>>, <<156, 153, 157, 160>>, <<161, 164, 163, 162>>, <<165, 166, 167, 168>>, <<161, 162, 166, 165>>, <<162, 163, 167, 166>>, <<163, 164, 168, 167>>, <<164, 161, 165, 168>>, <<169, 172, 171, 170>>, <<173, 174, 175, 176>>, <<169, 170, 174, 173>>, <<170, 171, 175, 174>>, <<171, 172, 176, 175>>, <<172, 169, 173, 176>>, <<177, 180, 179, 178>>, <<181, 182, 183, 184>>, <<177, 178, 182, 181>>, <<178, 179, 183, 182>>, <<179, 180, 184, 183>>, <<180, 177, 181, 184>>, <<185, 188, 187, 186>>, <<189, 190, 191, 192>>, <<185, 186, 190, 189>>, <<186, 187, 191, 190>>, <<187, 188, 192, 191>>, <<188, 185, 189, 192>>, <<193, 196, 195, 194>>, <<197, 198, 199, 200>>, <<193, 194, 198, 197>>, <<194, 195, 199, 198>>, <<195, 196, 200, 199>>, <<196, 193, 197, 200>>, <<201, 204, 203, 202>>, <<205, 206, 207, 208>>, <<201, 202, 206, 205>>, <<202, 203, 207, 206>>, <<203, 204, 208, 207>>, <<204, 201, 205, 208>>, <<209, 212, 211, 210>>, <<213, 214, 215, 216>>, <<209, 210, 214, 213>>, <<210, 211, 215, 214>>, <<211, 212, 216, 215>>, <<212, 209, 213, 216>>, <<217, 220, 219, 218>>, <<221, 222, 223, 224>>, <<217, 218, 222, 221>>, <<218, 219, 223, 222>>, <<219, 220, 224, 223>>, <<220, 217, 221, 224>>, <<225, 228, 227, 226>>, <<229, 230, 231, 232>>, <<225, 226, 230, 229>>, <<226, 227, 231, 230>>, <<227, 228, 232, 231>>, <<228, 225, 229, 232>>, <<233, 236, 235, 234>>, <<237, 238, 239, 240>>, <<233, 234, 238, 237>>, <<234, 235, 239, 238>>, <<235, 236, 240, 239>>, <<236, 233, 237, 240>>, <<241, 244, 243, 242>>, <<245, 246, 247, 248>>, <<241, 242, 246, 245>>, <<242, 243, 247, 246>>, <<243, 244, 248, 247>>, <<244, 241, 245, 248>>, <<249, 252, 251, 250>>, <<253, 254, 255, 256>>, <<249, 250, 254, 253>>, <<250, 251, 255, 254>>, <<251, 252, 256, 255>>, <<252, 249, 253, 256>>, <<257, 260, 259, 258>>, <<261, 262, 263, 264>>, <<257, 258, 262, 261>>, <<258, 259, 263, 262>>, <<259, 260, 264, 263>>, <<260, 257, 261, 264>>, <<265, 268, 267, 266>>, <<269, 270, 271, 272>>, <<265, 266, 270, 269>>, <<266, 267, 271, 270>>, <<267, 268, 272, 271>>, <<268, 265, 269, 272>>, <<273, 276, 275, 274>>, <<277, 278, 279, 280>>, <<273, 274, 278, 277>>, <<274, 275, 279, 278>>, <<275, 276, 280, 279>>, <<276, 273, 277, 280>>, <<281, 284, 283, 282>>, <<285, 286, 287, 288>>, <<281, 282, 286, 285>>, <<282, 283, 287, 286>>, <<283, 284, 288, 287>>, <<284, 281, 285, 288>>>>,
   parts |-> <<<<[i |-> 1, j |-> 0, c |-> 0, s |-> 1], [i |-> 1, j |-> 0, c |-> 1, s |-> -1], [i |-> 2, j |-> 0, c |-> 0, s |-> 1], [i |-> 2, j |-> 0, c |-> 1, s |-> -1], [i |-> 3, j |-> 0, c |-> 0, s |-> 1], [i |-> 3, j |-> 0, c |-> 1, s |-> -1]>>, <<[i |-> 1, j |-> 0, c |-> 0, s |-> 1], [i |-> 1, j |-> 0, c |-> 1, s |-> -1], [i |-> 2, j |-> 0, c |-> 0, s |-> 1], [i |-> 2, j |-> 0, c |-> 1, s |-> -1], [i |-> 3, j |-> 0, c |-> 2, s |-> 1], [i |-> 3, j |-> 0, c |-> 3, s |-> -1]>>, <<[i |-> 1, j |-> 0, c |-> 0, s |-> 1], [i |-> 1, j |-> 0, c |-> 1, s |-> -1], [i |-> 2, j |-> 0, c |-> 0, s |-> 1], [i |-> 2, j |-> 0, c |-> 1, s |-> -1], [i |-> 3, j |-> 0, c |-> 4, s |-> 1], [i |-> 3, j |-> 0, c |-> 5, s |-> -1]>>, <<[i |-> 1, j |-> 0, c |-> 0, s |-> 1], [i |-> 1, j |-> 0, c |-> 1, s |-> -1], [i |-> 2, j |-> 0, c |-> 0, s |-> 1], [i |-> 2, j |-> 0, c |-> 1, s |-> -1], [i |-> 3, j |-> 0, c |-> 6, s |-> 1], [i |-> 3, j |-> 0, c |-> 7, s |-> -1]>>, <<[i |-> 1, j |-> 0, c |-> 0, s |-> 1], [i |-> 1, j |-> 0, c |-> 1, s |-> -1], [i |-> 2, j |-> 0, c |-> 2, s |-> 1], [i |-> 2, j |-> 0, c |-> 3, s |-> -1], [i |-> 3, j |-> 0, c |-> 0, s |-> 1], [i |-> 3, j |-> 0, c |-> 1, s |-> -1]>>, <<[i |-> 1, j |-> 0, c |-> 0, s |-> 1], [i |-> 1, j |-> 0, c |-> 1, s |-> -1], [i |-> 2, j |-> 0, c |-> 2, s |-> 1], [i |-> 2, j |-> 0, c |-> 3, s |-> -1], [i |-> 3, j |-> 0, c |-> 2, s |-> 1], [i |-> 3, j |-> 0, c |-> 3, s |-> -1]>>, <<[i |-> 1, j |-> 0, c |-> 0, s |-> 1], [i |-> 1, j |-> 0, c |-> 1, s |-> -1], [i |-> 2, j |-> 0, c |-> 2, s |-> 1], [i |-> 2, j |-> 0, c |-> 3, s |-> -1], [i |-> 3, j |-> 0, c |-> 4, s |-> 1], [i |-> 3, j |-> 0, c |-> 5, s |-> -1]>>, <<[i |-> 1, j |-> 0, c |-> 0, s |-> 1], [i |-> 1, j |-> 0, c |-> 1, s |-> -1], [i |-> 2, j |-> 0, c |-> 4, s |-> 1], [i |-> 2, j |-> 0, c |-> 5, s |-> -1], [i |-> 3, j |-> 0, c |-> 2, s |-> 1], [i |-> 3, j |-> 0, c |-> 3, s |-> -1]>>, <<[i |-> 1, j |-> 0, c |-> 0, s |-> 1], [i |-> 1, j |-> 0, c |-> 1, s |-> -1], [i |-> 2, j |-> 0, c |-> 4, s |-> 1], [i |-> 2, j |-> 0, c |-> 5, s |-> -1], [i |-> 3, j |-> 0, c |-> 4, s |-> 1], [i |-> 3, j |-> 0, c |-> 5, s |-> -1]>>, <<[i |-> 1, j |-> 0, c |-> 0, s |-> 1], [i |-> 1, j |-> 0, c |-> 1, s |-> -1], [i |-> 2, j |-> 0, c |-> 4, s |-> 1], [i |-> 2, j |-> 0, c |-> 5, s |-> -1], [i |-> 3, j |-> 0, c |-> 6, s |-> 1], [i |-> 3, j |-> 0, c |-> 7, s |-> -1]>>, <<[i |-> 1, j |-> 0, c |-> 0, s |-> 1], [i |-> 1, j |-> 0, c |-> 1, s |-> -1], [i |-> 2, j |-> 0, c |-> 6, s |-> 1], [i |-> 2, j |-> 0, c |-> 7, s |-> -1], [i |-> 3, j |-> 0, c |-> 0, s |-> 1], [i |-> 3, j |-> 0, c |-> 1, s |-> -1]>>, <<[i |-> 1, j |-> 0, c |-> 2, s |-> 1], [i |-> 1, j |-> 0, c |-> 3, s |-> -1], [i |-> 2, j |-> 0, c |-> 0, s |-> 1], [i |-> 2, j |-> 0, c |-> 1, s |-> -1], [i |-> 3, j |-> 0, c |-> 6, s |-> 1], [i |-> 3, j |-> 0, c |-> 7, s |-> -1]>>, <<[i |-> 1, j |-> 0, c |-> 2, s |-> 1], [i |-> 1, j |-> 0, c |-> 3, s |-> -1], [i |-> 2, j |-> 0, c |-> 4, s |-> 1], [i |-> 2, j |-> 0, c |-> 5, s |-> -1], [i |-> 3, j |-> 0, c |-> 2, s |-> 1], [i |-> 3, j |-> 0, c |-> 3, s |-> -1]>>, <<[i |-> 1, j |-> 0, c |-> 2, s |-> 1], [i |-> 1, j |-> 0, c |-> 3, s |-> -1], [i |-> 2, j |-> 0, c |-> 6, s |-> 1], [i |-> 2, j |-> 0, c |-> 7, s |-> -1], [i |-> 3, j |-> 0, c |-> 0, s |-> 1], [i |-> 3, j |-> 0, c |-> 1, s |-> -1]>>, <<[i |-> 1, j |-> 0, c |-> 2, s |-> 1], [i |-> 1, j |-> 0, c |-> 3, s |-> -1], [i |-> 2, j |-> 0, c |-> 6, s |-> 1], [i |-> 2, j |-> 0, c |-> 7, s |-> -1], [i |-> 3, j |-> 0, c |-> 2, s |-> 1], [i |-> 3, j |-> 0, c |-> 3, s |-> -1]>>, <<[i |-> 1, j |-> 0, c |-> 2, s |-> 1], [i |-> 1, j |-> 0, c |-> 3, s |-> -1], [i |-> 2, j |-> 0, c |-> 6, s |-> 1], [i |-> 2, j |-> 0, c |-> 7, s |-> -1], [i |-> 3, j |-> 0, c |-> 4, s |-> 1], [i |-> 3, j |-> 0, c |-> 5, s |-> -1]>>, <<[i |-> 1, j |-> 0, c |-> 4, s |-> 1], [i |-> 1, j |-> 0, c |-> 5, s |-> -1], [i |-> 2, j |-> 0, c |-> 0, s |-> 1], [i |-> 2, j |-> 0, c |-> 1, s |-> -1], [i |-> 3, j |-> 0, c |-> 0, s |-> 1], [i |-> 3, j |-> 0, c |-> 1, s |-> -1]>>, <<[i |-> 1, j |-> 0, c |-> 4, s |-> 1], [i |-> 1, j |-> 0, c |-> 5, s |-> -1], [i |-> 2, j |-> 0, c |-> 0, s |-> 1], [i |-> 2, j |-> 0, c |-> 1, s |-> -1], [i |-> 3, j |-> 0, c |-> 2, s |-> 1], [i |-> 3, j |-> 0, c |-> 3, s |-> -1]>>, <<[i |-> 1, j |-> 0, c |-> 4, s |-> 1], [i |-> 1, j |-> 0, c |-> 5, s |-> -1], [i |-> 2, j |-> 0, c |-> 0, s |-> 1], [i |-> 2, j |-> 0, c |-> 1, s |-> -1], [i |-> 3, j |-> 0, c |-> 4, s |-> 1], [i |-> 3, j |-> 0, c |-> 5, s |-> -1]>>, <<[i |-> 1, j |-> 0, c |-> 4, s |-> 1], [i |-> 1, j |-> 0, c |-> 5, s |-> -1], [i |-> 2, j |-> 0, c |-> 0, s |-> 1], [i |-> 2, j |-> 0, c |-> 1, s |-> -1], [i |-> 3, j |-> 0, c |-> 6, s |-> 1], [i |-> 3, j |-> 0, c |-> 7, s |-> -1]>>, <<[i |-> 1, j |-> 0, c |-> 4, s |-> 1], [i |-> 1, j |-> 0, c |-> 5, s |-> -1], [i |-> 2, j |-> 0, c |-> 2, s |-> 1], [i |-> 2, j |-> 0, c |-> 3, s |-> -1], [i |-> 3, j |-> 0, c |-> 0, s |-> 1], [i |-> 3, j |-> 0, c |-> 1, s |-> -1]>>, <<[i |-> 1, j |-> 0, c |-> 4, s |-> 1], [i |-> 1, j |-> 0, c |-> 5, s |-> -1], [i |-> 2, j |-> 0, c |-> 2, s |-> 1], [i |-> 2, j |-> 0, c |-> 3, s |-> -1], [i |-> 3, j |-> 0, c |-> 2, s |-> 1], [i |-> 3, j |-> 0, c |-> 3, s |-> -1]>>, <<[i |-> 1, j |-> 0, c |-> 4, s |-> 1], [i |-> 1, j |-> 0, c |-> 5, s |-> -1], [i |-> 2, j |-> 0, c |-> 2, s |-> 1], [i |-> 2, j |-> 0, c |-> 3, s |-> -1], [i |-> 3, j |-> 0, c |-> 4, s |-> 1], [i |-> 3, j |-> 0, c |-> 5, s |-> -1]>>, <<[i |-> 1, j |-> 0, c |-> 4, s |-> 1], [i |-> 1, j |-> 0, c |-> 5, s |-> -1], [i |-> 2, j |-> 0, c |-> 2, s |-> 1], [i |-> 2, j |-> 0, c |-> 3, s |-> -1], [i |-> 3, j |-> 0, c |-> 6, s |-> 1], [i |-> 3, j |-> 0, c |-> 7, s |-> -1]>>, <<[i |-> 1, j |-> 0, c |-> 4, s |-> 1], [i |-> 1, j |-> 0, c |-> 5, s |-> -1], [i |-> 2, j |-> 0, c |-> 4, s |-> 1], [i |-> 2, j |-> 0, c |-> 5, s |-> -1], [i |-> 3, j |-> 0, c |-> 0, s |-> 1], [i |-> 3, j |-> 0, c |-> 1, s |-> -1]>>, <<[i |-> 1, j |-> 0, c |-> 4, s |-> 1], [i |-> 1, j |-> 0, c |-> 5, s |-> -1], [i |-> 2, j |-> 0, c |-> 6, s |-> 1], [i |-> 2, j |-> 0, c |-> 7, s |-> -1], [i |-> 3, j |-> 0, c |-> 0, s |-> 1], [i |-> 3, j |-> 0, c |-> 1, s |-> -1]>>, <<[i |-> 1, j |-> 0, c |-> 4, s |-> 1], [i |-> 1, j |-> 0, c |-> 5, s |-> -1], [i |-> 2, j |-> 0, c |-> 6, s |-> 1], [i |-> 2, j |-> 0, c |-> 7, s |-> -1], [i |-> 3, j |-> 0, c |-> 2, s |-> 1], [i |-> 3, j |-> 0, c |-> 3, s |-> -1]>>, <<[i |-> 1, j |-> 0, c |-> 6, s |-> 1], [i |-> 1, j |-> 0, c |-> 7, s |-> -1], [i |-> 2, j |-> 0, c |-> 0, s |-> 1], [i |-> 2, j |-> 0, c |-> 1, s |-> -1], [i |-> 3, j |-> 0, c |-> 2, s |-> 1], [i |-> 3, j |-> 0, c |-> 3, s |-> -1]>>, <<[i |-> 1, j |-> 0, c |-> 6, s |-> 1], [i |-> 1, j |-> 0, c |-> 7, s |-> -1], [i |-> 2, j |-> 0, c |-> 0, s |-> 1], [i |-> 2, j |-> 0, c |-> 1, s |-> -1], [i |-> 3, j |-> 0, c |-> 6, s |-> 1], [i |-> 3, j |-> 0, c |-> 7, s |-> -1]>>, <<[i |-> 1, j |-> 0, c |-> 6, s |-> 1], [i |-> 1, j |-> 0, c |-> 7, s |-> -1], [i |-> 2, j |-> 0, c |-> 2, s |-> 1], [i |-> 2, j |-> 0, c |-> 3, s |-> -1], [i |-> 3, j |-> 0, c |-> 4, s |-> 1], [i |-> 3, j |-> 0, c |-> 5, s |-> -1]>>, <<[i |-> 1, j |-> 0, c |-> 6, s |-> 1], [i |-> 1, j |-> 0, c |-> 7, s |-> -1], [i |-> 2, j |-> 0, c |-> 2, s |-> 1], [i |-> 2, j |-> 0, c |-> 3, s |-> -1], [i |-> 3, j |-> 0, c |-> 6, s |-> 1], [i |-> 3, j |-> 0, c |-> 7, s |-> -1]>>, <<[i |-> 1, j |-> 0, c |-> 6, s |-> 1], [i |-> 1, j |-> 0, c |-> 7, s |-> -1], [i |-> 2, j |-> 0, c |-> 4, s |-> 1], [i |-> 2, j |-> 0, c |-> 5, s |-> -1], [i |-> 3, j |-> 0, c |-> 0, s |-> 1], [i |-> 3, j |-> 0, c |-> 1, s |-> -1]>>, <<[i |-> 1, j |-> 0, c |-> 6, s |-> 1], [i |-> 1, j |-> 0, c |-> 7, s |-> -1], [i |-> 2, j |-> 0, c |-> 4, s |-> 1], [i |-> 2, j |-> 0, c |-> 5, s |-> -1], [i |-> 3, j |-> 0, c |-> 2, s |-> 1], [i |-> 3, j |-> 0, c |-> 3, s |-> -1]>>, <<[i |-> 1, j |-> 0, c |-> 6, s |-> 1], [i |-> 1, j |-> 0, c |-> 7, s |-> -1], [i |-> 2, j |-> 0, c |-> 4, s |-> 1], [i |-> 2, j |-> 0, c |-> 5, s |-> -1], [i |-> 3, j |-> 0, c |-> 6, s |-> 1], [i |-> 3, j |-> 0, c |-> 7, s |-> -1]>>, <<[i |-> 1, j |-> 0, c |-> 6, s |-> 1], [i |-> 1, j |-> 0, c |-> 7, s |-> -1], [i |-> 2, j |-> 0, c |-> 6, s |-> 1], [i |-> 2, j |-> 0, c |-> 7, s |-> -1], [i |-> 3, j |-> 0, c |-> 0, s |-> 1], [i |-> 3, j |-> 0, c |-> 1, s |-> -1]>>, <<[i |-> 1, j |-> 0, c |-> 6, s |-> 1], [i |-> 1, j |-> 0, c |-> 7, s |-> -1], [i |-> 2, j |-> 0, c |-> 6, s |-> 1], [i |-> 2, j |-> 0, c |-> 7, s |-> -1], [i |-> 3, j |-> 0, c |-> 4, s |-> 1], [i |-> 3, j |-> 0, c |-> 5, s |-> -1]>>>>,
   minus |-> <<>>],
  [name |-> "dcombprism", kind |-> "poly", convex |-> FALSE,
   verts |-> <<<<0, 0, 0>>, <<1, 0, 0>>, <<2, 0, 0>>, <<3, 0, 0>>, <<4, 0, 0>>, <<5, 0, 0>>, <<6, 0, 0>>, <<7, 0, 0>>, <<7, 1, 0>>, <<7, 2, 0>>, <<7, 3, 0>>, <<7, 4, 0>>, <<7, 5, 0>>, <<7, 6, 0>>, <<7, 7, 0>>, <<6, 7, 0>>, <<6, 6, 0>>, <<6, 5, 0>>, <<6, 4, 0>>, <<6, 3, 0>>, <<6, 2, 0>>, <<6, 1, 0>>, <<5, 1, 0>>, <<5, 2, 0>>, <<5, 3, 0>>, <<5, 4, 0>>, <<5, 5, 0>>, <<5, 6, 0>>, <<5, 7, 0>>, <<4, 7, 0>>, <<4, 6, 0>>, <<4, 5, 0>>, <<4, 4, 0>>, <<4, 3, 0>>, <<4, 2, 0>>, <<4, 1, 0>>, <<3, 1, 0>>, <<3, 2, 0>>, <<3, 3, 0>>, <<3, 4, 0>>, <<3, 5, 0>>, <<3, 6, 0>>, <<3, 7, 0>>, <<2, 7, 0>>, <<2, 6, 0>>, <<2, 5, 0>>, <<2, 4, 0>>, <<2, 3, 0>>, <<2, 2, 0>>, <<2, 1, 0>>, <<1, 1, 0>>, <<1, 2, 0>>, <<1, 3, 0>>, <<1, 4, 0>>, <<1, 5, 0>>, <<1, 6, 0>>, <<1, 7, 0>>, <<0, 7, 0>>, <<0, 6, 0>>, <<0, 5, 0>>, <<0, 4, 0>>, <<0, 3, 0>>, <<0, 2, 0>>, <<0, 1, 0>>, <<0, 0, 7>>, <<1, 0, 7>>, <<2, 0, 7>>, <<3, 0, 7>>, <<4, 0, 7>>, <<5, 0, 7>>, <<6, 0, 7>>, <<7, 0, 7>>, <<7, 1, 7>>, <<7, 2, 7>>, <<7, 3, 7>>, <<7, 4, 7>>, <<7, 5, 7>>, <<7, 6, 7>>, <<7, 7, 7>>, <<6, 7, 7>>, <<6, 6, 7>>, <<6, 5, 7>>, <<6, 4, 7>>, <<6, 3, 7>>, <<6, 2, 7>>, <<6, 1, 7>>, <<5, 1, 7>>, <<5, 2, 7>>, <<5, 3, 7>>, <<5, 4, 7>>, <<5, 5, 7>>, <<5, 6, 7>>, <<5, 7, 7>>, <<4, 7, 7>>, <<4, 6, 7>>, <<4, 5, 7>>, <<4, 4, 7>>, <<4, 3, 7>>, <<4, 2, 7>>, <<4, 1, 7>>, <<3, 1, 7>>, <<3, 2, 7>>, <<3, 3, 7>>, <<3, 4, 7>>, <<3, 5, 7>>, <<3, 6, 7>>, <<3, 7, 7>>, <<2, 7, 7>>, <<2, 6, 7>>, <<2, 5, 7>>, <<2, 4, 7>>, <<2, 3, 7>>, <<2, 2, 7>>, <<2, 1, 7>>, <<1, 1, 7>>, <<1, 2, 7>>, <<1, 3, 7>>, <<1, 4, 7>>, <<1, 5, 7>>, <<1, 6, 7>>, <<1, 7, 7>>, <<0, 7, 7>>, <<0, 6, 7>>, <<0, 5, 7>>, <<0, 4, 7>>, <<0, 3, 7>>, <<0, 2, 7>>, <<0, 1, 7>>>>,
   faces |-> <<<<64, 63, 62, 61, 60, 59, 58, 57, 56, 55, 54, 53, 52, 51, 50, 49, 48, 47, 46, 45, 44, 43, 42, 41, 40, 39, 38, 37, 36, 35, 34, 33, 32, 31, 30, 29, 28, 27, 26, 25, 24, 23, 22, 21, 20, 19, 18, 17, 16, 15, 14, 13, 12, 11, 10, 9, 8, 7, 6, 5, 4, 3, 2, 1>>, <<65, 66, 67, 68, 69, 70, 71, 72, 73, 74, 75, 76, 77, 78, 79, 80, 81, 82, 83, 84, 85, 86, 87, 88, 89, 90, 91, 92, 93, 94, 95, 96, 97, 98, 99, 100, 101, 102, 103, 104, 105, 106, 107, 108, 109, 110, 111, 112, 113, 114, 115, 116, 117, 118, 119, 120, 121, 122, 123, 124, 125, 126, 127, 128>>, <<1, 2, 66, 65>>, <<2, 3, 67, 66>>, <<3, 4, 68, 67>>, <<4, 5, 69, 68>>, <<5, 6, 70, 69>>, <<6, 7, 71, 70>>, <<7, 8, 72, 71>>, <<8, 9, 73, 72>>, <<9, 10, 74, 73>>, <<10, 11, 75, 74>>, <<11, 12, 76, 75>>, <<12, 13, 77, 76>>, <<13, 14, 78, 77>>, <<14, 15, 79, 78>>, <<15, 16, 80, 79>>, <<16, 17, 81, 80>>, <<17, 18, 82, 81>>, <<18, 19, 83, 82>>, <<19, 20, 84, 83>>, <<20, 21, 85, 84>>, <<21, 22, 86, 85>>, <<22, 23, 87, 86>>, <<23, 24, 88, 87>>, <<24, 25, 89, 88>>, <<25, 26, 90, 89>>, <<26, 27, 91, 90>>, <<27, 28, 92, 91>>, <<28, 29, 93, 92>>, <<29, 30, 94, 93>>, <<30, 31, 95, 94>>, <<31, 32, 96, 95>>, <<32, 33, 97, 96>>, <<33, 34, 98, 97>>, <<34, 35, 99, 98>>, <<35, 36, 100, 99>>, <<36, 37, 101, 100>>, <<37, 38, 102, 101>>, <<38, 39, 103, 102>>, <<39, 40, 104, 103>>, <<40, 41, 105, 104>>, <<41, 42, 106, 105>>, <<42, 43, 107, 106>>, <<43, 44, 108, 107>>, <<44, 45, 109, 108>>, <<45, 46, 110, 109>>, <<46, 47, 111, 110>>, <<47, 48, 112, 111>>, <<48, 49, 113, 112>>, <<49, 50, 114, 113>>, <<50, 51, 115, 114>>, <<51, 52, 116, 115>>, <<52, 53, 117, 116>>, <<53, 54, 118, 117>>, <<54, 55, 119, 118>>, <<55, 56, 120, 119>>, <<56, 57, 121, 120>>, <<57, 58, 122, 121>>, <<58, 59, 123, 122>>, <<59, 60, 124, 123>>, <<60, 61, 125, 124>>, <<61, 62, 126, 125>>, <<62, 63, 127, 126>>, <<63, 64, 128, 127>>, <<64, 1, 65, 128>>>>,
   parts |-> <<<<[i |-> 1, j |-> 0, c |-> 0, s |-> 1], [i |-> 1, j |-> 0, c |-> 7, s |-> -1], [i |-> 2, j |-> 0, c |-> 0, s |-> 1], [i |-> 2, j |-> 0, c |-> 1, s |-> -1], [i |-> 3, j |-> 0, c |-> 0, s |-> 1], [i |-> 3, j |-> 0, c |-> 7, s |-> -1]>>, <<[i |-> 1, j |-> 0, c |-> 0, s |-> 1], [i |-> 1, j |-> 0, c |-> 1, s |-> -1], [i |-> 2, j |-> 0, c |-> 0, s |-> 1], [i |-> 2, j |-> 0, c |-> 7, s |-> -1], [i |-> 3, j |-> 0, c |-> 0, s |-> 1], [i |-> 3, j |-> 0, c |-> 7, s |-> -1]>>, <<[i |-> 1, j |-> 0, c |-> 2, s |-> 1], [i |-> 1, j |-> 0, c |-> 3, s |-> -1], [i |-> 2, j |-> 0, c |-> 0, s |-> 1], [i |-> 2, j |-> 0, c |-> 7, s |-> -1], [i |-> 3, j |-> 0, c |-> 0, s |-> 1], [i |-> 3, j |-> 0, c |-> 7, s |-> -1]>>, <<[i |-> 1, j |-> 0, c |-> 4, s |-> 1], [i |-> 1, j |-> 0, c |-> 5, s |-> -1], [i |-> 2, j |-> 0, c |-> 0, s |-> 1], [i |-> 2, j |-> 0, c |-> 7, s |-> -1], [i |-> 3, j |-> 0, c |-> 0, s |-> 1], [i |-> 3, j |-> 0, c |-> 7, s |-> -1]>>, <<[i |-> 1, j |-> 0, c |-> 6, s |-> 1], [i |-> 1, j |-> 0, c |-> 7, s |-> -1], [i |-> 2, j |-> 0, c |-> 0, s |-> 1], [i |-> 2, j |-> 0, c |-> 7, s |-> -1], [i |-> 3, j |-> 0, c |-> 0, s |-> 1], [i |-> 3, j |-> 0, c |-> 7, s |-> -1]>>>>,
   minus |-> <<>>],
  [name |-> "dstairprism", kind |-> "poly", convex |-> FALSE,
   verts |-> <<<<0, 0, 2>>, <<1, 0, 2>>, <<2, 0, 2>>, <<3, 0, 2>>, <<4, 0, 2>>, <<5, 0, 2>>, <<6, 0, 2>>, <<7, 0, 2>>, <<7, 1, 2>>, <<6, 1, 2>>, <<6, 2, 2>>, <<5, 2, 2>>, <<5, 3, 2>>, <<4, 3, 2>>, <<4, 4, 2>>, <<3, 4, 2>>, <<3, 5, 2>>, <<2, 5, 2>>, <<2, 6, 2>>, <<1, 6, 2>>, <<1, 7, 2>>, <<0, 7, 2>>, <<0, 6, 2>>, <<0, 5, 2>>, <<0, 4, 2>>, <<0, 3, 2>>, <<0, 2, 2>>, <<0, 1, 2>>, <<0, 0, 7>>, <<1, 0, 7>>, <<2, 0, 7>>, <<3, 0, 7>>, <<4, 0, 7>>, <<5, 0, 7>>, <<6, 0, 7>>, <<7, 0, 7>>, <<7, 1, 7>>, <<6, 1, 7>>, <<6, 2, 7>>, <<5, 2, 7>>, <<5, 3, 7>>, <<4, 3, 7>>, <<4, 4, 7>>, <<3, 4, 7>>, <<3, 5, 7>>, <<2, 5, 7>>, <<2, 6, 7>>, <<1, 6, 7>>, <<1, 7, 7>>, <<0, 7, 7>>, <<0, 6, 7>>, <<0, 5, 7>>, <<0, 4, 7>>, <<0, 3, 7>>, <<0, 2, 7>>, <<0, 1, 7>>>>,
   faces |-> <<<<28, 27, 26, 25, 24, 23, 22, 21, 20, 19, 18, 17, 16, 15, 14, 13, 12, 11, 10, 9, 8, 7, 6, 5, 4, 3, 2, 1>>, <<29, 30, 31, 32, 33, 34, 35, 36, 37, 38, 39, 40, 41, 42, 43, 44, 45, 46, 47, 48, 49, 50, 51, 52, 53, 54, 55, 56>>, <<1, 2, 30, 29>>, <<2, 3, 31, 30>>, <<3, 4, 32, 31>>, <<4, 5, 33, 32>>, <<5, 6, 34, 33>>, <<6, 7, 35, 34>>, <<7, 8, 36, 35>>, <<8, 9, 37, 36>>, <<9, 10, 38, 37>>, <<10, 11, 39, 38>>, <<11, 12, 40, 39>>, <<12, 13, 41, 40>>, <<13, 14, 42, 41>>, <<14, 15, 43, 42>>, <<15, 16, 44, 43>>, <<16, 17, 45, 44>>, <<17, 18, 46, 45>>, <<18, 19, 47, 46>>, <<19, 20, 48, 47>>, <<20, 21, 49, 48>>, <<21, 22, 50, 49>>, <<22, 23, 51, 50>>, <<23, 24, 52, 51>>, <<24, 25, 53, 52>>, <<25, 26, 54, 53>>, <<26, 27, 55, 54>>, <<27, 28, 56, 55>>, <<28, 1, 29, 56>>>>,
   parts |-> <<<<[i |-> 1, j |-> 0, c |-> 0, s |-> 1], [i |-> 1, j |-> 0, c |-> 7, s |-> -1], [i |-> 2, j |-> 0, c |-> 0, s |-> 1], [i |-> 2, j |-> 0, c |-> 1, s |-> -1], [i |-> 3, j |-> 0, c |-> 2, s |-> 1], [i |-> 3, j |-> 0, c |-> 7, s |-> -1]>>, <<[i |-> 1, j |-> 0, c |-> 0, s |-> 1], [i |-> 1, j |-> 0, c |-> 6, s |-> -1], [i |-> 2, j |-> 0, c |-> 1, s |-> 1], [i |-> 2, j |-> 0, c |-> 2, s |-> -1], [i |-> 3, j |-> 0, c |-> 2, s |-> 1], [i |-> 3, j |-> 0, c |-> 7, s |-> -1]>>, <<[i |-> 1, j |-> 0, c |-> 0, s |-> 1], [i |-> 1, j |-> 0, c |-> 5, s |-> -1], [i |-> 2, j |-> 0, c |-> 2, s |-> 1], [i |-> 2, j |-> 0, c |-> 3, s |-> -1], [i |-> 3, j |-> 0, c |-> 2, s |-> 1], [i |-> 3, j |-> 0, c |-> 7, s |-> -1]>>, <<[i |-> 1, j |-> 0, c |-> 0, s |-> 1], [i |-> 1, j |-> 0, c |-> 4, s |-> -1], [i |-> 2, j |-> 0, c |-> 3, s |-> 1], [i |-> 2, j |-> 0, c |-> 4, s |-> -1], [i |-> 3, j |-> 0, c |-> 2, s |-> 1], [i |-> 3, j |-> 0, c |-> 7, s |-> -1]>>, <<[i |-> 1, j |-> 0, c |-> 0, s |-> 1], [i |-> 1, j |-> 0, c |-> 3, s |-> -1], [i |-> 2, j |-> 0, c |-> 4, s |-> 1], [i |-> 2, j |-> 0, c |-> 5, s |-> -1], [i |-> 3, j |-> 0, c |-> 2, s |-> 1], [i |-> 3, j |-> 0, c |-> 7, s |-> -1]>>, <<[i |-> 1, j |-> 0, c |-> 0, s |-> 1], [i |-> 1, j |-> 0, c |-> 2, s |-> -1], [i |-> 2, j |-> 0, c |-> 5, s |-> 1], [i |-> 2, j |-> 0, c |-> 6, s |-> -1], [i |-> 3, j |-> 0, c |-> 2, s |-> 1], [i |-> 3, j |-> 0, c |-> 7, s |-> -1]>>, <<[i |-> 1, j |-> 0, c |-> 0, s |-> 1], [i |-> 1, j |-> 0, c |-> 1, s |-> -1], [i |-> 2, j |-> 0, c |-> 6, s |-> 1], [i |-> 2, j |-> 0, c |-> 7, s |-> -1], [i |-> 3, j |-> 0, c |-> 2, s |-> 1], [i |-> 3, j |-> 0, c |-> 7, s |-> -1]>>>>,
   minus |-> <<>>],
  [name |-> "blob40", kind |-> "poly", convex |-> FALSE,
   verts |-> <<<<1, 3, 4>>, <<1, 4, 4>>, <<1, 4, 3>>, <<1, 3, 3>>, <<2, 3, 3>>, <<2, 3, 4>>, <<2, 4, 4>>, <<2, 4, 3>>, <<2, 1, 3>>, <<2, 2, 3>>, <<2, 2, 2>>, <<2, 1, 2>>, <<3, 1, 2>>, <<3, 2, 2>>, <<3, 2, 3>>, <<3, 1, 3>>, <<2, 3, 2>>, <<2, 3, 1>>, <<2, 2, 1>>, <<3, 2, 1>>, <<3, 3, 2>>, <<3, 3, 1>>, <<2, 2, 4>>, <<3, 2, 4>>, <<2, 2, 5>>, <<2, 3, 5>>, <<3, 2, 5>>, <<3, 3, 5>>, <<2, 4, 2>>, <<3, 4, 2>>, <<2, 4, 5>>, <<3, 4, 5>>, <<2, 5, 3>>, <<2, 5, 2>>, <<3, 5, 3>>, <<3, 5, 2>>, <<2, 5, 4>>, <<3, 5, 4>>, <<2, 5, 5>>, <<3, 4, 4>>, <<3, 5, 5>>, <<4, 2, 1>>, <<4, 2, 2>>, <<4, 3, 1>>, <<4, 2, 3>>, <<4, 2, 4>>, <<4, 2, 5>>, <<4, 3, 5>>, <<3, 4, 1>>, <<4, 4, 2>>, <<4, 4, 1>>, <<4, 4, 5>>, <<4, 4, 4>>, <<4, 5, 2>>, <<4, 5, 4>>, <<4, 5, 3>>, <<3, 5, 1>>, <<3, 6, 1>>, <<3, 6, 0>>, <<3, 5, 0>>, <<4, 5, 0>>, <<4, 6, 0>>, <<4, 6, 1>>, <<4, 5, 1>>, <<3, 6, 2>>, <<4, 6, 2>>, <<3, 6, 3>>, <<4, 6, 3>>, <<4, 1, 3>>, <<4, 1, 2>>, <<5, 1, 2>>, <<5, 2, 2>>, <<5, 2, 3>>, <<5, 1, 3>>, <<4, 1, 5>>, <<4, 1, 4>>, <<5, 1, 4>>, <<5, 2, 4>>, <<5, 2, 5>>, <<5, 1, 5>>, <<5, 2, 1>>, <<5, 3, 1>>, <<5, 3, 2>>, <<5, 3, 3>>, <<5, 3, 4>>, <<5, 3, 5>>, <<5, 4, 1>>, <<5, 4, 2>>, <<5, 4, 4>>, <<5, 4, 5>>, <<5, 5, 2>>, <<5, 5, 3>>, <<5, 4, 3>>, <<5, 5, 4>>, <<4, 5, 5>>, <<5, 5, 5>>, <<6, 3, 2>>, <<6, 4, 2>>, <<6, 4, 3>>, <<6, 3, 3>>, <<6, 4, 4>>, <<6, 3, 4>>>>,
   faces |-> <<<<1, 2, 3, 4>>, <<5, 6, 1, 4>>, <<3, 2, 7, 8>>, <<3, 8, 5, 4>>, <<1, 6, 7, 2>>, <<9, 10, 11, 12>>, <<13, 14, 15, 16>>, <<13, 16, 9, 12>>, <<11, 14, 13, 12>>, <<9, 16, 15, 10>>, <<11, 17, 18, 19>>, <<20, 14, 11, 19>>, <<18, 17, 21, 22>>, <<18, 22, 20, 19>>, <<10, 5, 17, 11>>, <<23, 6, 5, 10>>, <<15, 24, 23, 10>>, <<25, 26, 6, 23>>, <<24, 27, 25, 23>>, <<25, 27, 28, 26>>, <<5, 8, 29, 17>>, <<29, 30, 21, 17>>, <<26, 31, 7, 6>>, <<26, 28, 32, 31>>, <<8, 33, 34, 29>>, <<34, 33, 35, 36>>, <<34, 36, 30, 29>>, <<7, 37, 33, 8>>, <<33, 37, 38, 35>>, <<31, 39, 37, 7>>, <<40, 38, 41, 32>>, <<37, 39, 41, 38>>, <<31, 32, 41, 39>>, <<42, 43, 14, 20>>, <<22, 44, 42, 20>>, <<43, 45, 15, 14>>, <<45, 46, 24, 15>>, <<46, 47, 27, 24>>, <<27, 47, 48, 28>>, <<21, 30, 49, 22>>, <<49, 30, 50, 51>>, <<49, 51, 44, 22>>, <<40, 32, 52, 53>>, <<28, 48, 52, 32>>, <<36, 54, 50, 30>>, <<35, 38, 55, 56>>, <<40, 53, 55, 38>>, <<57, 58, 59, 60>>, <<61, 62, 63, 64>>, <<61, 64, 57, 60>>, <<59, 58, 63, 62>>, <<59, 62, 61, 60>>, <<36, 65, 58, 57>>, <<64, 63, 66, 54>>, <<64, 54, 36, 57>>, <<58, 65, 66, 63>>, <<35, 67, 65, 36>>, <<54, 66, 68, 56>>, <<65, 67, 68, 66>>, <<35, 56, 68, 67>>, <<69, 45, 43, 70>>, <<71, 72, 73, 74>>, <<71, 74, 69, 70>>, <<43, 72, 71, 70>>, <<69, 74, 73, 45>>, <<75, 47, 46, 76>>, <<77, 78, 79, 80>>, <<77, 80, 75, 76>>, <<46, 78, 77, 76>>, <<75, 80, 79, 47>>, <<81, 82, 83, 72>>, <<81, 72, 43, 42>>, <<44, 82, 81, 42>>, <<72, 83, 84, 73>>, <<73, 84, 85, 78>>, <<73, 78, 46, 45>>, <<78, 85, 86, 79>>, <<47, 79, 86, 48>>, <<82, 87, 88, 83>>, <<51, 50, 88, 87>>, <<51, 87, 82, 44>>, <<85, 89, 90, 86>>, <<48, 86, 90, 52>>, <<88, 91, 92, 93>>, <<54, 56, 92, 91>>, <<54, 91, 88, 50>>, <<93, 92, 94, 89>>, <<56, 55, 94, 92>>, <<52, 95, 55, 53>>, <<89, 94, 96, 90>>, <<55, 95, 96, 94>>, <<52, 90, 96, 95>>, <<97, 98, 99, 100>>, <<97, 100, 84, 83>>, <<88, 93, 99, 98>>, <<88, 98, 97, 83>>, <<100, 99, 101, 102>>, <<100, 102, 85, 84>>, <<93, 89, 101, 99>>, <<85, 102, 101, 89>>>>,
   parts |-> <<<<[i |-> 1, j |-> 0, c |-> 1, s |-> 1], [i |-> 1, j |-> 0, c |-> 2, s |-> -1], [i |-> 2, j |-> 0, c |-> 3, s |-> 1], [i |-> 2, j |-> 0, c |-> 4, s |-> -1], [i |-> 3, j |-> 0, c |-> 3, s |-> 1], [i |-> 3, j |-> 0, c |-> 4, s |-> -1]>>, <<[i |-> 1, j |-> 0, c |-> 2, s |-> 1], [i |-> 1, j |-> 0, c |-> 3, s |-> -1], [i |-> 2, j |-> 0, c |-> 1, s |-> 1], [i |-> 2, j |-> 0, c |-> 2, s |-> -1], [i |-> 3, j |-> 0, c |-> 2, s |-> 1], [i |-> 3, j |-> 0, c |-> 3, s |-> -1]>>, <<[i |-> 1, j |-> 0, c |-> 2, s |-> 1], [i |-> 1, j |-> 0, c |-> 3, s |-> -1], [i |-> 2, j |-> 0, c |-> 2, s |-> 1], [i |-> 2, j |-> 0, c |-> 3, s |-> -1], [i |-> 3, j |-> 0, c |-> 1, s |-> 1], [i |-> 3, j |-> 0, c |-> 2, s |-> -1]>>, <<[i |-> 1, j |-> 0, c |-> 2, s |-> 1], [i |-> 1, j |-> 0, c |-> 3, s |-> -1], [i |-> 2, j |-> 0, c |-> 2, s |-> 1], [i |-> 2, j |-> 0, c |-> 3, s |-> -1], [i |-> 3, j |-> 0, c |-> 2, s |-> 1], [i |-> 3, j |-> 0, c |-> 3, s |-> -1]>>, <<[i |-> 1, j |-> 0, c |-> 2, s |-> 1], [i |-> 1, j |-> 0, c |-> 3, s |-> -1], [i |-> 2, j |-> 0, c |-> 2, s |-> 1], [i |-> 2, j |-> 0, c |-> 3, s |-> -1], [i |-> 3, j |-> 0, c |-> 3, s |-> 1], [i |-> 3, j |-> 0, c |-> 4, s |-> -1]>>, <<[i |-> 1, j |-> 0, c |-> 2, s |-> 1], [i |-> 1, j |-> 0, c |-> 3, s |-> -1], [i |-> 2, j |-> 0, c |-> 2, s |-> 1], [i |-> 2, j |-> 0, c |-> 3, s |-> -1], [i |-> 3, j |-> 0, c |-> 4, s |-> 1], [i |-> 3, j |-> 0, c |-> 5, s |-> -1]>>, <<[i |-> 1, j |-> 0, c |-> 2, s |-> 1], [i |-> 1, j |-> 0, c |-> 3, s |-> -1], [i |-> 2, j |-> 0, c |-> 3, s |-> 1], [i |-> 2, j |-> 0, c |-> 4, s |-> -1], [i |-> 3, j |-> 0, c |-> 2, s |-> 1], [i |-> 3, j |-> 0, c |-> 3, s |-> -1]>>, <<[i |-> 1, j |-> 0, c |-> 2, s |-> 1], [i |-> 1, j |-> 0, c |-> 3, s |-> -1], [i |-> 2, j |-> 0, c |-> 3, s |-> 1], [i |-> 2, j |-> 0, c |-> 4, s |-> -1], [i |-> 3, j |-> 0, c |-> 3, s |-> 1], [i |-> 3, j |-> 0, c |-> 4, s |-> -1]>>, <<[i |-> 1, j |-> 0, c |-> 2, s |-> 1], [i |-> 1, j |-> 0, c |-> 3, s |-> -1], [i |-> 2, j |-> 0, c |-> 3, s |-> 1], [i |-> 2, j |-> 0, c |-> 4, s |-> -1], [i |-> 3, j |-> 0, c |-> 4, s |-> 1], [i |-> 3, j |-> 0, c |-> 5, s |-> -1]>>, <<[i |-> 1, j |-> 0, c |-> 2, s |-> 1], [i |-> 1, j |-> 0, c |-> 3, s |-> -1], [i |-> 2, j |-> 0, c |-> 4, s |-> 1], [i |-> 2, j |-> 0, c |-> 5, s |-> -1], [i |-> 3, j |-> 0, c |-> 2, s |-> 1], [i |-> 3, j |-> 0, c |-> 3, s |-> -1]>>, <<[i |-> 1, j |-> 0, c |-> 2, s |-> 1], [i |-> 1, j |-> 0, c |-> 3, s |-> -1], [i |-> 2, j |-> 0, c |-> 4, s |-> 1], [i |-> 2, j |-> 0, c |-> 5, s |-> -1], [i |-> 3, j |-> 0, c |-> 3, s |-> 1], [i |-> 3, j |-> 0, c |-> 4, s |-> -1]>>, <<[i |-> 1, j |-> 0, c |-> 2, s |-> 1], [i |-> 1, j |-> 0, c |-> 3, s |-> -1], [i |-> 2, j |-> 0, c |-> 4, s |-> 1], [i |-> 2, j |-> 0, c |-> 5, s |-> -1], [i |-> 3, j |-> 0, c |-> 4, s |-> 1], [i |-> 3, j |-> 0, c |-> 5, s |-> -1]>>, <<[i |-> 1, j |-> 0, c |-> 3, s |-> 1], [i |-> 1, j |-> 0, c |-> 4, s |-> -1], [i |-> 2, j |-> 0, c |-> 2, s |-> 1], [i |-> 2, j |-> 0, c |-> 3, s |-> -1], [i |-> 3, j |-> 0, c |-> 1, s |-> 1], [i |-> 3, j |-> 0, c |-> 2, s |-> -1]>>, <<[i |-> 1, j |-> 0, c |-> 3, s |-> 1], [i |-> 1, j |-> 0, c |-> 4, s |-> -1], [i |-> 2, j |-> 0, c |-> 2, s |-> 1], [i |-> 2, j |-> 0, c |-> 3, s |-> -1], [i |-> 3, j |-> 0, c |-> 2, s |-> 1], [i |-> 3, j |-> 0, c |-> 3, s |-> -1]>>, <<[i |-> 1, j |-> 0, c |-> 3, s |-> 1], [i |-> 1, j |-> 0, c |-> 4, s |-> -1], [i |-> 2, j |-> 0, c |-> 2, s |-> 1], [i |-> 2, j |-> 0, c |-> 3, s |-> -1], [i |-> 3, j |-> 0, c |-> 3, s |-> 1], [i |-> 3, j |-> 0, c |-> 4, s |-> -1]>>, <<[i |-> 1, j |-> 0, c |-> 3, s |-> 1], [i |-> 1, j |-> 0, c |-> 4, s |-> -1], [i |-> 2, j |-> 0, c |-> 2, s |-> 1], [i |-> 2, j |-> 0, c |-> 3, s |-> -1], [i |-> 3, j |-> 0, c |-> 4, s |-> 1], [i |-> 3, j |-> 0, c |-> 5, s |-> -1]>>, <<[i |-> 1, j |-> 0, c |-> 3, s |-> 1], [i |-> 1, j |-> 0, c |-> 4, s |-> -1], [i |-> 2, j |-> 0, c |-> 3, s |-> 1], [i |-> 2, j |-> 0, c |-> 4, s |-> -1], [i |-> 3, j |-> 0, c |-> 1, s |-> 1], [i |-> 3, j |-> 0, c |-> 2, s |-> -1]>>, <<[i |-> 1, j |-> 0, c |-> 3, s |-> 1], [i |-> 1, j |-> 0, c |-> 4, s |-> -1], [i |-> 2, j |-> 0, c |-> 3, s |-> 1], [i |-> 2, j |-> 0, c |-> 4, s |-> -1], [i |-> 3, j |-> 0, c |-> 2, s |-> 1], [i |-> 3, j |-> 0, c |-> 3, s |-> -1]>>, <<[i |-> 1, j |-> 0, c |-> 3, s |-> 1], [i |-> 1, j |-> 0, c |-> 4, s |-> -1], [i |-> 2, j |-> 0, c |-> 3, s |-> 1], [i |-> 2, j |-> 0, c |-> 4, s |-> -1], [i |-> 3, j |-> 0, c |-> 3, s |-> 1], [i |-> 3, j |-> 0, c |-> 4, s |-> -1]>>, <<[i |-> 1, j |-> 0, c |-> 3, s |-> 1], [i |-> 1, j |-> 0, c |-> 4, s |-> -1], [i |-> 2, j |-> 0, c |-> 3, s |-> 1], [i |-> 2, j |-> 0, c |-> 4, s |-> -1], [i |-> 3, j |-> 0, c |-> 4, s |-> 1], [i |-> 3, j |-> 0, c |-> 5, s |-> -1]>>, <<[i |-> 1, j |-> 0, c |-> 3, s |-> 1], [i |-> 1, j |-> 0, c |-> 4, s |-> -1], [i |-> 2, j |-> 0, c |-> 4, s |-> 1], [i |-> 2, j |-> 0, c |-> 5, s |-> -1], [i |-> 3, j |-> 0, c |-> 2, s |-> 1], [i |-> 3, j |-> 0, c |-> 3, s |-> -1]>>, <<[i |-> 1, j |-> 0, c |-> 3, s |-> 1], [i |-> 1, j |-> 0, c |-> 4, s |-> -1], [i |-> 2, j |-> 0, c |-> 4, s |-> 1], [i |-> 2, j |-> 0, c |-> 5, s |-> -1], [i |-> 3, j |-> 0, c |-> 3, s |-> 1], [i |-> 3, j |-> 0, c |-> 4, s |-> -1]>>, <<[i |-> 1, j |-> 0, c |-> 3, s |-> 1], [i |-> 1, j |-> 0, c |-> 4, s |-> -1], [i |-> 2, j |-> 0, c |-> 5, s |-> 1], [i |-> 2, j |-> 0, c |-> 6, s |-> -1], [i |-> 3, j |-> 0, c |-> 0, s |-> 1], [i |-> 3, j |-> 0, c |-> 1, s |-> -1]>>, <<[i |-> 1, j |-> 0, c |-> 3, s |-> 1], [i |-> 1, j |-> 0, c |-> 4, s |-> -1], [i |-> 2, j |-> 0, c |-> 5, s |-> 1], [i |-> 2, j |-> 0, c |-> 6, s |-> -1], [i |-> 3, j |-> 0, c |-> 1, s |-> 1], [i |-> 3, j |-> 0, c |-> 2, s |-> -1]>>, <<[i |-> 1, j |-> 0, c |-> 3, s |-> 1], [i |-> 1, j |-> 0, c |-> 4, s |-> -1], [i |-> 2, j |-> 0, c |-> 5, s |-> 1], [i |-> 2, j |-> 0, c |-> 6, s |-> -1], [i |-> 3, j |-> 0, c |-> 2, s |-> 1], [i |-> 3, j |-> 0, c |-> 3, s |-> -1]>>, <<[i |-> 1, j |-> 0, c |-> 4, s |-> 1], [i |-> 1, j |-> 0, c |-> 5, s |-> -1], [i |-> 2, j |-> 0, c |-> 1, s |-> 1], [i |-> 2, j |-> 0, c |-> 2, s |-> -1], [i |-> 3, j |-> 0, c |-> 2, s |-> 1], [i |-> 3, j |-> 0, c |-> 3, s |-> -1]>>, <<[i |-> 1, j |-> 0, c |-> 4, s |-> 1], [i |-> 1, j |-> 0, c |-> 5, s |-> -1], [i |-> 2, j |-> 0, c |-> 1, s |-> 1], [i |-> 2, j |-> 0, c |-> 2, s |-> -1], [i |-> 3, j |-> 0, c |-> 4, s |-> 1], [i |-> 3, j |-> 0, c |-> 5, s |-> -1]>>, <<[i |-> 1, j |-> 0, c |-> 4, s |-> 1], [i |-> 1, j |-> 0, c |-> 5, s |-> -1], [i |-> 2, j |-> 0, c |-> 2, s |-> 1], [i |-> 2, j |-> 0, c |-> 3, s |-> -1], [i |-> 3, j |-> 0, c |-> 1, s |-> 1], [i |-> 3, j |-> 0, c |-> 2, s |-> -1]>>, <<[i |-> 1, j |-> 0, c |-> 4, s |-> 1], [i |-> 1, j |-> 0, c |-> 5, s |-> -1], [i |-> 2, j |-> 0, c |-> 2, s |-> 1], [i |-> 2, j |-> 0, c |-> 3, s |-> -1], [i |-> 3, j |-> 0, c |-> 2, s |-> 1], [i |-> 3, j |-> 0, c |-> 3, s |-> -1]>>, <<[i |-> 1, j |-> 0, c |-> 4, s |-> 1], [i |-> 1, j |-> 0, c |-> 5, s |-> -1], [i |-> 2, j |-> 0, c |-> 2, s |-> 1], [i |-> 2, j |-> 0, c |-> 3, s |-> -1], [i |-> 3, j |-> 0, c |-> 3, s |-> 1], [i |-> 3, j |-> 0, c |-> 4, s |-> -1]>>, <<[i |-> 1, j |-> 0, c |-> 4, s |-> 1], [i |-> 1, j |-> 0, c |-> 5, s |-> -1], [i |-> 2, j |-> 0, c |-> 2, s |-> 1], [i |-> 2, j |-> 0, c |-> 3, s |-> -1], [i |-> 3, j |-> 0, c |-> 4, s |-> 1], [i |-> 3, j |-> 0, c |-> 5, s |-> -1]>>, <<[i |-> 1, j |-> 0, c |-> 4, s |-> 1], [i |-> 1, j |-> 0, c |-> 5, s |-> -1], [i |-> 2, j |-> 0, c |-> 3, s |-> 1], [i |-> 2, j |-> 0, c |-> 4, s |-> -1], [i |-> 3, j |-> 0, c |-> 1, s |-> 1], [i |-> 3, j |-> 0, c |-> 2, s |-> -1]>>, <<[i |-> 1, j |-> 0, c |-> 4, s |-> 1], [i |-> 1, j |-> 0, c |-> 5, s |-> -1], [i |-> 2, j |-> 0, c |-> 3, s |-> 1], [i |-> 2, j |-> 0, c |-> 4, s |-> -1], [i |-> 3, j |-> 0, c |-> 2, s |-> 1], [i |-> 3, j |-> 0, c |-> 3, s |-> -1]>>, <<[i |-> 1, j |-> 0, c |-> 4, s |-> 1], [i |-> 1, j |-> 0, c |-> 5, s |-> -1], [i |-> 2, j |-> 0, c |-> 3, s |-> 1], [i |-> 2, j |-> 0, c |-> 4, s |-> -1], [i |-> 3, j |-> 0, c |-> 3, s |-> 1], [i |-> 3, j |-> 0, c |-> 4, s |-> -1]>>, <<[i |-> 1, j |-> 0, c |-> 4, s |-> 1], [i |-> 1, j |-> 0, c |-> 5, s |-> -1], [i |-> 2, j |-> 0, c |-> 3, s |-> 1], [i |-> 2, j |-> 0, c |-> 4, s |-> -1], [i |-> 3, j |-> 0, c |-> 4, s |-> 1], [i |-> 3, j |-> 0, c |-> 5, s |-> -1]>>, <<[i |-> 1, j |-> 0, c |-> 4, s |-> 1], [i |-> 1, j |-> 0, c |-> 5, s |-> -1], [i |-> 2, j |-> 0, c |-> 4, s |-> 1], [i |-> 2, j |-> 0, c |-> 5, s |-> -1], [i |-> 3, j |-> 0, c |-> 2, s |-> 1], [i |-> 3, j |-> 0, c |-> 3, s |-> -1]>>, <<[i |-> 1, j |-> 0, c |-> 4, s |-> 1], [i |-> 1, j |-> 0, c |-> 5, s |-> -1], [i |-> 2, j |-> 0, c |-> 4, s |-> 1], [i |-> 2, j |-> 0, c |-> 5, s |-> -1], [i |-> 3, j |-> 0, c |-> 3, s |-> 1], [i |-> 3, j |-> 0, c |-> 4, s |-> -1]>>, <<[i |-> 1, j |-> 0, c |-> 4, s |-> 1], [i |-> 1, j |-> 0, c |-> 5, s |-> -1], [i |-> 2, j |-> 0, c |-> 4, s |-> 1], [i |-> 2, j |-> 0, c |-> 5, s |-> -1], [i |-> 3, j |-> 0, c |-> 4, s |-> 1], [i |-> 3, j |-> 0, c |-> 5, s |-> -1]>>, <<[i |-> 1, j |-> 0, c |-> 5, s |-> 1], [i |-> 1, j |-> 0, c |-> 6, s |-> -1], [i |-> 2, j |-> 0, c |-> 3, s |-> 1], [i |-> 2, j |-> 0, c |-> 4, s |-> -1], [i |-> 3, j |-> 0, c |-> 2, s |-> 1], [i |-> 3, j |-> 0, c |-> 3, s |-> -1]>>, <<[i |-> 1, j |-> 0, c |-> 5, s |-> 1], [i |-> 1, j |-> 0, c |-> 6, s |-> -1], [i |-> 2, j |-> 0, c |-> 3, s |-> 1], [i |-> 2, j |-> 0, c |-> 4, s |-> -1], [i |-> 3, j |-> 0, c |-> 3, s |-> 1], [i |-> 3, j |-> 0, c |-> 4, s |-> -1]>>>>,
   minus |-> <<>>]
>>

ShapeIds == 1..Len(ShapeSeq)
ShapeT == [s \in ShapeIds |-> ShapeSeq[s]]
Content(s) == UNION {Region(s.parts[k]) : k \in DOMAIN s.parts} \ UNION {Region(s.minus[k]) : k \in DOMAIN s.minus}
ContentT == [s \in ShapeIds |-> Content(ShapeT[s])]

(* the boundary description encloses exactly the content: six times the signed volume (sum over
   face fans) equals the number of atoms, every directed edge has its reverse exactly once *)
Det3(a, b, c) == a[1] * (b[2] * c[3] - b[3] * c[2]) - a[2] * (b[1] * c[3] - b[3] * c[1]) + a[3] * (b[1] * c[2] - b[2] * c[1])
FaceVol(s, f) == Sum(2..(Len(f) - 1), LAMBDA k : Det3(s.verts[f[1]], s.verts[f[k]], s.verts[f[k + 1]]))
SixVol(s) == Sum(DOMAIN s.faces, LAMBDA k : FaceVol(s, s.faces[k]))
DirEdges(s) == UNION {{<<k, m>> : m \in DOMAIN s.faces[k]} : k \in DOMAIN s.faces}
EdgeEnds(s, e) == LET f == s.faces[e[1]] IN <<f[e[2]], f[(e[2] % Len(f)) + 1]>>
ClosedBoundary(s) ==
    LET E == {EdgeEnds(s, e) : e \in DirEdges(s)}
    IN /\ Cardinality(E) = Cardinality(DirEdges(s))
       /\ \A e \in E : <<e[2], e[1]>> \in E
ShapesOK == \A s \in ShapeIds : SixVol(ShapeT[s]) = Cardinality(ContentT[s]) /\ ClosedBoundary(ShapeT[s]) /\ ContentT[s] # {}
=============================================================================
