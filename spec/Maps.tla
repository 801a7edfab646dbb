-------------------------------- MODULE Maps --------------------------------
(***************************************************************************)
(* Boundary descriptions of polyhedra: a number of vertices, a position for *)
(* each and a list of faces, every face the cycle of its vertices seen from *)
(* outside.  A description is well formed when every directed edge (dart)   *)
(* occurs in exactly one face, together with its reverse, every face has    *)
(* three or more distinct vertices, the faces around a vertex form one      *)
(* cycle and every vertex lies in at least three faces.  Descriptions are   *)
(* transformed by                                                           *)
(*   Contract  merging the two ends of an edge,                             *)
(*   Chord     cutting a face in two by a diagonal,                         *)
(*   Cone      replacing a face by triangles around a new vertex,           *)
(*   Spoil     forgetting a face or adding a vertex that is in no face,     *)
(* which reaches all mixtures of vertex degrees, on spheres, tori and       *)
(* several components.                                                      *)
(*                                                                          *)
(* Resolve is the body a three-links-per-vertex structure can hold: every   *)
(* vertex of degree k becomes a path of k-2 copies.  CutFaces is what a     *)
(* plane leaves of a description.                                           *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, FiniteSetsExt, SequencesExt, TLC, Json, Randomization

CONSTANTS Starts,       \* names of start maps
          MaxSteps,
          MaxVerts,
          Acts,         \* subset of {"contract", "chord", "cone", "spoil"}
          Sample,       \* 0: all arguments of the actions; k: k random ones per action
          WithResolve   \* check Resolve (costly on larger maps)

VARIABLES n, faces, pos, steps, refuse, cutS
vars == <<n, faces, pos, steps, refuse, cutS>>

(* ------------------------------ start maps ----------------------------- *)
G == INSTANCE Graph WITH Starts <- {}, MaxSteps <- 0, MaxVerts <- 0, Sample <- 0, nb <- <<>>, steps <- 0, last <- <<>>
RECURSIVE FaceSeq(_, _, _, _)
FaceSeq(g, u, v, u0) == \* u -> v dart, faces turn to the previous neighbour
    LET w == G!Prv(g[v], u) IN IF <<v, w>> = u0 THEN <<v>> ELSE <<v>> \o FaceSeq(g, v, w, u0)
DartsOf(g) == {<<v, g[v][k]>> : v \in 1..Len(g), k \in 1..3}
RotateMin(s) == LET k == CHOOSE k \in 1..Len(s) : \A j \in 1..Len(s) : s[k] <= s[j] IN [j \in 1..Len(s) |-> s[((k + j - 2) % Len(s)) + 1]]
LexLess(a, b) == \E k \in 1..Len(a) : /\ \A j \in 1..(k - 1) : j <= Len(b) /\ a[j] = b[j]
                                      /\ (k > Len(b) => FALSE)
                                      /\ k <= Len(b) /\ a[k] < b[k]
CubicFaces(g) == SetToSeq({RotateMin(FaceSeq(g, d[1], d[2], d)) : d \in DartsOf(g)})
\* a p x q grid on the torus, quadrilateral faces
TorusFaces(p, q) == LET id(i, j) == ((i % p) * q) + (j % q) + 1
                    IN [k \in 1..(p * q) |-> LET i == (k - 1) \div q
                                                 j == (k - 1) % q
                                             IN <<id(i, j), id(i + 1, j), id(i + 1, j + 1), id(i, j + 1)>>]
Shift(fs, m) == [k \in 1..Len(fs) |-> [j \in 1..Len(fs[k]) |-> fs[k][j] + m]]
Octa == << <<1, 3, 5>>, <<3, 2, 5>>, <<2, 4, 5>>, <<4, 1, 5>>, <<3, 1, 6>>, <<2, 3, 6>>, <<4, 2, 6>>, <<1, 4, 6>> >>
Pyr(k) == [f \in 1..(k + 1) |-> IF f <= k THEN <<f, (f % k) + 1, k + 1>> ELSE [j \in 1..k |-> k + 1 - j]]
Start(s) == CASE s = "octa" -> [n |-> 6, f |-> Octa]
              [] s = "pyr4" -> [n |-> 5, f |-> Pyr(4)]
              [] s = "pyr5" -> [n |-> 6, f |-> Pyr(5)]
              [] s = "pyr7" -> [n |-> 8, f |-> Pyr(7)]
              [] s = "pyr12" -> [n |-> 13, f |-> Pyr(12)]
              [] s = "pyr30" -> [n |-> 31, f |-> Pyr(30)]
              [] s = "pyr100" -> [n |-> 101, f |-> Pyr(100)]
              [] s = "pyr128" -> [n |-> 129, f |-> Pyr(128)]
              [] s = "torus1010" -> [n |-> 100, f |-> TorusFaces(10, 10)]
              [] s = "torus1111" -> [n |-> 121, f |-> TorusFaces(11, 11)]
              [] s = "mix100" -> LET g == CubicFaces(G!Prism(30)) IN [n |-> 100, f |-> Pyr(39) \o Shift(g, 40)]
              [] s = "mix300" -> LET g == CubicFaces(G!Prism(70)) IN [n |-> 304, f |-> CubicFaces(G!Tet) \o Shift(g, 4) \o Shift(CubicFaces(G!Prism(80)), 144)]
              [] s = "torus33" -> [n |-> 9, f |-> TorusFaces(3, 3)]
              [] s = "torus34" -> [n |-> 12, f |-> TorusFaces(3, 4)]
              [] s = "torus55" -> [n |-> 25, f |-> TorusFaces(5, 5)]
              [] s = "octatet" -> [n |-> 10, f |-> Octa \o Shift(CubicFaces(G!Tet), 6)]
              [] s = "octapyr" -> [n |-> 11, f |-> Octa \o Shift(Pyr(4), 6)]
              [] OTHER -> LET g == G!StartMap(s) IN [n |-> Len(g), f |-> CubicFaces(g)]

(* ------------------------------ vocabulary ----------------------------- *)
Nxt(f, k) == f[(k % Len(f)) + 1]
FDarts(f) == {<<f[k], Nxt(f, k)>> : k \in 1..Len(f)}
AllDarts(fs) == TLCEval(UNION {FDarts(fs[i]) : i \in 1..Len(fs)})
NDarts(fs) == FoldSeq(LAMBDA f, a : a + Len(f), 0, fs)
Degree(fs, v) == FoldSeq(LAMBDA f, a : a + Cardinality({k \in 1..Len(f) : f[k] = v}), 0, fs)
FaceCount(fs, v) == Cardinality({i \in 1..Len(fs) : \E k \in 1..Len(fs[i]) : fs[i][k] = v})
DistinctIn(f) == Cardinality({f[k] : k \in 1..Len(f)}) = Len(f)
\* the successor of v after u, in the face that holds the dart <<u, v>>
Triples(fs, v) == TLCEval(UNION {{<<fs[i][((k + Len(fs[i]) - 2) % Len(fs[i])) + 1], Nxt(fs[i], k)>> : k \in {k \in 1..Len(fs[i]) : fs[i][k] = v}} : i \in 1..Len(fs)})
RECURSIVE Around(_, _, _)
Around(T, w, w0) == LET x == (CHOOSE t \in T : t[1] = w)[2] IN IF x = w0 THEN <<w>> ELSE <<w>> \o Around(T, x, w0)
\* neighbours of v in cyclic order: after w comes the successor of v in the face that holds the dart <<w, v>>
Rot(fs, v) == LET T == Triples(fs, v)
                  w == (CHOOSE t \in T : TRUE)[1]
              IN Around(T, w, w)

WellFormed(m, fs) ==
    /\ \A i \in 1..Len(fs) : Len(fs[i]) >= 3 /\ DistinctIn(fs[i]) /\ \A k \in 1..Len(fs[i]) : fs[i][k] \in 1..m
    /\ Cardinality(AllDarts(fs)) = NDarts(fs)
    /\ LET A == AllDarts(fs) IN \A d \in A : <<d[2], d[1]>> \in A
    /\ \A v \in 1..m : Degree(fs, v) >= 3 /\ Len(Rot(fs, v)) = Degree(fs, v)
Simple(m, fs) == \A v \in 1..m : Degree(fs, v) = 3

(* ------------------------------- actions ------------------------------- *)
Drop(f, w) == SelectSeq(f, LAMBDA x : x # w)
Compact(fs, w) == [i \in 1..Len(fs) |-> [k \in 1..Len(fs[i]) |-> IF fs[i][k] > w THEN fs[i][k] - 1 ELSE fs[i][k]]]
\* replace w by u; in the two faces at the edge just drop w
Merge(fs, u, w) == Compact([i \in 1..Len(fs) |->
    IF <<u, w>> \in FDarts(fs[i]) \/ <<w, u>> \in FDarts(fs[i]) THEN Drop(fs[i], w)
    ELSE [k \in 1..Len(fs[i]) |-> IF fs[i][k] = w THEN u ELSE fs[i][k]]], w)
Some(S) == IF Sample = 0 \/ steps < 0 THEN S ELSE RandomSubset(Min({Sample, Cardinality(S)}), S)
RandPos(m) == TLCEval([v \in 1..m |-> <<(v % 7) - 3, ((v \div 7) % 7) + 7 * RandomElement({-1, 0}), RandomElement(-4..4) + 9 * (v \div 49)>>])

Keep == IF steps < 0 THEN {} ELSE {v \in 1..n : RandomElement(1..100) <= 55}
Step(m, fs) == /\ steps < MaxSteps /\ ~refuse
               /\ m <= MaxVerts
               /\ WellFormed(m, fs)
               /\ n' = m /\ faces' = fs /\ pos' = RandPos(m)
               /\ steps' = steps + 1 /\ refuse' = FALSE
               /\ cutS' = {v \in 1..m : RandomElement(1..100) <= 55}

Contract == /\ "contract" \in Acts /\ ~refuse
            /\ \E d \in Some({d \in AllDarts(faces) : d[1] < d[2]}) : Step(n - 1, Merge(faces, d[1], d[2]))
Chord == LET AD == AllDarts(faces) IN
         /\ "chord" \in Acts /\ ~refuse
         /\ \E i \in Some({i \in 1..Len(faces) : Len(faces[i]) >= 4}) :
              \E ab \in Some({ab \in (1..Len(faces[i])) \X (1..Len(faces[i])) :
                                 /\ ab[1] + 1 < ab[2] /\ ~(ab[1] = 1 /\ ab[2] = Len(faces[i]))
                                 /\ <<faces[i][ab[1]], faces[i][ab[2]]>> \notin AD}) :
                LET f == faces[i]
                    a == ab[1]
                    b == ab[2]
                IN Step(n, [faces EXCEPT ![i] = SubSeq(f, a, b)] \o << SubSeq(f, b, Len(f)) \o SubSeq(f, 1, a) >>)
Cone == /\ "cone" \in Acts /\ ~refuse
        /\ \E i \in Some(1..Len(faces)) :
             LET f == faces[i]
             IN Step(n + 1, [faces EXCEPT ![i] = <<f[1], f[2], n + 1>>] \o [k \in 1..(Len(f) - 1) |-> <<f[k + 1], Nxt(f, k + 1), n + 1>>])
\* a description that is not a polyhedron: some vertex lies in fewer than three faces
Spoil == /\ "spoil" \in Acts /\ ~refuse
         /\ \/ \E i \in Some(1..Len(faces)) : /\ faces' = RemoveAt(faces, i)
                                              /\ n' = n
            \/ /\ faces' = faces
               /\ n' = n + 1
            \/ \E i \in Some(1..Len(faces)) : \E k \in 1..Len(faces[i]) :
                 /\ Len(faces[i]) > 3
                 /\ faces' = [faces EXCEPT ![i] = RemoveAt(@, k)]
                 /\ n' = n
         /\ pos' = RandPos(n')
         /\ refuse' = TRUE
         /\ (\E v \in 1..n' : FaceCount(faces', v) < 3) = TRUE
         /\ steps' = MaxSteps
         /\ cutS' = {}

Init == /\ \E s \in Starts : n = Start(s).n /\ faces = Start(s).f
        /\ pos = RandPos(n)
        /\ steps = 0
        /\ refuse = FALSE
        /\ cutS = {}
Next == Contract \/ Chord \/ Cone \/ Spoil

(* ------------------------------ resolution ----------------------------- *)
\* copies of v are <<v, 1>> .. <<v, deg - 2>>; the k-th neighbour (k-th edge) of v belongs to copy Clamp(k-1)
CopyOf(k, deg) == IF k = 1 THEN 1 ELSE IF k >= deg - 1 THEN deg - 2 ELSE k - 1
PosIn(s, x) == CHOOSE k \in 1..Len(s) : s[k] = x
Resolve(m, fs) ==
    LET rot == TLCEval([v \in 1..m |-> Rot(fs, v)])
        ends(v, k) == LET w == rot[v][k] IN <<w, CopyOf(PosIn(rot[w], v), Len(rot[w]))>>
        links(v, c) == LET dg == Len(rot[v]) IN
            IF dg = 3 THEN << ends(v, 1), ends(v, 2), ends(v, 3) >>
            ELSE IF c = 1 THEN << ends(v, 1), ends(v, 2), <<v, 2>> >>
            ELSE IF c = dg - 2 THEN << <<v, c - 1>>, ends(v, dg - 1), ends(v, dg) >>
            ELSE << <<v, c - 1>>, ends(v, c + 1), <<v, c + 1>> >>
        ids == UNION {{<<v, c>> : c \in 1..(Len(rot[v]) - 2)} : v \in 1..m}
    IN TLCEval([x \in ids |-> links(x[1], x[2])])
RIdx(l, x) == CHOOSE k \in 1..3 : l[k] = x
RECURSIVE RFace(_, _, _, _)
RFace(r, u, v, d0) == LET k == RIdx(r[v], u)
                          w == r[v][(k % 3) + 1]
                      IN IF <<v, w>> = d0 THEN <<v[1]>> ELSE <<v[1]>> \o RFace(r, v, w, d0)
Collapse(s) == LET t == SelectSeq([k \in 1..Len(s) |-> IF s[k] = s[(k % Len(s)) + 1] THEN 0 ELSE s[k]], LAMBDA x : x # 0)
               IN IF t = <<>> THEN <<s[1]>> ELSE t
RNbrs(r, x) == {r[x][k] : k \in 1..3}
RECURSIVE RReach(_, _, _)
RReach(r, A, R) == LET B == (UNION {RNbrs(r, x) : x \in R} \cap A) \ R IN IF B = {} THEN R ELSE RReach(r, A, R \cup B)
\* 3-connected, component by component
Less(a, b) == a[1] < b[1] \/ (a[1] = b[1] /\ a[2] < b[2])
RECURSIVE CompsR(_, _)
CompsR(r, A) == IF A = {} THEN {} ELSE LET C == RReach(r, DOMAIN r, {CHOOSE y \in A : TRUE}) IN {C} \cup CompsR(r, A \ C)
ThreeConnR(r) == \A C \in CompsR(r, DOMAIN r) :
    \A a, b \in C : Less(a, b) => LET A == C \ {a, b} IN A = {} \/ RReach(r, A, {CHOOSE y \in A : TRUE}) = A
NbrsF(fs, v) == {t[1] : t \in Triples(fs, v)}
RECURSIVE FReach(_, _, _)
FReach(nb, A, R) == LET B == (UNION {nb[x] : x \in R} \cap A) \ R IN IF B = {} THEN R ELSE FReach(nb, A, R \cup B)
RECURSIVE CompsF(_, _)
CompsF(nb, A) == IF A = {} THEN {} ELSE LET C == FReach(nb, DOMAIN nb, {CHOOSE y \in A : TRUE}) IN {C} \cup CompsF(nb, A \ C)
ThreeConnF(m, fs) == LET nb == TLCEval([v \in 1..m |-> NbrsF(fs, v)]) IN
    \A C \in CompsF(nb, 1..m) :
       \A a, b \in C : a < b => LET A == C \ {a, b} IN A = {} \/ FReach(nb, A, {CHOOSE y \in A : TRUE}) = A

(* --------------------------- cut by a plane ---------------------------- *)
\* vertices of the result: <<v, 0>> for kept v, <<u, w>> for the new vertex on the edge from kept u to removed w
RunsOf(f, S) == IF \A k \in 1..Len(f) : f[k] \in S THEN {[k \in 1..Len(f) |-> <<f[k], 0>>]}
    ELSE {LET L == Len(f)
              at(j) == f[((j - 1) % L) + 1]
              e == CHOOSE e \in k..(k + L) : at(e) \in S /\ at(e + 1) \notin S /\ \A j \in k..e : at(j) \in S
          IN << <<at(k), at(k + L - 1)>> >> \o [j \in 1..(e - k + 1) |-> <<at(k + j - 1), 0>>] \o << <<at(e), at(e + 1)>> >>
          : k \in {k \in 1..Len(f) : f[k] \in S /\ f[((k + Len(f) - 2) % Len(f)) + 1] \notin S}}
Pieces(fs, S) == UNION {RunsOf(fs[i], S) : i \in 1..Len(fs)}
\* caps: the new edges run backwards
FunctionOf(R) == LET t == TLCEval(FoldSet(LAMBDA r, acc : acc @@ (r[1] :> r[2]), <<>>, R)) IN t
RECURSIVE CapFrom(_, _, _)
CapFrom(nx, d, d0) == IF nx[d] = d0 THEN <<d>> ELSE <<d>> \o CapFrom(nx, nx[d], d0)
Code(d) == d[1] * 1000 + d[2]
RECURSIVE CapsFrom(_, _)
CapsFrom(nx, D) == IF D = {} THEN {} ELSE
    LET m == TLCEval(Min({Code(d) : d \in D}))
        s == TLCEval(CapFrom(nx, CHOOSE d \in D : Code(d) = m, CHOOSE d \in D : Code(d) = m))
    IN {s} \cup CapsFrom(nx, TLCEval(D \ Range(s)))
CutFaces(fs, S) ==
    LET P == TLCEval(Pieces(fs, S))
        cut == {p \in P : p[1][2] # 0}
        nx == TLCEval(FunctionOf({<<p[1], p[Len(p)]>> : p \in cut}))
    IN P \cup CapsFrom(nx, DOMAIN nx)
\* every edge of the result occurs once in each direction
CutClosed(fs, S) == LET C == TLCEval(SetToSeq(CutFaces(fs, S)))
                        A == AllDarts(C)
                    IN /\ Cardinality(A) = NDarts(C)
                       /\ \A d \in A : <<d[2], d[1]>> \in A

(* ------------------------------ properties ----------------------------- *)
FormOK == refuse \/ WellFormed(n, faces)
RefuseOK == refuse => \E v \in 1..n : FaceCount(faces, v) < 3
ResolveOK == (WithResolve /\ ~refuse /\ n <= 10) =>
    LET r == Resolve(n, faces) IN
      /\ \A x \in DOMAIN r : /\ Cardinality(RNbrs(r, x)) = 3 /\ x \notin RNbrs(r, x)
                             /\ \A y \in RNbrs(r, x) : y \in DOMAIN r /\ x \in RNbrs(r, y)
      \* nothing is lost: its faces are the described ones
      /\ {RotateMin(Collapse(RFace(r, x, r[x][k], <<x, r[x][k]>>))) : x \in DOMAIN r, k \in 1..3} = {RotateMin(faces[i]) : i \in 1..Len(faces)}
      /\ Cardinality(DOMAIN r) = FoldSet(LAMBDA v, a : a + Degree(faces, v) - 2, 0, 1..n)
      /\ ThreeConnF(n, faces) => ThreeConnR(r)
CutOK == refuse \/ CutClosed(faces, cutS)
\* Euler characteristic is kept by the actions of this module: components and genus never change
Euler == n - (NDarts(faces) \div 2) + Len(faces)
EulerStep == [][~refuse' => Euler' = Euler]_vars

(* ------------------------ exact signed moments ------------------------- *)
Det(a, b, c) == a[1] * (b[2] * c[3] - b[3] * c[2]) - a[2] * (b[1] * c[3] - b[3] * c[1]) + a[3] * (b[1] * c[2] - b[2] * c[1])
Triangles == \A i \in 1..Len(faces) : Len(faces[i]) = 3
SumF(Op(_, _, _)) == FoldSeq(LAMBDA f, acc : acc + Op(pos[f[1]], pos[f[2]], pos[f[3]]), 0, faces)
M0 == SumF(LAMBDA a, b, c : 20 * Det(a, b, c))
M1(x) == SumF(LAMBDA a, b, c : 5 * Det(a, b, c) * (a[x] + b[x] + c[x]))
M2(x, y) == SumF(LAMBDA a, b, c : Det(a, b, c) * (a[x] * a[y] + b[x] * b[y] + c[x] * c[y] + (a[x] + b[x] + c[x]) * (a[y] + b[y] + c[y])))
\* units of 1/120
Moments == <<M0, M1(1), M1(2), M1(3), M2(1, 1), M2(1, 2), M2(1, 3), M2(2, 2), M2(2, 3), M2(3, 3)>>

Emit == PrintT(ToJson([n |-> n, f |-> faces, pos |-> pos, refuse |-> refuse,
                       good |-> (~refuse /\ n <= 40 /\ ThreeConnF(n, faces)),
                       simple |-> (~refuse /\ Simple(n, faces)),
                       m |-> IF ~refuse /\ Triangles THEN Moments ELSE <<>>,
                       s |-> cutS,
                       cut |-> IF refuse THEN {} ELSE CutFaces(faces, cutS),
                       neg |-> IF refuse THEN {} ELSE CutFaces(faces, (1..n) \ cutS)]))
=============================================================================
