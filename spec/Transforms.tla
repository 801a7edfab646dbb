----------------------------- MODULE Transforms -----------------------------
(***************************************************************************)
(* Histories of transformations of a body, on exact rational coordinates    *)
(* (integer numerators over one denominator q): rotation in a coordinate    *)
(* plane by an angle with rational sine and cosine, translation, scaling,   *)
(* shearing and homogeneous matrices, also with a perspective row.  det is  *)
(* the factor by which the volume has been multiplied (numerator over       *)
(* detq), valid while no perspective matrix was used.                       *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, FiniteSetsExt, SequencesExt, TLC, Json

CONSTANTS D, MaxSteps, Bodies, Ops, Lim
VARIABLES pts, q, body, hist, det, detq, persp, start
vars == <<pts, q, body, hist, det, detq, persp, start>>

RECURSIVE GCD(_, _)
Abs(x) == IF x < 0 THEN -x ELSE x
GCD(a, b) == IF b = 0 THEN Abs(a) ELSE GCD(b, a % b)
G(x, y) == GCD(Abs(x), Abs(y))
Norm(P, d) == LET g == FoldSeq(LAMBDA p, acc : FoldSeq(LAMBDA x, a : G(a, x), acc, p), Abs(d), P)
                  s == IF d < 0 THEN -g ELSE g
              IN [p |-> [k \in 1..Len(P) |-> [i \in 1..D |-> P[k][i] \div s]], q |-> d \div s]
Small(P, d) == d <= Lim /\ d > 0 /\ \A k \in 1..Len(P) : \A i \in 1..D : Abs(P[k][i]) <= Lim

Corner(k) == [i \in 1..D |-> ((k - 1) \div (2 ^ (i - 1))) % 2]
\* corners of [-1,2]x[1,2]x[0,3]x[-2,-1]
BoxLo == <<-1, 1, 0, -2>>
BoxHi == <<2, 2, 3, -1>>
Start(b) == CASE b = "box" -> [k \in 1..(2 ^ D) |-> [i \in 1..D |-> IF Corner(k)[i] = 1 THEN BoxHi[i] ELSE BoxLo[i]]]
              [] b = "simplex" -> [k \in 1..(D + 1) |-> [i \in 1..D |-> IF k = i + 1 THEN 3 ELSE IF k = 1 THEN i - 2 ELSE ((k * i) % 3) - 1]]
              [] b = "rand" -> [k \in 1..(D + 1) |-> [i \in 1..D |-> RandomElement(-4..4)]]

Apply(P, d, op, args, dn, dd) ==
    /\ LET r == TLCEval(Norm(P, d)) IN
         /\ Small(r.p, r.q)
         /\ pts' = r.p /\ q' = r.q
         /\ hist' = Append(hist, [op |-> op, a |-> args, p |-> r.p, q |-> r.q, dn |-> (LET g == G(det * dn, detq * dd) IN IF g = 0 THEN 0 ELSE (det * dn) \div g),
                                  dd |-> (LET g == G(det * dn, detq * dd) IN IF g = 0 THEN 1 ELSE (detq * dd) \div g)])
    /\ LET g == G(det * dn, detq * dd) IN det' = (det * dn) \div g /\ detq' = (detq * dd) \div g
    /\ Abs(det * dn) <= Lim /\ Abs(detq * dd) <= Lim
    /\ UNCHANGED <<body, start>>

Map(Op(_)) == [k \in 1..Len(pts) |-> Op(pts[k])]
More == Len(hist) < MaxSteps

\* rotation in the plane (a, b): x_a' = c x_a - s x_b, x_b' = s x_a + c x_b with c = cs[1]/cs[3], s = cs[2]/cs[3]
Angles == {<<3, 4, 5>>, <<-4, 3, 5>>, <<0, 1, 1>>, <<-1, 0, 1>>, <<5, -12, 13>>, <<0, -1, 1>>}
Rotate(a, b, cs) ==
    /\ More /\ "rotate" \in Ops
    /\ Apply(Map(LAMBDA p : [i \in 1..D |-> IF i = a THEN cs[1] * p[a] - cs[2] * p[b]
                                            ELSE IF i = b THEN cs[2] * p[a] + cs[1] * p[b]
                                            ELSE cs[3] * p[i]]), q * cs[3], "rotate", <<a, b, cs[1], cs[2], cs[3]>>, 1, 1)
    /\ UNCHANGED persp
Translate(t) ==
    /\ More /\ "translate" \in Ops
    /\ Apply(Map(LAMBDA p : [i \in 1..D |-> p[i] + q * t[i]]), q, "translate", t, 1, 1)
    /\ UNCHANGED persp
\* scale by s[1]/s[2]
Scale(s) ==
    /\ More /\ "scale" \in Ops /\ D < 4
    /\ Apply(Map(LAMBDA p : [i \in 1..D |-> s[1] * p[i]]), q * s[2], "scale", s, s[1] ^ D, s[2] ^ D)
    /\ UNCHANGED persp
ScaleVec(s) ==
    /\ More /\ "scale" \in Ops /\ D = 4
    /\ Apply(Map(LAMBDA p : [i \in 1..D |-> s[i] * p[i]]), q, "scalevec", s, FoldFunction(LAMBDA x, y : x * y, 1, s), 1)
    /\ UNCHANGED persp
\* x_a += s x_b
Shear(a, b, s) ==
    /\ More /\ "shear" \in Ops
    /\ Apply(Map(LAMBDA p : [i \in 1..D |-> IF i = a THEN s[2] * p[i] + s[1] * p[b] ELSE s[2] * p[i]]), q * s[2], "shear", <<a, b, s[1], s[2]>>, 1, 1)
    /\ UNCHANGED persp
\* homogeneous matrix, rows 1..D+1, w must not vanish at any vertex
Row(M, r, p) == FoldFunction(+, 0, [j \in 1..D |-> M[r][j] * p[j]]) + M[r][D + 1] * q
Minor(M, j) == [r \in 1..(Len(M) - 1) |-> [c \in 1..(Len(M) - 1) |-> M[r + 1][IF c < j THEN c ELSE c + 1]]]
RECURSIVE Det(_)
Det(M) == IF Len(M) = 1 THEN M[1][1]
          ELSE FoldFunction(+, 0, [j \in 1..Len(M) |-> (IF j % 2 = 1 THEN 1 ELSE -1) * M[1][j] * Det(Minor(M, j))])
Lin(M) == [r \in 1..D |-> [c \in 1..D |-> M[r][c]]]
Affine(M) ==
    /\ More /\ "affine" \in Ops
    /\ \A j \in 1..D : M[D + 1][j] = 0
    /\ M[D + 1][D + 1] # 0
    /\ LET w == M[D + 1][D + 1] IN Apply(Map(LAMBDA p : [i \in 1..D |-> Row(M, i, p)]), q * w, "affine", FlattenSeq(M), Det(Lin(M)), w ^ D)
    /\ UNCHANGED persp
RECURSIVE Lcm(_, _)
\* 0 stands for a value beyond the bound
Lcm(S, acc) == IF S = {} \/ acc = 0 THEN acc ELSE LET x == CHOOSE x \in S : TRUE IN
                     LET f == acc \div G(acc, x) IN Lcm(S \ {x}, IF f > Lim \div x THEN 0 ELSE f * x)
Project(M) ==
    /\ More /\ "project" \in Ops
    /\ \E j \in 1..D : M[D + 1][j] # 0
    /\ LET ws == TLCEval([k \in 1..Len(pts) |-> Row(M, D + 1, pts[k])]) IN
         /\ \A k \in 1..Len(pts) : ws[k] # 0 /\ Abs(ws[k]) <= Lim
         /\ \A k \in 1..Len(pts) : \A i \in 1..D : Abs(Row(M, i, pts[k])) <= 50000
         /\ LET L == TLCEval(Lcm({Abs(ws[k]) : k \in 1..Len(pts)}, 1)) IN
              /\ L > 0 /\ L <= Lim
              /\ Apply([k \in 1..Len(pts) |-> [i \in 1..D |-> (IF ws[k] > 0 THEN 1 ELSE -1) * Row(M, i, pts[k]) * (L \div Abs(ws[k]))]], L, "affine", FlattenSeq(M), 1, 1)
    /\ persp' = TRUE

R(S) == RandomElement(S)
RandMat(lastrow) == [r \in 1..(D + 1) |-> IF r = D + 1 THEN lastrow ELSE [c \in 1..(D + 1) |-> R(-3..3)]]

Init == /\ body \in Bodies
        /\ start = TLCEval(Start(body))
        /\ pts = start
        /\ q = 1 /\ hist = <<>> /\ det = 1 /\ detq = 1 /\ persp = FALSE
Planes == IF D = 2 THEN {<<1, 2>>} ELSE IF D = 3 THEN {<<2, 3>>, <<3, 1>>, <<1, 2>>} ELSE {ab \in (1..D) \X (1..D) : ab[1] # ab[2]}
Next == \/ \E ab \in Planes : \E cs \in Angles : Rotate(ab[1], ab[2], cs)
        \/ \E k \in 1..2 : Translate([i \in 1..D |-> R(-5..5)])
        \/ \E s \in {<<2, 1>>, <<-3, 1>>, <<1, 2>>, <<-1, 1>>, <<3, 4>>} : Scale(s)
        \/ \E k \in 1..2 : ScaleVec([i \in 1..D |-> R({-2, -1, 1, 2, 3})])
        \/ \E a, b \in 1..D : a # b /\ \E s \in {<<1, 1>>, <<-2, 1>>, <<1, 2>>} : Shear(a, b, s)
        \/ \E k \in 1..2 : \E w \in {1, 2, -1} : Affine(RandMat([c \in 1..(D + 1) |-> IF c = D + 1 THEN w ELSE 0]))
        \/ \E k \in 1..4 : Project(RandMat([c \in 1..(D + 1) |-> IF c = D + 1 THEN R({-2, 0, 1, 1, 2, 9, 12, 40}) ELSE R(-1..1)]))

(* ------------------------------ properties ----------------------------- *)
\* volume of the simplex spanned by the first D+1 listed vertices, times q^D
VolOf(P) == Det([r \in 1..D |-> [c \in 1..D |-> P[r + 1][c] - P[1][c]]])
\* affine maps multiply volumes by the tracked factor
Within(P, b) == \A k \in 1..Len(P) : \A i \in 1..D : Abs(P[k][i]) <= b
VolOK == (body # "box" /\ ~persp /\ D < 4 /\ Within(pts, IF D = 2 THEN 300 ELSE 100) /\ q <= (IF D = 2 THEN 60 ELSE 15)) =>
    ((Abs(VolOf(pts)) < 500000 /\ Abs(detq) < 2000 /\ Abs(det) < 1000 /\ Abs(VolOf(start)) < 500) => VolOf(pts) * detq = det * (q ^ D) * VolOf(start))
\* rotations keep all mutual distances
Dist2(P, a, b) == FoldFunction(+, 0, [i \in 1..D |-> (P[a][i] - P[b][i]) * (P[a][i] - P[b][i])])
RotOK == [][(Len(hist') > Len(hist) /\ hist'[Len(hist')].op = "rotate" /\ q' < 600 /\ q < 600 /\ Within(pts, 1000) /\ Within(pts', 1000)) =>
    \A a, b \in 1..Len(pts) : (a < b /\ Dist2(pts, a, b) < 5000 /\ Dist2(pts', a, b) < 5000) => Dist2(pts', a, b) * q * q = Dist2(pts, a, b) * q' * q']_vars
Emit == Len(hist) = MaxSteps => PrintT(ToJson([body |-> body, hist |-> hist, start |-> start, persp |-> persp]))
=============================================================================
