------------------------------- MODULE Solid -------------------------------
(***************************************************************************)
(* Bodies with links AND exact rational positions, under calls of clip      *)
(* (a list of planes) and split (a list of bodies), inside a vertex buffer  *)
(* of capacity cap.  A body is [nb, pos]: a cubic map and, per vertex, a    *)
(* homogeneous integer vector <<x, y, z, w>>, w > 0.  Positions are         *)
(* arbitrary, so that one plane separates the vertices in any pattern and   *)
(* the next one meets what the first one made.                              *)
(*                                                                          *)
(* A plane that cuts k links of a body of m vertices needs m + k slots when *)
(* clipping and m + 2k when splitting, although fewer vertices may remain.  *)
(*   - all needs <= cap        : the call succeeds, with the exact result;  *)
(*   - a result exceeds cap    : the call fails;                            *)
(*   - otherwise               : it may do either, success again only with  *)
(*                               the exact result.                          *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, FiniteSetsExt, SequencesExt, TLC, Json, Randomization

CONSTANTS Starts, MaxCalls, MaxArity, MaxBodies, MaxVerts, R, PR, Kinds, Caps
VARIABLES bodies, calls, row, origin
vars == <<bodies, calls, row, origin>>

G == INSTANCE Graph WITH Starts <- {}, MaxSteps <- 0, MaxVerts <- 0, Sample <- 0, nb <- <<>>, steps <- 0, last <- <<>>

Empty == [nb |-> <<>>, pos |-> <<>>]
Abs(x) == IF x < 0 THEN -x ELSE x
RECURSIVE Gcd(_, _)
Gcd(a, b) == IF b = 0 THEN a ELSE Gcd(b, a % b)
Norm(p) == LET d == Gcd(Gcd(Abs(p[1]), Abs(p[2])), Gcd(Abs(p[3]), p[4])) IN <<p[1] \div d, p[2] \div d, p[3] \div d, p[4] \div d>>
H(p, pl) == pl[1] * p[1] + pl[2] * p[2] + pl[3] * p[3] + pl[4] * p[4]
Small == 3000
Size(b) == Len(b.nb)
F(b, pl) == TLCEval([v \in 1..Size(b) |-> H(b.pos[v], pl)])

\* the part of b where pl >= 0
Keep(b, pl) ==
    LET f == F(b, pl)
        S == {v \in 1..Size(b) : f[v] >= 0}
    IN  IF \A v \in 1..Size(b) : f[v] >= 0 THEN b
        ELSE IF \A v \in 1..Size(b) : f[v] <= 0 THEN Empty
        ELSE LET c == TLCEval(G!Cut(b.nb, S))
                 at(d) == LET v == b.nb[d[1]][d[2]]
                          IN Norm([k \in 1..4 |-> f[d[1]] * b.pos[v][k] - f[v] * b.pos[d[1]][k]])
             IN [nb |-> c.nb, pos |-> [k \in 1..Len(c.nb) |-> IF k <= Len(c.old) THEN b.pos[c.old[k]] ELSE at(c.darts[k - Len(c.old)])]]
\* the part where pl < 0, as splitting forms it: everything but S
Rest(b, pl) ==
    LET f == F(b, pl)
        S == {v \in 1..Size(b) : f[v] < 0}
    IN  IF S = {} THEN Empty ELSE IF S = 1..Size(b) THEN b
        ELSE LET c == TLCEval(G!Cut(b.nb, S))
                 at(d) == LET v == b.nb[d[1]][d[2]]
                          IN Norm([k \in 1..4 |-> f[v] * b.pos[d[1]][k] - f[d[1]] * b.pos[v][k]])
             IN [nb |-> c.nb, pos |-> [k \in 1..Len(c.nb) |-> IF k <= Len(c.old) THEN b.pos[c.old[k]] ELSE at(c.darts[k - Len(c.old)])]]
\* splitting keeps the >= part even when it only touches the plane
KeepSplit(b, pl) ==
    LET f == F(b, pl)
        S == {v \in 1..Size(b) : f[v] >= 0}
    IN  IF S = {} THEN Empty ELSE IF S = 1..Size(b) THEN b
        ELSE LET c == TLCEval(G!Cut(b.nb, S))
                 at(d) == LET v == b.nb[d[1]][d[2]]
                          IN Norm([k \in 1..4 |-> f[d[1]] * b.pos[v][k] - f[v] * b.pos[d[1]][k]])
             IN [nb |-> c.nb, pos |-> [k \in 1..Len(c.nb) |-> IF k <= Len(c.old) THEN b.pos[c.old[k]] ELSE at(c.darts[k - Len(c.old)])]]

Cuts(b, pl) == LET f == F(b, pl) IN Cardinality({<<u, k>> \in (1..Size(b)) \X (1..3) : f[u] >= 0 /\ f[b.nb[u][k]] < 0})
\* general enough for binary arithmetic: a vertex on a plane has integer coordinates, nothing overflows
Fine(b, pl) == \A v \in 1..Size(b) : LET h == H(b.pos[v], pl) IN (h = 0 => b.pos[v][4] = 1)
Tame(b) == \A v \in 1..Size(b) : \A k \in 1..4 : Abs(b.pos[v][k]) <= Small

(* a clip call: results after each plane *)
RECURSIVE Run(_, _)
Run(b, pls) == IF pls = <<>> THEN <<b>>
               ELSE LET c == TLCEval(Keep(b, pls[1])) IN <<b>> \o (IF c = Empty THEN <<Empty>> ELSE Run(c, Tail(pls)))
ClipNeed(run, pls) == Max({Size(run[k]) : k \in 1..Len(run)} \cup
                          {IF run[k] = Empty \/ run[k + 1] = Empty THEN 0 ELSE Size(run[k]) + Cuts(run[k], pls[k]) : k \in 1..(Len(run) - 1)})
RunFine(run, pls) == /\ \A k \in 1..(Len(run) - 1) : Fine(run[k], pls[k])
                     /\ \A k \in 1..Len(run) : Tame(run[k])
SplitNeed(bs, pl) == Max({0} \cup {Size(bs[i]) + 2 * Cuts(bs[i], pl) : i \in 1..Len(bs)})

Verdict(need, result, c) == IF need <= c THEN "ok" ELSE IF result > c THEN "fail" ELSE "any"
\* interesting capacities for a call, none too small for its arguments
CapsFor(need, result, least) == {c \in {need - 2, need - 1, need, need + 1, result - 1, result} : c >= least /\ c >= 4}
UseCaps(need, result, least) == IF Caps = {} THEN CapsFor(need, result, least) ELSE {c \in Caps : c >= least}

(* ------------------------------ behaviours ----------------------------- *)
Rand(S) == RandomElement(S)
RandomPos(m) == TLCEval([v \in 1..m |-> <<Rand(-R..R), Rand(-R..R), Rand(-R..R), 1>>])
RandomPlane(x) == TLCEval(<<Rand(-PR..PR), Rand(-PR..PR), Rand(-PR..PR), Rand((-R)..R)>>)
Proper(pl) == pl[1] # 0 \/ pl[2] # 0 \/ pl[3] # 0

Init == /\ bodies = <<>> /\ calls = 0 /\ row = <<>> /\ origin = <<>>
Make == /\ Len(bodies) < MaxBodies /\ calls = 0
        /\ \E s \in RandomSubset(1, Starts) :
             \E p \in {RandomPos(Len(G!StartMap(s)))} : bodies' = Append(bodies, [nb |-> G!StartMap(s), pos |-> p])
        /\ row' = <<>> /\ UNCHANGED <<calls, origin>>
Clip == /\ "clip" \in Kinds /\ bodies # <<>> /\ calls < MaxCalls
        /\ \E i \in RandomSubset(1, 1..Len(bodies)) : bodies[i] # Empty /\
           \E m \in RandomSubset(1, 1..MaxArity) :
           \E pls \in {TLCEval([k \in 1..m |-> RandomPlane(k)])} :
           \E run \in {TLCEval(Run(bodies[i], pls))} :
           \E need \in {ClipNeed(run, pls)} :
             /\ \A k \in 1..m : Proper(pls[k])
             /\ RunFine(run, pls)
             /\ Size(run[Len(run)]) <= MaxVerts
             /\ bodies' = [bodies EXCEPT ![i] = run[Len(run)]]
             /\ row' = [op |-> "clip", i |-> i, planes |-> pls, in |-> <<bodies[i]>>, out |-> <<run[Len(run)]>>, need |-> need,
                        sizes |-> [k \in 1..Len(run) |-> Size(run[k])],
                        caps |-> {<<c, Verdict(need, Size(run[Len(run)]), c)>> : c \in UseCaps(need, Max({Size(run[k]) : k \in 1..Len(run)}), Size(bodies[i]))}]
        /\ calls' = calls + 1 /\ UNCHANGED origin
Split == /\ "split" \in Kinds /\ bodies # <<>> /\ calls < MaxCalls
         /\ \E pl \in {RandomPlane(0)} :
            /\ Proper(pl)
            /\ \A i \in 1..Len(bodies) : Fine(bodies[i], pl)
            /\ \E a \in {TLCEval([i \in 1..Len(bodies) |-> KeepSplit(bodies[i], pl)])} :
               \E b \in {TLCEval([i \in 1..Len(bodies) |-> Rest(bodies[i], pl)])} :
               \E need \in {SplitNeed(bodies, pl)} :
                 /\ \A i \in 1..Len(bodies) : Tame(a[i]) /\ Tame(b[i]) /\ Size(a[i]) <= MaxVerts /\ Size(b[i]) <= MaxVerts
                 /\ \E side \in RandomSubset(1, {0, 1}) : bodies' = IF side = 0 THEN a ELSE b
                 /\ LET res == Max({0} \cup {Size(a[i]) : i \in 1..Len(a)} \cup {Size(b[i]) : i \in 1..Len(b)})
                        least == Max({Size(bodies[i]) : i \in 1..Len(bodies)})
                    IN row' = [op |-> "split", i |-> 0, planes |-> <<pl>>, in |-> bodies, out |-> a \o b, need |-> need, sizes |-> <<>>,
                               caps |-> {<<c, Verdict(need, res, c)>> : c \in UseCaps(need, res, least)}]
         /\ calls' = calls + 1 /\ UNCHANGED origin
Next == Make \/ Clip \/ Split

(* ------------------------------ properties ----------------------------- *)
LinksOK == \A i \in 1..Len(bodies) : bodies[i] = Empty \/ G!Valid(bodies[i].nb)
PlanarOK == \A i \in 1..Len(bodies) : bodies[i] = Empty \/ G!Planar(bodies[i].nb)
\* what a call returns never needs more room than the call itself
RoomOK == row # <<>> => \A k \in 1..Len(row.out) : Size(row.out[k]) <= row.need
\* the kept part lies on its side of the planes
SideOK == (row # <<>> /\ row.op = "clip") => \A v \in 1..Size(row.out[1]) : \A k \in 1..Len(row.planes) : H(row.out[1].pos[v], row.planes[k]) >= 0
SplitOK == (row # <<>> /\ row.op = "split") =>
    LET m == Len(row.in) IN
    \A i \in 1..m : /\ \A v \in 1..Size(row.out[i]) : H(row.out[i].pos[v], row.planes[1]) >= 0
                    /\ \A v \in 1..Size(row.out[m + i]) : H(row.out[m + i].pos[v], row.planes[1]) <= 0
                    /\ Size(row.out[i]) + Size(row.out[m + i]) = Size(row.in[i]) + 2 * Cuts(row.in[i], row.planes[1])
VerdictOK == row # <<>> => \A c \in row.caps : (c[2] = "ok" <=> c[1] >= row.need)
Emit == (row # <<>> /\ row.caps # {}) => PrintT(ToJson(row))
=============================================================================
