-------------------------------- MODULE Brep --------------------------------
(***************************************************************************)
(* Conversion of a vertex-link body to boundary representations.  The body  *)
(* is a cubic map g (cyclic neighbour triples) with any number of           *)
(* components and a position label for each vertex; vertices that follow    *)
(* each other in the numbering and have equal labels are copies of one      *)
(* vertex.  Bodies arise from start maps by                                 *)
(*   AddComponent  another body in the same object,                         *)
(*   Renumber      any other numbering,                                     *)
(*   Trim          a plane that removes any set of vertices (Graph!Cut),    *)
(*   Coincide      two linked vertices moved to the same position.          *)
(* The boundary representation lists one entry per connected component:     *)
(* its vertices up to copies, and its faces, every one a cycle.             *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, FiniteSetsExt, SequencesExt, TLC, Json, Randomization

CONSTANTS Starts, MaxSteps, MaxVerts, Sample, EmitLen
VARIABLES g, lbl, steps
vars == <<g, lbl, steps>>

G == INSTANCE Graph WITH Starts <- {}, MaxSteps <- 0, MaxVerts <- 0, Sample <- 0, nb <- <<>>, steps <- 0, last <- <<>>
n == Len(g)
Distinct(m) == [v \in 1..m |-> v]

(* ------------------------------ conversion ----------------------------- *)
RECURSIVE MapOf(_, _)
\* number of the first of the run of equal labels that v belongs to
MapOf(l, v) == IF v > 1 /\ l[v] = l[v - 1] THEN MapOf(l, v - 1) ELSE v
VMap(l) == TLCEval([v \in 1..Len(l) |-> MapOf(l, v)])
RECURSIVE Walk(_, _, _, _)
\* the face of dart <<u, v>>: at v turn to the neighbour before u
Walk(h, u, v, d0) == LET w == G!Prv(h[v], u) IN IF <<v, w>> = d0 THEN <<v>> ELSE <<v>> \o Walk(h, v, w, d0)
RotMin(s) == LET k == CHOOSE k \in 1..Len(s) : \A j \in 1..Len(s) : s[k] <= s[j] IN [j \in 1..Len(s) |-> s[((k + j - 2) % Len(s)) + 1]]
\* equal neighbours in a cycle count once
Squeeze(s) == LET t == SelectSeq([k \in 1..Len(s) |-> IF s[k] = s[(k % Len(s)) + 1] THEN 0 ELSE s[k]], LAMBDA x : x # 0) IN t
Orbits(h, C) == TLCEval({RotMin(Walk(h, v, h[v][k], <<v, h[v][k]>>)) : v \in C, k \in 1..3})
Comps(h) == TLCEval(G!Comps(h, DOMAIN h))
Conv(h, l) == LET m == VMap(l) IN
    {[verts |-> {m[v] : v \in C}, faces |-> {RotMin(Squeeze([k \in 1..Len(f) |-> m[f[k]]])) : f \in Orbits(h, C)}] : C \in Comps(h)}

(* ------------------------------- actions ------------------------------- *)
Start(s) == G!StartMap(s)
Some(k, S) == IF S = {} \/ Sample = 0 \/ steps < 0 THEN S ELSE RandomSubset(Min({k, Cardinality(S)}), S)
Go == steps < MaxSteps /\ steps' = steps + 1
AddComponent == /\ Go
                /\ \E s \in Some(Sample, Starts) : n + Len(Start(s)) <= MaxVerts /\ g' = G!Both(g, Start(s)) /\ lbl' = lbl \o [v \in 1..Len(Start(s)) |-> n + v]
\* a random numbering, copies of a vertex kept together
Heads == {MapOf(lbl, v) : v \in 1..n}
Group(r) == SetToSortSeq({v \in 1..n : MapOf(lbl, v) = r}, <)
Shuffled(S, key) == SetToSortSeq(S, LAMBDA x, y : key[x] < key[y] \/ (key[x] = key[y] /\ x < y))
Renumber == /\ Go /\ n > 0
            /\ \E key \in {TLCEval([v \in 1..n |-> RandomElement(1..1000000)])} :
               \E heads \in {TLCEval(Shuffled(Heads, key))} :
               \E old \in {TLCEval(FlattenSeq([k \in 1..Len(heads) |-> Group(heads[k])]))} :      \* new number -> old number
               \E new \in {TLCEval([v \in 1..n |-> CHOOSE k \in 1..n : old[k] = v])} :
                  /\ g' = [k \in 1..n |-> [j \in 1..3 |-> new[g[old[k]][j]]]]
                  /\ lbl' = [k \in 1..n |-> lbl[old[k]]]
Trim == /\ Go /\ Cardinality({lbl[v] : v \in 1..n}) = n
        /\ \E p \in Some(Sample, {40, 60, 75, 90}) :
             \E S \in {TLCEval({v \in 1..n : RandomElement(1..100) <= p})} :
             \E c \in {TLCEval(G!Cut(g, S))} :
               /\ S # {} /\ Len(c.nb) <= MaxVerts
               /\ g' = c.nb /\ lbl' = Distinct(Len(c.nb))
\* v+1 moves onto v; no face may degenerate and no two classes may share two edges afterwards
Proper(h, l) == \A e \in Conv(h, l) :
    /\ \A f \in e.faces : Len(f) >= 3 /\ Cardinality({f[k] : k \in 1..Len(f)}) = Len(f)
    /\ LET D == UNION {{<<f[k], f[(k % Len(f)) + 1]>> : k \in 1..Len(f)} : f \in e.faces}
       IN FoldSet(LAMBDA f, a : a + Len(f), 0, e.faces) = Cardinality(D) /\ \A d \in D : <<d[2], d[1]>> \in D
Coincide == /\ Go
            /\ \E v \in Some(Sample * 3, {v \in 1..(n - 1) : v + 1 \in G!Nbrs(g, v) /\ lbl[v] # lbl[v + 1]}) :
                 \E l2 \in {TLCEval([x \in 1..n |-> IF lbl[x] = lbl[v + 1] THEN lbl[v] ELSE lbl[x]])} :
                   /\ Proper(g, l2)
                   /\ lbl' = l2
            /\ UNCHANGED g
Init == g = <<>> /\ lbl = <<>> /\ steps = 0
Next == AddComponent \/ Renumber \/ Trim \/ Coincide

(* ------------------------------ properties ----------------------------- *)
B == Conv(g, lbl)
\* one entry per component, none for the empty body
CountOK == Cardinality(Comps(g)) = Cardinality(B) /\ (g = <<>> => B = {})
\* closed consistently oriented loops: every edge once in each direction
LoopsOK == Proper(g, lbl)
\* nothing is lost, nothing is listed twice
CoverOK == /\ UNION {e.verts : e \in B} = {MapOf(lbl, v) : v \in 1..n}
           /\ \A e \in B : e.verts = UNION {{f[k] : k \in 1..Len(f)} : f \in e.faces}
           /\ FoldSet(LAMBDA e, a : a + Cardinality(e.verts), 0, B) = Cardinality(UNION {e.verts : e \in B})
\* Euler's formula holds component by component
EulerOK == \A e \in B : 2 * (Cardinality(e.verts) + Cardinality(e.faces)) - FoldSet(LAMBDA f, a : a + Len(f), 0, e.faces) = 4
Emit == (EmitLen = 0 \/ n = EmitLen) => PrintT(ToJson([g |-> g, lbl |-> lbl, b |-> B]))
=============================================================================
