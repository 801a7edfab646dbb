-------------------------------- MODULE Ring -------------------------------
(* Clipping of polygons as a pure link operation: nb[v] = <<next, previous>>; *)
(* any set S of kept vertices.  Every maximal kept run is closed by two new   *)
(* vertices, one on each cut edge, linked to each other.                      *)
EXTENDS Integers, Sequences, FiniteSets, FiniteSetsExt, SequencesExt, TLC, Json, Randomization
CONSTANTS Starts, MaxSteps, MaxVerts, Sample
VARIABLES nb, steps, last
vars == <<nb, steps, last>>
V(g) == DOMAIN g

CutDarts(g, S) == {<<u, k>> \in S \X (1..2) : g[u][k] \notin S}
RECURSIVE Run(_, _, _, _)
Run(g, S, u, k) == IF g[u][k] \notin S THEN u ELSE Run(g, S, g[u][k], k)    \* the end of the kept run in direction k

Cut(g, S) ==
    LET old == SetToSortSeq(S, <)
        darts == SetToSortSeq(CutDarts(g, S), LAMBDA x, y : x[1] < y[1] \/ (x[1] = y[1] /\ x[2] < y[2]))
        nOld == Len(old)
        oldId == [v \in S |-> CHOOSE k \in 1..nOld : old[k] = v]
        dartId == [d \in CutDarts(g, S) |-> nOld + (CHOOSE k \in 1..Len(darts) : darts[k] = d)]
    IN  [nb |-> [k \in 1..(nOld + Len(darts)) |->
                   IF k <= nOld
                   THEN [m \in 1..2 |-> LET x == g[old[k]][m] IN IF x \in S THEN oldId[x] ELSE dartId[<<old[k], m>>]]
                   ELSE LET d == darts[k - nOld]
                            other == <<Run(g, S, d[1], 3 - d[2]), 3 - d[2]>>
                        IN IF d[2] = 1 THEN <<dartId[other], oldId[d[1]]>> ELSE <<oldId[d[1]], dartId[other]>>],
         old |-> old, darts |-> darts]

Loop(n, off) == [v \in 1..n |-> <<(v % n) + 1 + off, ((v + n - 2) % n) + 1 + off>>]
StartMap(s) == IF Len(s) = 1 THEN Loop(s[1], 0) ELSE Loop(s[1], 0) \o Loop(s[2], s[1])

\* k consecutive vertices, kept or removed: long runs
RECURSIVE Arc(_, _, _)
Arc(g, v, k) == IF k = 0 THEN {} ELSE {v} \cup Arc(g, g[v][1], k - 1)
Arcs == UNION {{B, V(nb) \ B} : B \in {TLCEval(Arc(nb, RandomElement(V(nb)), RandomElement(1..Len(nb)))) : j \in 1..Sample}}
Subsets == IF Sample = 0 \/ steps < 0 THEN SUBSET V(nb)
           ELSE (IF Len(nb) > 120 THEN {} ELSE {{v \in V(nb) : RandomElement(1..100) <= p} : p \in RandomSubset(Sample, {20, 30, 40, 50, 60, 70, 80, 90})}) \cup Arcs
Init == /\ \E s \in Starts : nb = StartMap(s)
        /\ steps = 0 /\ last = <<>>
Clip(S) == /\ steps < MaxSteps /\ Len(nb) <= MaxVerts
           /\ LET c == Cut(nb, S) IN nb' = c.nb /\ last' = [g |-> nb, s |-> S, c |-> c]
           /\ steps' = steps + 1
Next == nb # <<>> /\ \E S \in Subsets : Clip(S)

LinksOK == \A v \in V(nb) : nb[v][1] \in V(nb) /\ nb[v][2] \in V(nb) /\ nb[nb[v][1]][2] = v /\ nb[nb[v][2]][1] = v /\ nb[v][1] # v
ThreeOK == \A v \in V(nb) : nb[v][1] # nb[v][2]
CountOK == last # <<>> => Len(nb) = Cardinality(last.s) + Cardinality(CutDarts(last.g, last.s))
Part(c) == [nb |-> c.nb, old |-> c.old, darts |-> c.darts]
Emit == last # <<>> => PrintT(ToJson([g |-> last.g, s |-> last.s, pos |-> Part(last.c), neg |-> Part(Cut(last.g, V(last.g) \ last.s))]))
=============================================================================
