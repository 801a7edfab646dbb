------------------------------- MODULE IsGood -------------------------------
(***************************************************************************)
(* What the validity tests decide.  A table gives D links per vertex, each  *)
(* any integer; it is good when every link names another existing vertex,   *)
(* no vertex names a neighbour twice, links are mutual, and every connected *)
(* component remains connected when any D-1 vertices are taken out.         *)
(* Tables grow from valid ones by                                           *)
(*   AddComponent, AddMany, Renumber, Reorder   which keep validity,                 *)
(*   Switch    edges a-b, c-d become a-d, c-b (mutual, but connectivity may *)
(*             be lost),                                                    *)
(*   Corrupt   one link replaced by any value,                              *)
(*   Redirect  two links exchanged (counts stay right, mutuality is lost),  *)
(*   Truncate  the last vertex forgotten.                                   *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, FiniteSetsExt, SequencesExt, TLC, Json, Randomization

CONSTANTS D, Starts, MaxSteps, MaxVerts, Acts, Sample, EmitLen, Values
VARIABLES tab, good, steps, act
vars == <<tab, good, steps, act>>

G == INSTANCE Graph WITH Starts <- {}, MaxSteps <- 0, MaxVerts <- 0, Sample <- 0, nb <- <<>>, steps <- 0, last <- <<>>

(* ------------------------------ definition ----------------------------- *)
Dom(t) == 1..Len(t)
Set(t, v) == {t[v][k] : k \in 1..D}
InRange(t) == \A v \in Dom(t) : \A k \in 1..D : t[v][k] \in Dom(t) /\ t[v][k] # v
Distinct(t) == \A v \in Dom(t) : Cardinality(Set(t, v)) = D
Mutual(t) == \A v \in Dom(t) : \A w \in Set(t, v) : v \in Set(t, w)
Count(t, v) == Cardinality({<<u, k>> \in Dom(t) \X (1..D) : t[u][k] = v})
Counted(t) == \A v \in Dom(t) : Count(t, v) = D
RECURSIVE Reach(_, _, _)
Reach(N, A, R) == LET B == (UNION {N[v] : v \in R} \cap A) \ R IN IF B = {} THEN R ELSE Reach(N, A, R \cup B)
RECURSIVE Comps(_, _)
Comps(N, A) == IF A = {} THEN {} ELSE LET C == Reach(N, DOMAIN N, {CHOOSE x \in A : TRUE}) IN {C} \cup Comps(N, A \ C)
Joined(N, A) == A = {} \/ Reach(N, A, {CHOOSE x \in A : TRUE}) = A
Removals(C) == IF D = 3 THEN {{a, b} : a, b \in C} ELSE IF D = 2 THEN {{a} : a \in C} ELSE {{a, b, c} : a, b, c \in C}
Connected(t) == LET N == TLCEval([v \in Dom(t) |-> Set(t, v)]) IN \A C \in Comps(N, Dom(t)) : \A X \in Removals(C) : Joined(N, C \ X)
\* "open": a polygon table with the right counts but one-way links, which the statement leaves open
Good(t) == IF ~InRange(t) THEN "bad" ELSE IF ~Distinct(t) THEN "bad"
           ELSE IF D = 2 THEN (IF ~Counted(t) THEN "bad" ELSE IF ~Mutual(t) THEN "open" ELSE "good")
           ELSE IF ~Mutual(t) THEN "bad" ELSE IF Connected(t) THEN "good" ELSE "bad"

(* ------------------------------- tables -------------------------------- *)
Cycle(k) == [v \in 1..k |-> <<(v % k) + 1, ((v + k - 2) % k) + 1>>]
K33 == [v \in 1..6 |-> IF v <= 3 THEN <<4, 5, 6>> ELSE <<1, 2, 3>>]
Petersen == [v \in 1..10 |-> IF v <= 5 THEN <<(v % 5) + 1, ((v + 3) % 5) + 1, v + 5>> ELSE <<((v - 5 + 1) % 5) + 6, ((v - 5 + 2) % 5) + 6, v - 5>>]
Order(S) == SetToSortSeq(S, <)
K5 == [v \in 1..5 |-> Order((1..5) \ {v})]
K44 == [v \in 1..8 |-> IF v <= 4 THEN <<5, 6, 7, 8>> ELSE <<1, 2, 3, 4>>]
\* product of a cubic map with an edge
Times2(g) == LET m == Len(g) IN [v \in 1..(2 * m) |-> IF v <= m THEN Append(g[v], v + m) ELSE Append([k \in 1..3 |-> g[v - m][k] + m], v - m)]
\* two triangles, and a triangle and five vertices, held together by three vertices: only these three separate them
Loose9 == <<<<2, 3, 7, 8>>, <<1, 3, 8, 9>>, <<1, 2, 9, 7>>, <<5, 6, 7, 8>>, <<4, 6, 8, 9>>, <<4, 5, 9, 7>>, <<1, 3, 4, 6>>, <<1, 2, 4, 5>>, <<2, 3, 5, 6>>>>
Loose11 == <<<<2, 3, 9, 10>>, <<1, 3, 10, 11>>, <<1, 2, 9, 11>>, <<5, 6, 8, 11>>, <<4, 7, 8, 10>>, <<4, 8, 9, 10>>, <<5, 8, 9, 11>>, <<4, 5, 6, 7>>, <<1, 3, 6, 7>>, <<1, 2, 5, 6>>, <<2, 3, 4, 7>>>>
Loose == {"loose9", "loose11"}
Start(s) == CASE s = "loose9" -> Loose9 [] s = "loose11" -> Loose11 [] s = "c3" -> Cycle(3) [] s = "c4" -> Cycle(4) [] s = "c7" -> Cycle(7) [] s = "c12" -> Cycle(12)
              [] s = "k33" -> K33 [] s = "petersen" -> Petersen [] s = "k5" -> K5 [] s = "k44" -> K44
              [] s = "tetxi" -> Times2(G!Tet) [] s = "prismxi" -> Times2(G!Prism(3)) [] s = "tesseract" -> Times2(G!Prism(4))
              [] OTHER -> G!StartMap(s)
Side(a, b) == [v \in 1..(Len(a) + Len(b)) |-> IF v <= Len(a) THEN a[v] ELSE [k \in 1..D |-> b[v - Len(a)][k] + Len(a)]]

(* ------------------------------- actions ------------------------------- *)
Some(S) == IF S = {} \/ Sample = 0 \/ steps < 0 THEN S ELSE RandomSubset(Min({Sample, Cardinality(S)}), S)
Go(a) == a \in Acts /\ steps < MaxSteps /\ steps' = steps + 1 /\ act' = a
To(t) == tab' = t /\ good' = Good(t)
Sound == InRange(tab) /\ Distinct(tab) /\ Mutual(tab)
AddComponent == /\ Go("add")
                /\ \E s \in Some(Starts) : Len(tab) + Len(Start(s)) <= MaxVerts /\ To(Side(tab, Start(s)))
\* many components at once, as many as fit
RECURSIVE Fill(_, _)
Fill(t, left) == IF left = 0 THEN t ELSE \* one draw per level
    CHOOSE r \in {LET s == Start(RandomElement(Starts)) IN IF Len(t) + Len(s) > MaxVerts THEN t ELSE Fill(TLCEval(Side(t, s)), left - 1)} : TRUE
AddMany == /\ Go("addmany") /\ \E t \in {TLCEval(Fill(tab, MaxVerts \div 4))} : To(t)
Renumber == /\ Go("renumber") /\ tab # <<>> /\ InRange(tab)
            /\ \E key \in {TLCEval([v \in Dom(tab) |-> RandomElement(1..1000000)])} :
               \E old \in {TLCEval(SetToSortSeq(Dom(tab), LAMBDA x, y : key[x] < key[y] \/ (key[x] = key[y] /\ x < y)))} :
               \E new \in {TLCEval([v \in Dom(tab) |-> CHOOSE k \in Dom(tab) : old[k] = v])} :
                 To([k \in Dom(tab) |-> [j \in 1..D |-> new[tab[old[k]][j]]]])
Reorder == /\ Go("reorder") /\ \E v \in Some(Dom(tab)) : \E j \in Some(2..D) : To([tab EXCEPT ![v] = [k \in 1..D |-> @[IF k = 1 THEN j ELSE IF k = j THEN 1 ELSE k]]])
Repl(l, x, y) == [k \in 1..D |-> IF l[k] = x THEN y ELSE l[k]]
Switch == /\ Go("switch") /\ Sound
          /\ \E a \in Some(Dom(tab)) : \E b \in Some(Set(tab, a)) : \E c \in Some(Dom(tab) \ {a, b}) : \E e \in Some(Set(tab, c) \ {a, b}) :
               /\ e \notin Set(tab, a) /\ b \notin Set(tab, c)
               /\ To([v \in Dom(tab) |-> IF v = a THEN Repl(tab[a], b, e) ELSE IF v = b THEN Repl(tab[b], a, c)
                                         ELSE IF v = c THEN Repl(tab[c], e, b) ELSE IF v = e THEN Repl(tab[e], c, a) ELSE tab[v]])
Corrupt == /\ Go("corrupt")
           /\ \E v \in Some(Dom(tab)) : \E k \in 1..D : \E x \in Some((Values \cup (-1..(Len(tab) + 2))) \ {tab[v][k]}) : To([tab EXCEPT ![v][k] = x])
Redirect == /\ Go("redirect")
            /\ \E v \in Some(Dom(tab)) : \E w \in Some(Dom(tab) \ {v}) : \E k \in Some(1..D) : \E m \in Some(1..D) :
                 To([tab EXCEPT ![v][k] = tab[w][m], ![w][m] = tab[v][k]])
Truncate == /\ Go("truncate") /\ Len(tab) > 1 /\ To(SubSeq(tab, 1, Len(tab) - 1))
Init == \E s \in Starts : tab = Start(s) /\ good = Good(tab) /\ steps = 0 /\ act = "start"
Next == AddComponent \/ AddMany \/ Renumber \/ Reorder \/ Switch \/ Corrupt \/ Redirect \/ Truncate

(* ------------------------------ properties ----------------------------- *)
StartsGood == steps = 0 => (good = "good" <=> tab \notin {Start(s) : s \in Loose})
\* what separates the loose ones is rare enough to be overlooked
Rare == (act = "start" /\ tab \in {Start(s) : s \in Loose}) => LET N == [v \in Dom(tab) |-> Set(tab, v)] IN Cardinality({X \in Removals(Dom(tab)) : ~Joined(N, Dom(tab) \ X)}) <= 3
\* numbering and order of the links do not matter
Keeps == [][act' \in {"renumber", "reorder"} => good' = good]_vars
\* components are judged one by one
Conj == [][act' = "add" => ((good' = "good") <=> (good = "good" /\ ~\E s \in Loose : Len(tab') = Len(tab) + Len(Start(s)) /\ SubSeq(tab', 1, Len(tab)) = tab /\ tab' = Side(tab, Start(s))))]_vars
ConjMany == [][(act' = "addmany" /\ good = "good") => good' = "good"]_vars
\* no single wrong link goes unnoticed
Notices == [][(act' = "corrupt" /\ good = "good") => good' = "bad"]_vars
\* with the last vertex its links are gone
Misses == [][(act' = "truncate" /\ good = "good") => good' = "bad"]_vars
\* good tables have an even number of odd links, and no component smaller than D+1
SizeOK == (good = "good" /\ tab # <<>>) => Len(tab) >= D + 1 /\ (Len(tab) * D) % 2 = 0
Emit == (EmitLen = 0 \/ Len(tab) = EmitLen) => PrintT(ToJson([t |-> tab, good |-> good, act |-> act]))
=============================================================================
