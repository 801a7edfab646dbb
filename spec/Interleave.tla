----------------------------- MODULE Interleave ----------------------------
(* Several users of the library, each with two bodies of its own, call any   *)
(* operation at any time; a call has a begin and an end, and calls of        *)
(* different users overlap.  Bodies are represented by the term of the calls *)
(* that made them, so two bodies are the same term exactly when the same     *)
(* calls with the same arguments made them.  A call works in scratch space:  *)
(* its own (Shared = FALSE), as the library has to behave, or one common to  *)
(* all users (Shared = TRUE), the control under which the guarantees fail.   *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, Randomization
CONSTANTS Users, Length, Ops, Shared, Overlap, Sample
VARIABLES prog, term, out, busy, scratch, sched
vars == <<prog, term, out, busy, scratch, sched>>
(* an operation: [c |-> class, n |-> name, v |-> argument variant]           *)
(* make: writes body 1 from nothing;  mut: rewrites body 1;  two: reads body *)
(* 1 and writes both;  copy: body 2 becomes body 1, back: body 1 becomes     *)
(* body 2;  query: reads body 1, answers;  fn: answers, reads no body        *)
None == [c |-> "none", n |-> "none", v |-> 0]
Id(o) == <<o.n, o.v>>
(* the effect of one call on a user's bodies, working from what the scratch space holds *)
After(o, t, w) ==
    CASE o.c = "make"  -> <<<<Id(o)>>, t[2]>>
      [] o.c = "mut"   -> <<Append(w, Id(o)), t[2]>>
      [] o.c = "two"   -> <<Append(w, Append(Id(o), "a")), Append(w, Append(Id(o), "b"))>>
      [] o.c = "copy"  -> <<t[1], t[1]>>
      [] o.c = "back"  -> <<t[2], t[2]>>
      [] OTHER         -> t
Answer(o, w) == IF o.c = "fn" THEN <<Id(o)>> ELSE IF o.c = "query" THEN <<Id(o), w>> ELSE <<Id(o), w>>
RECURSIVE Solo(_)
Solo(ps) == IF ps = <<>> THEN [t |-> <<<<>>, <<>>>>, o |-> <<>>]
            ELSE LET b == Solo(SubSeq(ps, 1, Len(ps) - 1))
                     o == ps[Len(ps)]
                 IN [t |-> After(o, b.t, b.t[1]), o |-> Append(b.o, Answer(o, b.t[1]))]
Slot(u) == IF Shared THEN 0 ELSE u

Init == /\ prog = [u \in Users |-> <<>>] /\ term = [u \in Users |-> <<<<>>, <<>>>>]
        /\ out = [u \in Users |-> <<>>] /\ busy = [u \in Users |-> None]
        /\ scratch = [s \in Users \cup {0} |-> <<>>] /\ sched = <<>>
Pick(u) == IF prog[u] = <<>> THEN {o \in Ops[u] : o.c = "make"}
           ELSE IF Sample = 0 \/ Len(prog[u]) < 0 THEN Ops[u] ELSE RandomSubset(Sample, Ops[u])
Begin(u) == /\ busy[u] = None /\ Len(prog[u]) < Length
            /\ (Overlap \/ \A x \in Users : busy[x] = None)
            /\ \E o \in Pick(u) :
                 /\ busy' = [busy EXCEPT ![u] = o]
                 /\ scratch' = [scratch EXCEPT ![Slot(u)] = term[u][1]]
            /\ sched' = Append(sched, u)
            /\ UNCHANGED <<prog, term, out>>
End(u) == /\ busy[u] # None
          /\ LET o == busy[u]
                 w == scratch[Slot(u)]
             IN /\ term' = [term EXCEPT ![u] = After(o, term[u], w)]
                /\ out' = [out EXCEPT ![u] = Append(out[u], Answer(o, w))]
                /\ prog' = [prog EXCEPT ![u] = Append(prog[u], o)]
          /\ busy' = [busy EXCEPT ![u] = None]
          /\ UNCHANGED <<scratch, sched>>
Next == \E u \in Users : Begin(u) \/ End(u)
Spec == Init /\ [][Next]_vars

(* what a user sees depends on the calls of that user alone *)
OwnCallsOnly == \A u \in Users : busy[u] = None => term[u] = Solo(prog[u]).t /\ out[u] = Solo(prog[u]).o
(* a query leaves the body as it was, and nobody's call touches the bodies of another *)
QueriesPure == [][\A u \in Users : (busy[u].c \in {"query", "fn"} /\ busy'[u] = None) => term'[u] = term[u]]_vars
OthersUntouched == [][\A u \in Users : (busy[u] = None \/ busy'[u] = busy[u]) => (term'[u] = term[u] /\ out'[u] = out[u])]_vars
(* equal terms answer equally, whoever asks and whenever *)
Functional == \A u, x \in Users : \A i \in 1..Len(out[u]), j \in 1..Len(out[x]) :
    (Solo(SubSeq(prog[u], 1, i - 1)).t[1] = Solo(SubSeq(prog[x], 1, j - 1)).t[1] /\ prog[u][i] = prog[x][j]) => out[u][i] = out[x][j]

Done == \A u \in Users : Len(prog[u]) = Length
OwnCallsAtEnd == Done => OwnCallsOnly
Emit == Done => PrintT(ToJson([prog |-> [u \in Users |-> [k \in 1..Length |-> <<prog[u][k].c, prog[u][k].n, prog[u][k].v>>]],
                                   out |-> out, terms |-> [u \in Users |-> [k \in 1..Length |-> Solo(SubSeq(prog[u], 1, k)).t]], sched |-> sched]))
=============================================================================
