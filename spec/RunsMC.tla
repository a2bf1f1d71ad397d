------------------------------- MODULE RunsMC -------------------------------
(* Groups of overrides grow one by one; every combination is listed exactly
   once.  Every set of groups is emitted and given to the implementation.    *)
EXTENDS RunsCore, Json
VARIABLE gs
Names == <<"a", "b", "c", "d", "e", "f", "g", "h", "i", "j", "k">>
Init == gs = <<>>
\* overrides of different groups have different names
Used == LET RECURSIVE T(_) T(k) == IF k = 0 THEN 0 ELSE Len(gs[k]) + T(k - 1) IN T(Len(gs))
NewGroup == Len(gs) < 4 /\ Used < Len(Names) /\ gs' = Append(gs, <<Names[Used + 1]>>)
Grow == gs # <<>> /\ Used < Len(Names) /\ gs' = [gs EXCEPT ![Len(gs)] = Append(@, Names[Used + 1])]
Next == NewGroup \/ Grow
Spec == Init /\ [][Next]_gs
RECURSIVE Size(_)
Size(x) == IF x = <<>> THEN 1 ELSE Len(x[1]) * Size(Tail(x))
C == Combinations(gs)
ExactlyOnce == /\ Len(C) = Size(gs)
               /\ \A j, k \in 1..Len(C) : j # k => C[j] # C[k]
               /\ \A c \in Rng(C) : Len(c) = Len(gs) /\ \A k \in 1..Len(gs) : c[k] \in Rng(gs[k])
NamesDiffer == LET S == Scenarios("s", gs) IN Cardinality({S[k].name : k \in 1..Len(S)}) = Len(S)
Emitted == gs = <<>> \/ PrintT(ToJson([groups |-> gs]))
=============================================================================
