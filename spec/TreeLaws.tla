------------------------------ MODULE TreeLaws ------------------------------
(* Exhaustive check of the laws users rely on, over all small trees.       *)
EXTENDS Trees
CONSTANT Big

\* All trees over keys x, y (depth <= 2) with leaf values v.
Leaf(v)    == {Null, Empty, v}
SubTrees(v) == UNION {[D -> Leaf(v)] : D \in SUBSET {<<"x">>, <<"y">>}}
Val(v)     == {[p \in {<<>>} |-> l] : l \in Leaf(v)} \cup (SubTrees(v) \ {NoTree})
Under(k, t) == [q \in {<<k>> \o r : r \in DOMAIN t} |-> t[Tail(q)]]
Join(a, b) == [q \in DOMAIN a \cup DOMAIN b |-> IF q \in DOMAIN a THEN a[q] ELSE b[q]]
OneKey(k, v) == {NoTree} \cup {Under(k, t) : t \in Val(v)}
TreesOver(v) == {Join(a, b) : a \in OneKey("a", v), b \in IF Big THEN {NoTree, Under("b", [p \in {<<>>} |-> v]), Under("b", [p \in {<<"x">>} |-> v])} ELSE {NoTree}}
Paths == {<<"a">>, <<"a", "x">>, <<"a", "y">>, <<"b">>, <<"b", "x">>}

VARIABLES t, u, w
Init == t \in TreesOver("1") /\ u = NoTree /\ w = NoTree
Next == \/ u = NoTree /\ w = NoTree /\ u' \in TreesOver("2") /\ UNCHANGED <<t, w>>
        \/ u # NoTree /\ w = NoTree /\ w' \in TreesOver("3") /\ UNCHANGED <<t, u>>
Spec == Init /\ [][Next]_<<t, u, w>>

Shape == WellFormed(t) /\ (~Conflict(t, u) => WellFormed(Overlay(t, u)))
\* A leaf the upper layer sets to a value has that value.
UpperWins == ~Conflict(t, u) => \A p \in DOMAIN u : ~Soft(u[p]) => Overlay(t, u)[p] = u[p]
\* A leaf the upper layer does not touch keeps the lower layer's value.
LowerKept == ~Conflict(t, u) => \A p \in DOMAIN t :
   (\A q \in DOMAIN u : ~IsPrefixP(p, q) /\ ~IsPrefixP(q, p)) => p \in DOMAIN Overlay(t, u) /\ Overlay(t, u)[p] = t[p]
\* A null never erases a block.
NullKeeps == ~Conflict(t, u) => \A p \in DOMAIN u : (u[p] = Null /\ Block(t, p)) => Block(Overlay(t, u), p)
\* Nothing is invented.
NoInvent == ~Conflict(t, u) => \A p \in DOMAIN Overlay(t, u) : Overlay(t, u)[p] \in {Get(t, p), Get(u, p)}
Idempotent == ~Conflict(t, u) => Overlay(Overlay(t, u), u) = Overlay(t, u)
\* Layers compose: the highest layer that sets a value decides it.
Compose == (~Conflict(t, u) /\ ~Conflict(Overlay(t, u), w)) =>
   \A p \in Paths : (p \in DOMAIN w /\ ~Soft(w[p])) => Overlay(Overlay(t, u), w)[p] = w[p]
\* Non-clashing trees commute as far as values are concerned.
CommuteFree == (~Clash(t, u) /\ ~Clash(u, t)) =>
   \A p \in Paths : ~Soft(Get(Overlay(t, u), p)) => Get(Overlay(t, u), p) = Get(Overlay(u, t), p)
\* The two-pass application (override dict, scenario, override dict again)
\* agrees with single-pass priority wherever both are free of conflicts.
TwoPass == (/\ ~Conflict(t, w) /\ ~Conflict(Overlay(t, w), u) /\ ~Conflict(Overlay(Overlay(t, w), u), w)
            /\ ~Conflict(t, u) /\ ~Conflict(Overlay(t, u), w))
   => \A p \in Paths :
        LET one == Get(Overlay(Overlay(t, u), w), p)
            two == Get(Overlay(Overlay(Overlay(t, w), u), w), p)
        IN (p \in DOMAIN w /\ ~Soft(w[p])) => one = two
=============================================================================
