------------------------------- MODULE Trees -------------------------------
(***************************************************************************)
(* Settings trees.  Every YAML block of a Calliope definition is a tree;   *)
(* here a tree is the function from the path of each leaf (a sequence of   *)
(* keys) to the leaf's value, with two special leaves:                     *)
(*     "~"   a null                                                       *)
(*     "{}"  an empty block                                               *)
(* The meaning of overlaying one tree on another is given once, here, and  *)
(* used by every layer mechanism (definition overrides, templates, YAML    *)
(* imports, math layers).                                                  *)
(***************************************************************************)
EXTENDS Naturals, Sequences, FiniteSets, TLC

Null  == "~"
Empty == "{}"
Soft(v) == v \in {Null, Empty}

IsPrefixP(a, b) == /\ Len(a) <= Len(b)
                   /\ \A i \in 1..Len(a) : a[i] = b[i]
StrictP(a, b)   == Len(a) < Len(b) /\ IsPrefixP(a, b)

NoTree == [p \in {} |-> Null]

\* JSON form of a tree: a sequence of <<path, leaf>> pairs.
TreeOf(s) == LET E == {s[i] : i \in 1..Len(s)} IN
             [p \in {e[1] : e \in E} |-> (CHOOSE e \in E : e[1] = p)[2]]

WellFormed(t) == \A p, q \in DOMAIN t : ~StrictP(p, q)

\* Is there a block (not a leaf value) at path p?
Block(t, p) == \/ p \in DOMAIN t /\ t[p] = Empty
               \/ \E q \in DOMAIN t : StrictP(p, q)

\* The subtree below p, and what remains without it.
Below(t, p) ==
  LET D == {q \in DOMAIN t : StrictP(p, q)}
      R == {SubSeq(q, Len(p) + 1, Len(q)) : q \in D}
  IN [r \in R |-> t[p \o r]]
Without(t, p) == [q \in {x \in DOMAIN t : ~IsPrefixP(p, x)} |-> t[q]]
At(p, t) == [q \in {p \o r : r \in DOMAIN t} |-> t[SubSeq(q, Len(p) + 1, Len(q))]]

\* u nests a setting below something that has a plain value in t.
Conflict(t, u) == \E p \in DOMAIN u, a \in DOMAIN t : StrictP(a, p) /\ ~Soft(t[a])

\* Overlay u on t: u's leaves win; a null does not erase a block; an empty
\* block does not erase anything; a plain value replaces a whole block.
Overlay(t, u) ==
  LET eff  == {p \in DOMAIN u :
                 /\ ~(u[p] = Null /\ Block(t, p))
                 /\ ~(u[p] = Empty /\ (p \in DOMAIN t \/ Block(t, p)))}
      keep == {q \in DOMAIN t : \A p \in eff : ~IsPrefixP(p, q) /\ ~StrictP(q, p)}
  IN [q \in keep \cup eff |-> IF q \in eff THEN u[q] ELSE t[q]]

\* Overlay where setting anything twice is an error.
Clash(t, u) ==
  \/ DOMAIN t \cap DOMAIN u # {}
  \/ Conflict(t, u)
  \/ \E p \in DOMAIN u : u[p] \notin {Null, Empty} /\ \E q \in DOMAIN t : StrictP(p, q)

-----------------------------------------------------------------------------
\* Block replacement: a key "_REPLACE_" inside a block stands for the whole
\* new content of that block.
Rep == "_REPLACE_"
HasRep(p) == \E i \in 1..Len(p) : p[i] = Rep
RepPos(p) == CHOOSE i \in 1..Len(p) : p[i] = Rep /\ \A j \in 1..(i - 1) : p[j] # Rep
RepBlocks(u) == {SubSeq(p, 1, RepPos(p) - 1) : p \in {q \in DOMAIN u : HasRep(q)}}
Plain(u) == [p \in {q \in DOMAIN u : ~HasRep(q)} |-> u[p]]

ReplaceAt(t, b, u) ==
  LET new == At(b, Below(u, b \o <<Rep>>))
      lf  == b \o <<Rep>>
      new2 == IF lf \in DOMAIN u THEN [p \in {b} |-> u[lf]] ELSE new
      base == Without(t, b)
  IN [p \in DOMAIN base \cup DOMAIN new2 |-> IF p \in DOMAIN new2 THEN new2[p] ELSE base[p]]

RECURSIVE ReplaceAll(_, _, _)
ReplaceAll(t, B, u) ==
  IF B = {} THEN t
  ELSE LET b == CHOOSE x \in B : TRUE IN ReplaceAll(ReplaceAt(t, b, u), B \ {b}, u)

\* Overlay with replacement blocks.
Layer(t, u) == ReplaceAll(Overlay(t, Plain(u)), RepBlocks(u), u)

LayerConflict(t, u) ==
  \/ Conflict(t, Plain(u))
  \/ \E b \in RepBlocks(u) : ~Block(t, b) /\ b \notin DOMAIN t

RECURSIVE Stack(_, _)
Stack(t, us) == IF us = <<>> THEN t ELSE Stack(Layer(t, Head(us)), Tail(us))
RECURSIVE StackConflict(_, _)
StackConflict(t, us) ==
  IF us = <<>> THEN FALSE
  ELSE LayerConflict(t, Head(us)) \/ StackConflict(Layer(t, Head(us)), Tail(us))

\* What is visible at leaf path p of t, as seen by a reader.
Get(t, p) == IF p \in DOMAIN t THEN t[p] ELSE IF Block(t, p) THEN "<block>" ELSE "<none>"
=============================================================================
