------------------------------ MODULE Imports ------------------------------
(***************************************************************************)
(* P03.  YAML files: imports, dotted keys, writing and reading back.       *)
(* Record kinds:                                                           *)
(*   "files"  a set of files importing each other (files[k].imports are    *)
(*            indices), the first is read; allow = overriding allowed      *)
(*   "round"  a tree written to YAML and read back                         *)
(*   "ops"    a history of operations on one settings dictionary, with     *)
(*            the observed content after each                              *)
(***************************************************************************)
EXTENDS Trees, Json, IOUtils

Recs == JsonDeserialize(IOEnv.RECS)
Range(s) == {s[i] : i \in 1..Len(s)}

\* ---- files ---------------------------------------------------------------
FT(r, k) == TreeOf(r.files[k].tree)
RECURSIVE Load(_, _), LoadOver(_, _, _), Bad(_, _), BadOver(_, _, _)
Load(r, k) == LoadOver(r, FT(r, k), r.files[k].imports)
LoadOver(r, acc, imps) ==
  IF imps = <<>> THEN acc ELSE LoadOver(r, Overlay(Load(r, Head(imps)), acc), Tail(imps))
Bad(r, k) == BadOver(r, FT(r, k), r.files[k].imports)
BadOver(r, acc, imps) ==
  IF imps = <<>> THEN FALSE
  ELSE \/ Bad(r, Head(imps))
       \/ Clash(Load(r, Head(imps)), acc)
       \/ BadOver(r, Overlay(Load(r, Head(imps)), acc), Tail(imps))

RECURSIVE Win(_, _, _)     \* values leaf p may have when overriding is allowed
Win(r, k, p) == IF p \in DOMAIN FT(r, k) THEN {FT(r, k)[p]}
                ELSE UNION {Win(r, j, p) : j \in Range(r.files[k].imports)}
RECURSIVE Reached(_, _)
Reached(r, k) == {k} \cup UNION {Reached(r, j) : j \in Range(r.files[k].imports)}
AllPaths(r) == UNION {DOMAIN FT(r, k) : k \in Reached(r, 1)}

FilesFails(r) ==
  IF r.allow
  THEN IF ~r.out.ok THEN {"OverridingAllowed"}
       ELSE LET got == TreeOf(r.out.tree) IN
            (IF DOMAIN got = AllPaths(r) THEN {} ELSE {"NothingLost"}) \cup
            (IF \A p \in DOMAIN got : got[p] \in Win(r, 1, p) THEN {} ELSE {"ImporterWins"})
  ELSE IF Bad(r, 1) THEN IF r.out.ok THEN {"DefinedTwiceRejected"} ELSE {}
       ELSE IF ~r.out.ok THEN {"Readable"}
            ELSE IF TreeOf(r.out.tree) = Load(r, 1) THEN {} ELSE {"UnionOfFiles"}

\* ---- operation histories ---------------------------------------------------
IsBlock(t, p) == p = <<>> \/ Block(t, p)
\* blocks left empty by a deletion disappear with it
Delete(t, p) == Without(t, p)

Apply(t, o) == CASE o.op = "set"   -> IF o.val = Empty THEN Overlay(t, TreeOf(<<<<o.path, Empty>>>>))
                                      ELSE [q \in {x \in DOMAIN t : ~IsPrefixP(o.path, x) /\ ~(StrictP(x, o.path))} \cup {o.path} |->
                                              IF q = o.path THEN o.val ELSE t[q]]
                 [] o.op = "union" -> Overlay(t, TreeOf(o.tree))
                 [] o.op = "del"   -> Delete(t, o.path)
                 [] OTHER          -> t
Refused(t, o) == CASE o.op = "set"   -> \E a \in DOMAIN t : StrictP(a, o.path) /\ ~Soft(t[a])
                   [] o.op = "union" -> IF o.allow THEN Conflict(t, TreeOf(o.tree)) ELSE Clash(t, TreeOf(o.tree))
                   [] o.op = "del"   -> ~(o.path \in DOMAIN t \/ Block(t, o.path))
                   [] o.op = "get"   -> ~(o.path \in DOMAIN t \/ Block(t, o.path))
                   [] OTHER -> FALSE
StepFails(before, o, after) ==
  IF Refused(before, o)
  THEN (IF o.ok THEN {"RefusedOp"} ELSE {}) \cup
       \* a refused single-key operation changes nothing; a refused union may have been applied in part, but loses nothing
       (IF o.op = "union" THEN IF \A p \in DOMAIN before : p \in DOMAIN after \/ Soft(before[p]) \/ Block(after, p) \/ p \in DOMAIN TreeOf(o.tree)
                                     \/ \E q \in DOMAIN TreeOf(o.tree) : IsPrefixP(q, p)
                               THEN {} ELSE {"RefusedUnionLosesNothing"}
        ELSE IF after = before THEN {} ELSE {"RefusedOpChangesNothing"})
  ELSE IF ~o.ok THEN {"OpAccepted"}
  ELSE (IF after = Apply(before, o) THEN {} ELSE {"Op_" \o o.op}) \cup
       (IF o.op = "get" THEN IF o.path \in DOMAIN before THEN IF o.got = before[o.path] THEN {} ELSE {"Get"}
                             ELSE IF o.got = "<block>" THEN {} ELSE {"Get"}
        ELSE {})
OpsFails(r) ==
  LET st(k) == TreeOf(r.states[k]) IN
  UNION {StepFails(st(k), r.ops[k], st(k + 1)) : k \in 1..Len(r.ops)}
  \cup (IF r.unshared THEN {} ELSE {"OperandUnchanged"})

Fails(r) ==
  CASE r.kind = "files" -> FilesFails(r)
    [] r.kind = "round" -> IF ~r.out.ok THEN {"Writable"}
                           ELSE IF TreeOf(r.out.tree) = TreeOf(r.tree) THEN {} ELSE {"RoundTrip"}
    [] r.kind = "ops"   -> OpsFails(r)

VARIABLE i
Init == i = 0
Next == /\ i < Len(Recs)
        /\ i' = i + 1
        /\ LET f == Fails(Recs[i + 1]) IN f = {} \/ PrintT(ToJson([verdict |-> i + 1, clauses |-> f]))
        /\ (i + 1 = Len(Recs)) => PrintT(ToJson([done |-> i + 1]))
Spec == Init /\ [][Next]_i
=============================================================================
