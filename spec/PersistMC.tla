----------------------------- MODULE PersistMC -----------------------------
(* Histories of one model and two files, explored exhaustively: what is in a
   file is the model as it was when the file was written last.  Every history
   that ends with a load is emitted and replayed into the implementation.    *)
EXTENDS Naturals, Sequences, TLC, Json
CONSTANT Max
VARIABLES mem, disk, hist
\* a model: its stage, and how often it was changed since the beginning
Stages == {"init", "built", "solved"}
None == [st |-> "none", ver |-> 0]
Do(op, f, m, d) == Len(hist) < Max /\ hist' = Append(hist, [op |-> op, file |-> f]) /\ mem' = m /\ disk' = d
Init == mem = [st |-> "init", ver |-> 0] /\ disk = [f \in {"f", "g"} |-> None] /\ hist = <<>>
Last == IF hist = <<>> THEN "-" ELSE hist[Len(hist)].op
Build == mem.st = "init" /\ Do("build", "-", [mem EXCEPT !.st = "built"], disk)
Solve == mem.st = "built" /\ Do("solve", "-", [mem EXCEPT !.st = "solved"], disk)
Touch == mem.ver < 1 /\ Last # "touch" /\ Do("touch", "-", [mem EXCEPT !.ver = @ + 1], disk)
Save == \E f \in {"f", "g"} : (f = "g" => disk["f"] # None) /\ Do("save", f, mem, [disk EXCEPT ![f] = mem])
Load == \E f \in {"f", "g"} : disk[f] # None /\ Do("load", f, [disk[f] EXCEPT !.st = IF @ = "built" THEN "init" ELSE @], disk)
Csv == Last # "csv" /\ Do("csv", "-", mem, disk)
Next == Build \/ Solve \/ Touch \/ Save \/ Load \/ Csv
Spec == Init /\ [][Next]_<<mem, disk, hist>>
\* a load never depends on what happened in memory since the save, nor on the other file
Written == \A f \in {"f", "g"} : disk[f] # None => \E k \in 1..Len(hist) : hist[k] = [op |-> "save", file |-> f]
Emitted == (Len(hist) = Max /\ Last = "load") => PrintT(ToJson([hist |-> hist]))
=============================================================================
