--------------------------- MODULE ReductionGen ---------------------------
(* Generates programs of reductions; see ReductionTrace.  Breadth first:     *)
(* every configuration with one reduction; simulation: longer programs.     *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils
CONSTANTS R, Names, Dims, DTypes, Layouts, Delayed, NMat, MaxLen, OutFile
VARIABLES pc, conf, lays, ev, out
vars == <<pc, conf, lays, ev, out>>
None == [x |-> 0]

Whole == [i \in 1..R |-> i]
Members == {Whole, <<1>>} \cup (IF R > 2 THEN {<<1, R>>, <<2, 3>>} ELSE {<<2>>})
Init == pc = "name" /\ conf = None /\ lays = <<>> /\ ev = <<>> /\ out = {}
ChooseName == pc = "name" /\ \E m \in Names : conf' = [name |-> m] /\ pc' = "dim" /\ UNCHANGED <<lays, ev, out>>
ChooseDim == pc = "dim" /\ \E n \in Dims, t \in DTypes, d \in Delayed : conf' = conf @@ [n |-> n, dtype |-> t, delayed |-> d] /\ pc' = "lay" /\ UNCHANGED <<lays, ev, out>>
ChooseLay == pc = "lay" /\ \E y \in Layouts : lays' = Append(lays, y) /\ pc' = (IF Len(lays) + 1 = NMat THEN "ev" ELSE "lay") /\ UNCHANGED <<conf, ev, out>>
Room == pc = "ev" /\ Len(ev) < MaxLen
\* no operation on a matrix with an outstanding reduction
Issue == /\ Room
         /\ \E m \in 1..NMat \ out, op \in {"sum", "avg", "default"}, g \in Members, async \in BOOLEAN :
              /\ ev' = Append(ev, [e |-> "reduce", m |-> m, op |-> op, g |-> g, async |-> async])
              /\ out' = IF async THEN out \cup {m} ELSE out
         /\ UNCHANGED <<pc, conf, lays>>
Wait == /\ Room /\ \E ms \in SUBSET out \ {{}} :
           /\ ev' = Append(ev, [e |-> "wait", ms |-> ms]) /\ out' = out \ ms
        /\ UNCHANGED <<pc, conf, lays>>
Local == /\ Room /\ NMat > 1 /\ \E m \in 1..NMat \ out, how \in {"mul", "square", "add"} :
              ev' = Append(ev, [e |-> "local", m |-> m, how |-> how])
         /\ UNCHANGED <<pc, conf, lays, out>>
Write(y) == Serialize(ToJson(y) \o "\n", OutFile,
              [format |-> "TXT", charset |-> "UTF-8", openOptions |-> <<"WRITE", "CREATE", "APPEND">>]).exitValue = 0
Finish == /\ pc = "ev" /\ Len(ev) = MaxLen
          /\ Write([conf |-> conf, R |-> R, lays |-> lays,
                    ev |-> ev \o IF out = {} THEN <<>> ELSE <<[e |-> "wait", ms |-> out]>>])
          /\ pc' = "done" /\ UNCHANGED <<conf, lays, ev, out>>
Next == ChooseName \/ ChooseDim \/ ChooseLay \/ Issue \/ Wait \/ Local \/ Finish
Spec == Init /\ [][Next]_vars
=============================================================================
