------------------------------- MODULE VMGen -------------------------------
(* Generates programs for the register machine of StructVM: TLC simulates   *)
(* this specification and writes each finished program as one JSON line.    *)
EXTENDS StructVM, TLC, Json, IOUtils
CONSTANTS Names, Dims, DTypes, Layouts, Scalars, NReg, MaxLen, OpSet, OutFile
VARIABLES pc, conf, def, prog
vars == <<pc, conf, def, prog>>
None == [x |-> 0]

Init == pc = "name" /\ conf = None /\ def = {} /\ prog = <<>>
ChooseName == pc = "name" /\ \E m \in Names : conf' = [name |-> m] /\ pc' = "dim" /\ UNCHANGED <<def, prog>>
ChooseDim == pc = "dim" /\ \E n \in Dims : conf' = conf @@ [n |-> n] /\ pc' = "dtype" /\ UNCHANGED <<def, prog>>
ChooseDType == pc = "dtype" /\ \E t \in DTypes : conf' = conf @@ [dtype |-> t] /\ pc' = "op" /\ UNCHANGED <<def, prog>>
\* classes of operations, so that each is as likely as another
ChooseOp == pc = "op" /\ Len(prog) < MaxLen
            /\ \E o \in OpSet : /\ o \in UsesA => def # {}
                                /\ pc' = o
            /\ UNCHANGED <<conf, def, prog>>
Emit ==
  /\ pc \in OpSet
  /\ \E d \in (IF pc \in PureOps THEN 1..NReg ELSE {1}),
        a \in (IF pc \in UsesA THEN def ELSE {1}),
        b \in (IF pc \in UsesB THEN def ELSE {1}),
        v \in (IF pc \in {"mul", "add_", "mul_", "diag_add_"} THEN Scalars ELSE {"0"}),
        cols \in (IF pc \in {"from_inner_x", "from_mat_inner", "matmul_dense", "rmatmat"} THEN {1, 3, 9} ELSE {0}),
        lay \in Layouts :
       LET e == [op |-> pc, d |-> d, a |-> a, b |-> b, v |-> v, cols |-> cols, layout |-> lay] IN
       /\ prog' = Append(prog, e)
       /\ def' = IF pc \in PureOps THEN def \cup {d} ELSE def
  /\ pc' = "op"
  /\ UNCHANGED conf
Write(x) == Serialize(ToJson(x) \o "\n", OutFile,
              [format |-> "TXT", charset |-> "UTF-8", openOptions |-> <<"WRITE", "CREATE", "APPEND">>]).exitValue = 0
Finish == pc = "op" /\ Len(prog) = MaxLen /\ Write([conf |-> conf, prog |-> prog])
          /\ pc' = "done" /\ UNCHANGED <<conf, def, prog>>
Next == ChooseName \/ ChooseDim \/ ChooseDType \/ ChooseOp \/ Emit \/ Finish
Spec == Init /\ [][Next]_vars
=============================================================================
