------------------------------ MODULE VMCover ------------------------------
(* Writes, for every configuration, one program that applies every          *)
(* operation of StructVM to matrices that are not symmetric.                *)
EXTENDS StructVM, TLC, Json, IOUtils
CONSTANTS Names, Dims, DTypes, Layouts, Kind, OutFile
VARIABLES conf, lay, done
vars == <<conf, lay, done>>
I(op, d, a, b, v, cols) == [op |-> op, d |-> d, a |-> a, b |-> b, v |-> v, cols |-> cols, layout |-> lay]
Prog == <<
  I("from_dense", 1, 1, 1, "0", 0), I("from_dense", 2, 1, 1, "0", 0), I("matmul", 3, 1, 2, "0", 0),
  I("add_", 1, 3, 1, "0.5", 0), I("matmul", 2, 3, 2, "0", 0),
  I("add", 4, 3, 2, "0", 0), I("mul", 4, 3, 1, "-1.5", 0), I("matmul", 4, 3, 2, "0", 0), I("matmul", 4, 2, 3, "0", 0),
  I("matmul", 4, 3, 3, "0", 0), I("matmul", 3, 3, 2, "0", 0),
  I("from_inner", 4, 3, 1, "0", 0), I("from_inner", 4, 4, 1, "0", 0),
  I("from_inner_x", 4, 3, 1, "0", 1), I("from_inner_x", 4, 3, 1, "0", 3), I("from_inner_x", 4, 3, 1, "0", 9),
  I("from_inner2", 4, 3, 1, "0", 0), I("from_mat_inner", 4, 1, 1, "0", 3),
  I("matmul_dense", 1, 3, 1, "0", 3), I("matmul_dense", 1, 3, 1, "0", 1), I("rmatmat", 1, 3, 1, "0", 3), I("rmatmat", 1, 3, 1, "0", 1),
  I("average_trace", 1, 3, 1, "0", 0), I("frobenius_norm", 1, 3, 1, "0", 0), I("infinity_vector_norm", 1, 3, 1, "0", 0),
  I("to_dense", 1, 3, 1, "0", 0),
  I("diag_add_", 1, 3, 1, "0.75", 0), I("average_trace", 1, 3, 1, "0", 0), I("mul_", 1, 3, 1, "-0.5", 0),
  I("infinity_vector_norm", 1, 3, 1, "0", 0),
  I("add_", 1, 3, 3, "-0.5", 0), I("add_", 1, 3, 2, "1.0", 0), I("add_", 1, 1, 3, "-2.0", 0),
  I("diag_add_", 1, 2, 1, "-1.0", 0), I("mul_", 1, 1, 1, "0.0", 0),
  I("eye", 4, 1, 1, "0", 0), I("diag_add_", 1, 4, 1, "-0.25", 0), I("frobenius_norm", 1, 4, 1, "0", 0),
  I("eye", 2, 1, 1, "0", 0), I("zeros", 1, 1, 1, "0", 0), I("infinity_vector_norm", 1, 1, 1, "0", 0), I("add_", 1, 1, 3, "1.0", 0), I("add_", 1, 2, 3, "0.5", 0),
  I("frobenius_norm", 1, 1, 1, "0", 0), I("matmul", 1, 1, 2, "0", 0) >>
\* the operations whose implementation could depend on the dimension, for large matrices
LargeProg == <<
  I("from_dense", 1, 1, 1, "0", 0), I("from_dense", 2, 1, 1, "0", 0), I("matmul", 3, 1, 2, "0", 0), I("matmul", 2, 3, 1, "0", 0),
  I("matmul_dense", 1, 3, 1, "0", 2), I("rmatmat", 1, 3, 1, "0", 2), I("from_inner", 4, 3, 1, "0", 0),
  I("from_inner_x", 4, 2, 1, "0", 3), I("from_mat_inner", 4, 1, 1, "0", 2), I("average_trace", 1, 3, 1, "0", 0),
  I("frobenius_norm", 1, 3, 1, "0", 0), I("infinity_vector_norm", 1, 3, 1, "0", 0), I("diag_add_", 1, 3, 1, "0.75", 0),
  I("eye", 4, 1, 1, "0", 0), I("add_", 1, 3, 4, "-0.5", 0), I("zeros", 4, 1, 1, "0", 0), I("mul", 4, 3, 1, "1.0", 0), I("mul_", 1, 4, 1, "2.0", 0) >>
\* Special operands (zero, identity, general) are where an implementation could hand out an operand
\* instead of a new matrix: every pure operation on them, followed by changes of the result and of the operands.
RECURSIVE Cat(_)
Cat(s) == IF s = <<>> THEN <<>> ELSE Head(s) \o Cat(Tail(s))
Special == <<"zeros", "eye", "from_mat_inner">>
Set(k, d) == I(Special[k], d, 1, 1, "0", IF k = 3 THEN 3 ELSE 0)
Binary(op, i, j) == <<Set(i, 1), Set(j, 2), I(op, 3, 1, 2, "0", 0), I("mul_", 1, 3, 1, "2.0", 0), I("diag_add_", 1, 3, 1, "0.5", 0),
                      I(op, 3, 1, 2, "0", 0), I("diag_add_", 1, 1, 1, "0.25", 0), I("add_", 2, 2, 1, "1.0", 0)>>
Unary(op, i, v, cols) == <<Set(i, 1), I(op, 3, 1, 1, v, cols), I("diag_add_", 1, 3, 1, "0.5", 0), I("add_", 1, 3, 1, "1.0", 0),
                           I(op, 3, 1, 1, v, cols), I("diag_add_", 1, 1, 1, "0.25", 0), I("mul_", 1, 1, 1, "0.5", 0)>>
AddIn(i, j, v) == <<Set(i, 1), Set(j, 2), I("add_", 1, 1, 2, v, 0), I("diag_add_", 1, 1, 1, "0.5", 0), I("mul_", 1, 2, 1, "0.0", 0)>>
Query(op, i) == <<Set(i, 1), I(op, 1, 1, 1, "0", 2), I("diag_add_", 1, 1, 1, "0.5", 0), I(op, 1, 1, 1, "0", 2), I("mul_", 1, 1, 1, "-1.0", 0)>>
Twice(op) == <<I(op, 1, 1, 1, "0", 0), I(op, 2, 1, 1, "0", 0), I("diag_add_", 1, 1, 1, "0.5", 0), I(op, 3, 1, 1, "0", 0), I("add_", 1, 2, 1, "1.0", 0), I(op, 4, 1, 1, "0", 0)>>
AliasProg ==
  Cat([k \in 1..18 |-> Binary(IF k > 9 THEN "add" ELSE "matmul", (((k - 1) % 9) \div 3) + 1, ((k - 1) % 3) + 1)])
  \o Cat([k \in 1..9 |-> Unary("mul", ((k - 1) \div 3) + 1, <<"1.0", "0.0", "-1.0">>[((k - 1) % 3) + 1], 0)])
  \o Cat([k \in 1..9 |-> Unary(<<"from_inner", "from_inner_x", "from_inner2">>[((k - 1) % 3) + 1], ((k - 1) \div 3) + 1, "0", IF ((k - 1) % 3) = 1 THEN 3 ELSE 0)])
  \o Cat([k \in 1..12 |-> AddIn(((k - 1) % 3) + 1, (((k - 1) % 6) \div 3) + 2, <<"0.0", "1.0">>[((k - 1) \div 6) + 1])])
  \o Cat([k \in 1..10 |-> Query(<<"matmul_dense", "rmatmat", "average_trace", "frobenius_norm", "infinity_vector_norm">>[((k - 1) % 5) + 1], ((k - 1) \div 5) + 2)])
  \o Twice("eye") \o Twice("zeros")
Progs == [full |-> Prog, large |-> LargeProg, alias |-> AliasProg]
Init == /\ conf \in [name : Names, n : Dims, dtype : DTypes] /\ lay \in Layouts /\ done = FALSE
Next == /\ ~done /\ done' = TRUE /\ UNCHANGED <<conf, lay>>
        /\ Serialize(ToJson([conf |-> conf, prog |-> Progs[Kind]]) \o "\n", OutFile,
              [format |-> "TXT", charset |-> "UTF-8", openOptions |-> <<"WRITE", "CREATE", "APPEND">>]).exitValue = 0
Spec == Init /\ [][Next]_vars
=============================================================================
