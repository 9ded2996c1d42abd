----------------------------- MODULE StructVM -----------------------------
(***************************************************************************)
(* A register machine over structured matrices: what every operation of    *)
(* the StructuredMatrix interface means.  All registers of a run hold      *)
(* matrices of one structure and dimension.  Pure operations write a fresh  *)
(* matrix to register d; in-place ones modify register a and nothing else;  *)
(* queries return a dense result and change nothing.                        *)
(***************************************************************************)
EXTENDS Structures

PureOps    == {"from_dense", "eye", "zeros", "matmul", "add", "mul", "from_inner",
               "from_inner_x", "from_inner2", "from_mat_inner"}
InPlaceOps == {"add_", "mul_", "diag_add_"}
QueryOps   == {"matmul_dense", "rmatmat", "average_trace", "frobenius_norm",
               "infinity_vector_norm", "to_dense"}
Ops == PureOps \cup InPlaceOps \cup QueryOps
\* operations with register operands a / a and b
UsesA == {"matmul", "add", "mul", "from_inner", "from_inner_x", "from_inner2"} \cup InPlaceOps \cup QueryOps
UsesB == {"matmul", "add", "add_"}

\* register that is written, 0 if none
Target(e) == IF e.op \in PureOps THEN e.d ELSE IF e.op \in InPlaceOps THEN e.a ELSE 0

(***************************************************************************)
(* Result of operation e on registers r (dense matrices), structure s and  *)
(* dimension n.  e.X is a dense operand, e.v a scalar.                      *)
(***************************************************************************)
Gram(S) == MMul(S, MTrans(S))
Result(e, r, s, n) ==
  CASE e.op = "from_dense"     -> Proj(s, e.X)
    [] e.op = "eye"            -> MEye(n)
    [] e.op = "zeros"          -> MZero(n, n)
    [] e.op = "matmul"         -> MMul(r[e.a], r[e.b])
    [] e.op = "add"            -> MAdd(r[e.a], r[e.b])
    [] e.op = "mul"            -> MScale(e.v, r[e.a])
    [] e.op = "from_inner"     -> Proj(s, Gram(MTrans(r[e.a])))
    [] e.op = "from_inner_x"   -> Proj(s, Gram(MMul(MTrans(r[e.a]), e.X)))
    [] e.op = "from_inner2"    -> Proj(s, MMul(MMul(MTrans(r[e.a]), e.X), r[e.a]))
    [] e.op = "from_mat_inner" -> Proj(s, Gram(e.X))
    [] e.op = "add_"           -> MAdd(r[e.a], MScale(e.v, r[e.b]))
    [] e.op = "mul_"           -> MScale(e.v, r[e.a])
    [] e.op = "diag_add_"      -> MAdd(r[e.a], MScale(e.v, MEye(n)))
    [] e.op = "matmul_dense"   -> MMul(r[e.a], e.X)
    [] e.op = "rmatmat"        -> MMul(MTrans(r[e.a]), e.X)
    [] e.op = "to_dense"       -> r[e.a]
    [] e.op = "average_trace"  -> <<<<MAvgTrace(r[e.a])>>>>
    [] e.op = "frobenius_norm" -> <<<<RSqrt(MFroSq(r[e.a]))>>>>
    [] e.op = "infinity_vector_norm" -> <<<<MMaxAbs(r[e.a])>>>>

\* magnitude of the intermediate terms, for the rounding tolerance of the implementation
Mag(e, r, n) ==
  LET x == IF e.op \in {"from_dense", "from_inner_x", "from_inner2", "from_mat_inner", "matmul_dense", "rmatmat"}
           THEN RMax(1, MMaxAbs(e.X)) ELSE 1
      p == IF e.op \in UsesA THEN RMax(1, MMaxAbs(r[e.a])) ELSE 1
      q == IF e.op \in UsesB THEN RMax(1, MMaxAbs(r[e.b])) ELSE p
      v == IF e.op \in {"mul", "add_", "mul_", "diag_add_"} THEN RMax(1, MMaxAbs(<<<<e.v>>>>)) ELSE 1
      m == IF e.op \in {"from_inner_x", "from_mat_inner"} THEN Len(e.X[1]) ELSE 1
  IN RMul(RMul(RMul(RMul(x, x), RMul(p, q)), v), n * n * m)
=============================================================================
