-------------------------------- MODULE Num --------------------------------
(***************************************************************************)
(* Real arithmetic for TLC.  TLC's own integers have 32 bits and it has no *)
(* fractions, so a real number is a decimal string (or a small integer)    *)
(* and the operators below are evaluated by java/vf/NumOverrides.java with *)
(* 40 significant digits.  The TLA+ bodies define each operator for        *)
(* integers; NumCheck.tla checks the overrides against definitions written *)
(* with the scalar operators only.  All operators are total: a string that *)
(* is not a finite number propagates as "nan" and is close to nothing.     *)
(* Matrices are sequences of equally long rows.                            *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets

RAdd(a, b) == a + b
RSub(a, b) == a - b
RMul(a, b) == a * b
RDiv(a, b) == CHOOSE q \in Int : q * b = a
RSqrt(a) == CHOOSE q \in Nat : q * q = a
RLe(a, b) == a <= b
RFinite(a) == a \in Int
RClose(a, b, rtol, atol) == a = b

RMax(a, b) == IF RLe(a, b) THEN b ELSE a
REq(a, b) == RLe(a, b) /\ RLe(b, a)
RIsZero(a) == REq(a, 0)

NRows(M) == Len(M)
NCols(M) == IF Len(M) = 0 THEN 0 ELSE Len(M[1])

RSum(f) == \* sum of a sequence
  LET S[i \in 0..Len(f)] == IF i = 0 THEN 0 ELSE RAdd(S[i-1], f[i]) IN S[Len(f)]

MMul(A, B) == [i \in 1..NRows(A) |-> [j \in 1..NCols(B) |->
                 RSum([k \in 1..NRows(B) |-> RMul(A[i][k], B[k][j])])]]
MAdd(A, B) == [i \in 1..NRows(A) |-> [j \in 1..NCols(A) |-> RAdd(A[i][j], B[i][j])]]
MSub(A, B) == [i \in 1..NRows(A) |-> [j \in 1..NCols(A) |-> RSub(A[i][j], B[i][j])]]
MScale(s, A) == [i \in 1..NRows(A) |-> [j \in 1..NCols(A) |-> RMul(s, A[i][j])]]
MTrans(A) == [j \in 1..NCols(A) |-> [i \in 1..NRows(A) |-> A[i][j]]]
MForce(A) == A
MMaxAbs(A) == CHOOSE m \in Nat : \A i \in 1..NRows(A), j \in 1..NCols(A) : A[i][j] <= m /\ -A[i][j] <= m
MClose(A, B, rtol, atol) == A = B
MDev(A, B) == "0"

MEye(n) == MForce([i \in 1..n |-> [j \in 1..n |-> IF i = j THEN 1 ELSE 0]])
MZero(n, m) == MForce([i \in 1..n |-> [j \in 1..m |-> 0]])
MDiagSum(A) == RSum([i \in 1..NRows(A) |-> A[i][i]])
MAvgTrace(A) == RDiv(MDiagSum(A), NRows(A))
MFroSq(A) == RSum([i \in 1..NRows(A) |-> RSum([j \in 1..NCols(A) |-> RMul(A[i][j], A[i][j])])])
=============================================================================
