------------------------------ MODULE NumCheck ------------------------------
(* The matrix overrides agree with definitions over the scalar overrides.   *)
EXTENDS Num, TLC
E2 == {"-1.5", "0", "2", "0.1"}
VARIABLES A, B
Init == /\ A \in [1..2 -> [1..2 -> E2]]
        /\ B \in {<<<<"3","0.25">>,<<"-1","7e-3">>>>, <<<<"1","0">>,<<"0","1">>>>}
Next == UNCHANGED <<A, B>>
DMul == [i \in 1..2 |-> [j \in 1..2 |-> RAdd(RMul(A[i][1],B[1][j]), RMul(A[i][2],B[2][j]))]]
Z == "0"
Inv ==
  /\ MClose(MMul(A,B), DMul, Z, Z)
  /\ MClose(MAdd(A,B), [i \in 1..2 |-> [j \in 1..2 |-> RAdd(A[i][j],B[i][j])]], Z, Z)
  /\ MClose(MSub(A,B), [i \in 1..2 |-> [j \in 1..2 |-> RSub(A[i][j],B[i][j])]], Z, Z)
  /\ MClose(MScale("-2",A), [i \in 1..2 |-> [j \in 1..2 |-> RMul("-2",A[i][j])]], Z, Z)
  /\ MTrans(A) = MForce([i \in 1..2 |-> [j \in 1..2 |-> A[j][i]]])
  /\ \A i, j \in 1..2 : RLe(A[i][j], MMaxAbs(A)) /\ RLe(RSub(0,A[i][j]), MMaxAbs(A))
  /\ \E i, j \in 1..2 : REq(A[i][j], MMaxAbs(A)) \/ REq(RSub(0,A[i][j]), MMaxAbs(A))
  /\ MClose(A, B, Z, Z) = (\A i, j \in 1..2 : REq(A[i][j], B[i][j]))
  /\ ~MClose(<<<<"nan">>>>, <<<<"nan">>>>, "1", "1") /\ ~MClose(<<<<1>>>>, <<<<1,1>>>>, "1", "1")
  /\ MClose(MMul(MEye(2), A), A, Z, Z)
  /\ RClose("1.0000001", "1", "1e-6", Z) /\ ~RClose("1.00001", "1", "1e-6", Z) /\ RClose(RSqrt("2"), "1.4142135623730950488", "1e-15", Z)
=============================================================================
