----------------------------- MODULE Reduction -----------------------------
(***************************************************************************)
(* Collective reductions of matrices over processes.                        *)
(*   val[p][m]  value of matrix m on process p                              *)
(* A reduction replaces the values of all members of the process group by   *)
(* the sum or average of the values its members had when they issued it.    *)
(* An asynchronous one is complete once all its handles were waited for.    *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets
CONSTANTS Add(_, _), Div(_, _)
SumOver(f, members) == \* members: non-empty sequence of processes
  LET F[i \in 1..Len(members)] == IF i = 1 THEN f[members[1]] ELSE Add(F[i - 1], f[members[i]]) IN F[Len(members)]
Reduced(f, members, op) == IF op = "sum" THEN SumOver(f, members) ELSE Div(SumOver(f, members), Len(members))
\* the collective as one step of all processes
Apply(val, m, members, op) ==
  LET new == Reduced([p \in DOMAIN val |-> val[p][m]], members, op)
      mem == {members[i] : i \in DOMAIN members}
  IN [p \in DOMAIN val |-> IF p \in mem THEN [val[p] EXCEPT ![m] = new] ELSE val[p]]
=============================================================================
