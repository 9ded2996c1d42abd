--------------------------- MODULE MCReduction ---------------------------
(***************************************************************************)
(* R processes run one common program of reductions.  Each process issues   *)
(* its operations in program order, an asynchronous one completes for a     *)
(* process some time after every member issued it, waiting for handles      *)
(* happens in any order.  Checked: whatever the interleaving, every process *)
(* ends with the values that Reduction!Apply yields one after the other,    *)
(* and every process gets to its end.  Values: linear combinations of the   *)
(* initial values, as integer coefficients (scaled so that averages are     *)
(* exact).                                                                  *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC
CONSTANTS R, NMat, MaxLen, Mutation
VARIABLES prog, pos, val, box, open
vars == <<prog, pos, val, box, open>>
P == 1..R
One == 1296
CAdd(a, b) == [x \in DOMAIN a |-> a[x] + b[x]]
CDiv(a, n) == [x \in DOMAIN a |-> a[x] \div n]
Red == INSTANCE Reduction WITH Add <- CAdd, Div <- CDiv
Init0 == [p \in P |-> [m \in 1..NMat |-> [x \in P \X (1..NMat) |-> IF x = <<p, m>> THEN One ELSE 0]]]

Seqs(S, n) == UNION {[1..i -> S] : i \in 1..n}
Members == {<<1>>, <<1, 2>>} \cup {[i \in P |-> i]}
\* pieces: the tensors a structured matrix consists of; each is reduced on its own
Entry == [m : 1..NMat, op : {"sum", "avg"}, g : Members, async : BOOLEAN]
In(p, e) == \E i \in DOMAIN e.g : e.g[i] = p
\* no operation on a matrix with an outstanding reduction: a second entry on m needs the first to be waited for
Init == /\ prog \in Seqs(Entry, MaxLen)
        /\ pos = [p \in P |-> 1] /\ val = Init0 /\ box = [i \in DOMAIN prog |-> <<>>]
        /\ open = [p \in P |-> {}]

\* contributions of the members that issued operation i
Complete(i) == DOMAIN box[i] = {prog[i].g[j] : j \in DOMAIN prog[i].g}
Busy(p, m) == \E i \in open[p] : prog[i].m = m
Issue(p) ==
  /\ pos[p] <= Len(prog)
  /\ LET i == pos[p]  e == prog[i] IN
     IF ~In(p, e) THEN pos' = [pos EXCEPT ![p] = @ + 1] /\ UNCHANGED <<prog, val, box, open>>
     ELSE /\ ~Busy(p, e.m)
          /\ box' = [box EXCEPT ![i] = (p :> val[p][e.m]) @@ @]
          /\ open' = [open EXCEPT ![p] = @ \cup {i}]
          \* a synchronous operation blocks: the process does not advance before it is complete
          /\ pos' = IF e.async THEN [pos EXCEPT ![p] = @ + 1] ELSE pos
          /\ (~e.async => i \notin open[p])
          /\ UNCHANGED <<prog, val>>
Wait(p) == \E i \in open[p] :
  /\ (Mutation = "no-wait" \/ Complete(i))
  /\ LET e == prog[i]
         f == [q \in P |-> IF q \in DOMAIN box[i] THEN box[i][q] ELSE [x \in DOMAIN val[1][1] |-> 0]]
     IN val' = [val EXCEPT ![p][e.m] = Red!Reduced(f, e.g, e.op)]
  /\ open' = [open EXCEPT ![p] = @ \ {i}]
  /\ pos' = IF prog[i].async THEN pos ELSE [pos EXCEPT ![p] = @ + 1]
  /\ UNCHANGED <<prog, box>>
Next == \E p \in P : Issue(p) \/ Wait(p)
Spec == Init /\ [][Next]_vars

Finished == \A p \in P : pos[p] = Len(prog) + 1 /\ open[p] = {}
Expected == LET F[i \in 0..Len(prog)] == IF i = 0 THEN Init0 ELSE Red!Apply(F[i - 1], prog[i].m, prog[i].g, prog[i].op) IN F[Len(prog)]
Inv == Finished => val = Expected
\* reduced matrices are equal on all members
Equal == Finished => \A p, q \in P, m \in 1..NMat :
           (prog # <<>> /\ prog[Len(prog)].m = m /\ In(p, prog[Len(prog)]) /\ In(q, prog[Len(prog)])) => val[p][m] = val[q][m]
NoDeadlock == Finished \/ ENABLED Next
=============================================================================
