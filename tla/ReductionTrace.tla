-------------------------- MODULE ReductionTrace --------------------------
(***************************************************************************)
(* Validates recorded reductions of real structured matrices by several     *)
(* processes (harness/reduction_driver.py, one log per process, merged)     *)
(* against Reduction with numbers.                                          *)
(*   conf    start of a run, t.val[p][m]: initial dense values             *)
(*   reduce  m, op, g, async, per process exc and flags                     *)
(*   wait    ms: matrices whose handles were waited for                     *)
(*   local   m, t.val[p]: value after a local operation (taken over)        *)
(* reduce, wait and local carry t.val[p][m], the values of all matrices     *)
(* afterwards (of matrices with outstanding reductions not judged).         *)
(***************************************************************************)
EXTENDS Num, TLC, Json, IOUtils
VARIABLES k, st, nbad
Trace == ndJsonDeserialize(IOEnv.TRACE)
NDiv(A, n) == MScale(RDiv(1, n), A)
Red == INSTANCE Reduction WITH Add <- MAdd, Div <- NDiv

If(c, name) == IF c THEN {name} ELSE {}
ToSet(s) == {s[i] : i \in DOMAIN s}
P == DOMAIN st.val
Common(t) == If(t.exc # "", "raises") \cup {"changed-" \o c : c \in {d \in DOMAIN t.same : ~t.same[d]}}
Report(t, bads, detail) ==
  /\ bads # {} => PrintT("@@BAD " \o ToJson([run |-> st.run, line |-> k, ev |-> t.ev, name |-> st.name, n |-> st.n, clauses |-> bads, detail |-> detail]))
  /\ nbad' = nbad + Cardinality(bads)
Close(A, B) == MClose(A, B, st.tol[1], RMul(st.tol[2], RAdd(1, MMaxAbs(B))))
\* values of matrices without outstanding reductions
Values(t, val, out) ==
  If(\E p \in P, m \in DOMAIN val[1] : m \notin out /\ ~Close(t.val[p][m], val[p][m]), "value")
Resync(t, val, out) == [p \in P |-> [m \in DOMAIN val[p] |-> IF m \in out THEN val[p][m] ELSE t.val[p][m]]]

Conf == LET t == Trace[k] IN
  /\ st' = [run |-> t.run, name |-> t.name, n |-> t.n, tol |-> t.tol, val |-> t.val, out |-> {}]
  /\ nbad' = nbad + (IF t.exc # "" THEN 1 ELSE 0)
  /\ (t.exc # "" => PrintT("@@BAD " \o ToJson([run |-> t.run, line |-> k, ev |-> "conf", name |-> t.name, n |-> t.n, clauses |-> {"raises"}, detail |-> t.exc])))
Reduce == LET t == Trace[k] IN
  IF t.exc # "" THEN Report(t, Common(t), t.exc) /\ UNCHANGED st
  ELSE LET new == Red!Apply(st.val, t.m, t.g, IF t.op = "default" THEN "avg" ELSE t.op)
           out == IF t.async THEN st.out \cup {t.m} ELSE st.out
       IN /\ Report(t, Common(t) \cup Values(t, new, out), t.text)
          /\ st' = [st EXCEPT !.val = Resync(t, new, out), !.out = out]
Wait == LET t == Trace[k] IN
  IF t.exc # "" THEN Report(t, Common(t), t.exc) /\ UNCHANGED st
  ELSE LET out == st.out \ ToSet(t.ms) IN
       /\ Report(t, Common(t) \cup Values(t, st.val, out), t.text)
       /\ st' = [st EXCEPT !.val = Resync(t, @, out), !.out = out]
Local == LET t == Trace[k] IN
  IF t.exc # "" THEN Report(t, Common(t), t.exc) /\ UNCHANGED st
  ELSE /\ Report(t, Values(t, st.val, st.out \cup {t.m}), t.text)
       /\ st' = [st EXCEPT !.val = Resync(t, @, st.out)]
Init == k = 1 /\ nbad = 0 /\ st = [run |-> 0]
Next == /\ k <= Len(Trace) /\ k' = k + 1
        /\ LET e == Trace[k].ev IN
           CASE e = "conf" -> Conf [] e = "reduce" -> Reduce [] e = "wait" -> Wait [] e = "local" -> Local
             [] e = "broken" -> Report(Trace[k], {"raises"}, Trace[k].exc) /\ UNCHANGED st
Spec == Init /\ [][Next]_<<k, st, nbad>>
View == <<k, nbad>>
Done == PrintT("@@DONE " \o ToString(TLCGet("stats").diameter - 1) \o " " \o ToString(Len(Trace)))
=============================================================================
