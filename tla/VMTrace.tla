------------------------------ MODULE VMTrace ------------------------------
(***************************************************************************)
(* Validates executions of real structured-matrix programs against         *)
(* StructVM.  Every line of the trace is consumed; a line that the          *)
(* specification does not allow is reported as @@BAD with the clause that   *)
(* fails, and validation goes on from the observed state.                   *)
(***************************************************************************)
EXTENDS StructVM, TLC, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES l, st, nbad
vars == <<l, st, nbad>>
Init == l = 1 /\ st = [run |-> 0] /\ nbad = 0

Report(c) == PrintT("@@BAD " \o ToJson(c))

Conf == /\ Trace[l].ev = "conf"
        /\ st' = [run |-> Trace[l].run, s |-> StructOf(Trace[l].name), name |-> Trace[l].name, n |-> Trace[l].n,
                  rtol |-> Trace[l].rtol, arel |-> Trace[l].arel, half |-> Trace[l].half,
                  regs |-> [i \in 1..Trace[l].nreg |-> <<>>]]
        /\ nbad' = nbad

OneOf(x, y) == IF x THEN y ELSE {}

Op ==
  /\ Trace[l].ev = "op"
  /\ LET t == Trace[l]
         e == t.e
         x == Result(e, st.regs, st.s, st.n)
         atol == RMul(st.arel, Mag(e, st.regs, st.n))
         tgt == Target(e)
         good == t.exc = ""
         bads ==
           OneOf(~good, {"raises"})
           \cup OneOf(good /\ ~MClose(t.res, x, st.rtol, atol), {"value"})
           \cup OneOf(good /\ tgt # 0 /\ ~Member(st.s, t.res), {"member"})
           \cup OneOf(good /\ \E i \in 1..Len(t.changed) : t.changed[i] # tgt, {"other-register"})
           \cup OneOf(~t.xsame, {"dense-operand"})
           \cup OneOf(good /\ e.op \in InPlaceOps /\ ~t.same, {"identity"})
           \cup OneOf(good /\ ~t.typed, {"type"})
     IN
     /\ (bads # {} => Report([run |-> st.run, line |-> l, clauses |-> bads, op |-> e.op, name |-> st.name,
                                n |-> st.n, dev |-> IF good THEN MDev(t.res, x) ELSE t.exc]))
     /\ nbad' = nbad + Cardinality(bads)
     /\ st' = IF good /\ tgt # 0 THEN [st EXCEPT !.regs[tgt] = t.res] ELSE st

Next == l <= Len(Trace) /\ l' = l + 1 /\ (Conf \/ Op)
Spec == Init /\ [][Next]_vars
View == <<l, nbad>>
Done == PrintT("@@DONE " \o ToString(TLCGet("stats").diameter - 1) \o " " \o ToString(Len(Trace)))
=============================================================================
