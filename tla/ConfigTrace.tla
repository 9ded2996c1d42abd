---------------------------- MODULE ConfigTrace ----------------------------
(* Validates recorded constructions (harness/config_driver.py) against Config. *)
EXTENDS Config, Json, IOUtils
VARIABLES k, nbad
Trace == ndJsonDeserialize(IOEnv.TRACE)

If(b, name) == IF b THEN {name} ELSE {}
ToSet(s) == {s[i] : i \in DOMAIN s}
\* the assignment comes as a sequence of records
Read(x) == [x EXCEPT !.assign = [p \in {<<r.l, r.p>> : r \in ToSet(x.assign)} |->
              (CHOOSE r \in ToSet(x.assign) : <<r.l, r.p>> = p).g]]
LrOf(c, p) == Eff(c, GroupOf(c, p), "lr")

Verdict(t) ==
  LET c == Read(t.c) IN
  IF ~Accepts(c) THEN If(t.exc = "", "accepted-invalid") \cup If(t.exc # "" /\ t.exc \notin Errors(c), "wrong-error")
  ELSE IF t.exc # "" THEN {"rejected-valid"}
  ELSE If(t.like # Cardinality(Overruled(c)), "kfac-like-warning")
       \cup If(\E g \in Groups(c) : g \in Overruled(c) /\ t.alpha[g] # "0.0", "alpha1-not-zeroed")
       \cup If(\E g \in Groups(c) : g \notin Overruled(c) /\ ~t.alphakept[g], "alpha1-changed")
       \cup If(ToSet(t.warned) # Unsupported(c), "unsupported-warning")
       \cup If(t.stepped /\ t.stepexc # "", "step-raises")
       \cup If(t.stepped /\ t.stepexc = "" /\ ToSet(t.changed) # {p \in Trained(c) : LrOf(c, p) \notin Zero}, "trained-set")
       \cup If(t.stepped /\ t.stepexc = "" /\ (t.closure # "NotImplementedError" \/ ~t.closurekept), "closure")

Init == k = 1 /\ nbad = 0
Next == /\ k <= Len(Trace) /\ k' = k + 1
        /\ LET t == Trace[k]  b == Verdict(t) IN
           /\ b # {} => PrintT("@@BAD " \o ToJson([run |-> t.run, line |-> k, ev |-> "construct", clauses |-> b, detail |-> t]))
           /\ nbad' = nbad + Cardinality(b)
Spec == Init /\ [][Next]_<<k, nbad>>
Done == PrintT("@@DONE " \o ToString(TLCGet("stats").diameter - 1) \o " " \o ToString(Len(Trace)))
=============================================================================
