---------------------------- MODULE SingdTrace ----------------------------
(***************************************************************************)
(* Validates recorded training runs of the real optimizer against Singd     *)
(* with the numeric Recursion.  Every line of the trace is consumed; what a *)
(* line gets wrong is reported as @@BAD with the failing clauses, and        *)
(* validation goes on from the observed state.                              *)
(*                                                                         *)
(* Every event carries `same`, a record of comparisons that have to be TRUE *)
(* (bitwise, made by the driver): state untouched, outputs, gradients and    *)
(* inputs as in the twin model without optimizer, ...; and exc, the          *)
(* exception raised ("" if none).                                           *)
(***************************************************************************)
EXTENDS Recursion, TLC, Json, IOUtils
VARIABLES k, st, x, nbad
vars == <<k, st, x, nbad>>

S == INSTANCE Singd WITH None <- <<>>, Contribution <- Contribution, AccAdd <- AccAdd, Refresh <- Refresh, Update <- Update

Trace == ndJsonDeserialize(IOEnv.TRACE)
Init == k = 1 /\ st = <<>> /\ x = [run |-> 0, blown |-> FALSE] /\ nbad = 0

If(c, name) == IF c THEN {name} ELSE {}
Report(bads, detail) ==
  /\ bads # {} => PrintT("@@BAD " \o ToJson([run |-> x.run, line |-> k, ev |-> Trace[k].ev, clauses |-> bads, detail |-> detail]))
  /\ nbad' = nbad + Cardinality(bads)
Common(t) == If(t.exc # "", "raises") \cup {"changed-" \o c : c \in {d \in DOMAIN t.same : ~t.same[d]}}
OK(t) == t.exc = ""

Ls == DOMAIN st.conf.layers
Obs(t, l) == t.after[l][1]
Exact(A, B) == MClose(A, B, "0", "0")

\* ---- start of a run -----------------------------------------------------
\* the KFAC-like variant has no Riemannian momentum
Resolve(conf) == [conf EXCEPT !.groups = [g \in DOMAIN conf.groups |->
                    IF conf.groups[g].like THEN [conf.groups[g] EXCEPT !.alpha1 = "0"] ELSE conf.groups[g]]]
Conf ==
  LET t == Trace[k]
      conf == Resolve(t.conf)
      L == DOMAIN conf.layers
      dC(l) == Len(t.par[l])  dK(l) == Len(t.par[l][1])
      pre == [l \in L |-> [K |-> MEye(dK(l)), C |-> MEye(dC(l)), mK |-> MZero(dK(l), dK(l)), mC |-> MZero(dC(l), dC(l))]]
      mom == [l \in L |-> MZero(dC(l), dK(l))]
      good == OK(t) /\ t.after # <<>>
      bads == Common(t) \cup
              If(good /\ \E l \in L : \E r \in DOMAIN t.after[l] : LET o == t.after[l][r] IN
                   ~Exact(o.K, pre[l].K) \/ ~Exact(o.C, pre[l].C) \/ ~Exact(o.mK, pre[l].mK) \/ ~Exact(o.mC, pre[l].mC)
                   \/ ~Exact(o.par, t.par[l]) \/ ~Exact(o.mom, mom[l]), "init")
  IN /\ st' = S!InitState(conf, t.initscale, pre, t.par, mom)
     /\ x' = [run |-> t.run, tol |-> t.tol, snaps |-> <<>>, base |-> <<0, 0>>, hyper |-> FALSE, limit |-> t.limit, blown |-> FALSE,
              marks |-> IF t.fresh THEN <<>> ELSE x.marks]
     /\ PrintT("@@RUN " \o ToString(t.run))
     /\ (bads # {} => PrintT("@@BAD " \o ToJson([run |-> t.run, line |-> k, ev |-> "conf", clauses |-> bads, detail |-> t.exc])))
     /\ nbad' = nbad + Cardinality(bads)

\* ---- passes -------------------------------------------------------------
Plain(t, n) == st' = n /\ UNCHANGED x /\ Report(Common(t), t.exc)
Fwd == LET t == Trace[k] IN Plain(t, S!Forward(st, t.id, {l \in Ls : t.on[l]}))
Drop == LET t == Trace[k] IN Plain(t, S!Drop(st, t.id))
\* The rows in Curvature are those the layers of the model multiply their weights with.  A difference
\* is an error of the specification.
Rows(t) ==
  LET Ps == IF "probe" \in DOMAIN t THEN {l \in Ls : \E r \in DOMAIN t.obs[l] : t.obs[l][r] # <<>>} ELSE {}
      Bad(l) == LET ly == st.conf.layers[l]  us == t.obs[l][1]  pr == t.probe[l] IN
        \/ \E i \in DOMAIN us : ~OutputIs(ly, pr.W, us[i].a, us[i].o, "1e-9", "1e-10")
        \/ ~WeightGradIs(ly, us, pr.dW, "1e-9", "1e-9")
  IN If(\E l \in Ps : Bad(l), "specification-rows")
Bwd == LET t == Trace[k] IN
  /\ st' = IF OK(t) THEN S!Backward(st, t.id, [l \in Ls |-> t.obs[l]], t.keep) ELSE st
  /\ UNCHANGED x /\ Report(Common(t) \cup Rows(t), t.exc)
Zero == Plain(Trace[k], st)
Edit == LET t == Trace[k] IN Plain(t, [st EXCEPT !.par = t.par])
Announce == LET t == Trace[k] IN Plain(t, S!Announce(st, t.scale))
Hyper == LET t == Trace[k] IN
  /\ st' = S!SetHyper(st, t.g, t.k, t.v) /\ x' = [x EXCEPT !.hyper = TRUE] /\ Report(Common(t), t.exc)

\* ---- step ---------------------------------------------------------------
Max3(a, b, c) == RMax(a, RMax(b, c))
\* magnitude of the summands in K - beta K m and in the natural gradient
PreMag(gr, t, S0, m) == RMul(MMaxAbs(S0), RAdd(1, RMul(RMul(LrCov(gr, t), Len(m)), MMaxAbs(m))))
NatMag(pre, G, cur) == RMul(RMul(RMul(MMaxAbs(pre.K), MMaxAbs(pre.K)), RMul(MMaxAbs(pre.C), MMaxAbs(pre.C))),
                            RDiv(RMul(MMaxAbs(G), Len(pre.K) * Len(pre.C)), cur))
Close(A, B, mag) == MClose(A, B, x.tol[1], RMul(x.tol[2], mag))

Factors(l, e, o, due) ==
  IF ~due THEN If(~Exact(o.K, e.K) \/ ~Exact(o.C, e.C) \/ ~Exact(o.mK, e.mK) \/ ~Exact(o.mC, e.mC), "stale-refresh")
  ELSE LET gr == Grp(st.conf, l) IN
       If(~Close(o.mK, e.mK, RMax(1, MMaxAbs(e.mK))) \/ ~Close(o.mC, e.mC, RMax(1, MMaxAbs(e.mC))), "momenta")
       \cup If(~Close(o.K, e.K, PreMag(gr, st.steps, st.pre[l].K, e.mK))
               \/ ~Close(o.C, e.C, PreMag(gr, st.steps, st.pre[l].C, e.mC)), "factors")
Seen(t, l) == LET o == Obs(t, l) IN [K |-> o.K, C |-> o.C, mK |-> o.mK, mC |-> o.mC]
Replicas(t) == If(\E l \in Ls : \E r \in 2..Len(t.after[l]) :
                    \E f \in {"K", "C", "mK", "mC", "par", "mom"} : ~MClose(t.after[l][r][f], t.after[l][1][f], "1e-9", "1e-12"), "replicas")
\* nothing temporary is left (C18); base: size of the state after the first step since the last change of set-up
Grown(t) == If(t.pending # 0, "pending-statistics") \cup If(t.scales > 2, "scale-history") \cup If(t.alive # 0, "activations-alive")
            \cup If(~x.hyper /\ x.base[1] > 0 /\ (t.size[1] > x.base[1] \/ t.size[2] > x.base[2] + 4), "state-growth")
            \* a few scalars besides the factors and momenta
            \cup If(t.size[1] > t.size[3] + 8 + 4 * Cardinality(Ls), "state-extra")

Dev(t, n) == [l \in Ls |-> <<MDev(Obs(t, l).K, n.pre[l].K), MDev(Obs(t, l).C, n.pre[l].C),
                             MDev(Obs(t, l).mK, n.pre[l].mK), MDev(Obs(t, l).mC, n.pre[l].mC)>>]
\* Training may diverge.  Judging ends where the prescribed values leave the range in which the
\* data type can represent their products.
Blown(n) == \E l \in Ls : \E M \in {n.pre[l].K, n.pre[l].C, n.pre[l].mK, n.pre[l].mC, n.par[l], n.mom[l]} : LET m == MMaxAbs(M) IN RFinite(m) /\ ~RLe(m, x.limit)
RegularStep(t) ==
  LET n1 == S!RefreshAll(st, t.scale)
      n2 == [n1 EXCEPT !.pre = [l \in Ls |-> Seen(t, l)]]
      n3 == S!UpdateAll(n2, t.scale, t.grads)
      cur == S!EffScale(st, t.scale)
      mag(l) == RAdd(RAdd(1, MMaxAbs(st.mom[l])), NatMag(n2.pre[l], t.grads[l][1], cur))
      blown == Blown(n1) \/ Blown(n3)
      bads == IF blown THEN {} ELSE Common(t)
        \cup UNION {Factors(l, n1.pre[l], Seen(t, l), S!Due(st, l)) : l \in Ls}
        \cup If(\E l \in Ls : ~Close(Obs(t, l).par, n3.par[l], RMax(RMul(Grp(st.conf, l).lr, mag(l)), MMaxAbs(st.par[l]))), "parameters")
        \cup If(\E l \in Ls : ~Close(Obs(t, l).mom, n3.mom[l], mag(l)), "momentum")
        \cup If(t.steps # st.steps + 1, "step-count")
        \cup If(t.warned, "spurious-warning")
        \cup Replicas(t) \cup Grown(t)
      n4 == [S!EndStep(n3, t.scale) EXCEPT !.par = [l \in Ls |-> Obs(t, l).par], !.mom = [l \in Ls |-> Obs(t, l).mom]]
  IN /\ Report(bads, [dev |-> Dev(t, n1), pdev |-> [l \in Ls |-> MDev(Obs(t, l).par, n3.par[l])], step |-> st.steps])
     /\ st' = n4
     /\ x' = [x EXCEPT !.base = IF x.hyper \/ x.base[1] = 0 THEN t.size ELSE @, !.hyper = FALSE, !.blown = blown]
InfStep(t) ==
  LET n == S!StepInf(st, t.scale)
      bads == Common(t)
        \cup If(\E l \in Ls : ~Exact(Obs(t, l).K, st.pre[l].K) \/ ~Exact(Obs(t, l).C, st.pre[l].C)
                              \/ ~Exact(Obs(t, l).mK, st.pre[l].mK) \/ ~Exact(Obs(t, l).mC, st.pre[l].mC)
                              \/ ~Exact(Obs(t, l).par, st.par[l]) \/ ~Exact(Obs(t, l).mom, st.mom[l]), "inf-step-changes")
        \cup If(t.steps # st.steps + 1, "step-count")
        \cup If(~t.warned, "missing-warning")
        \cup Replicas(t) \cup Grown(t)
  IN Report(bads, [step |-> st.steps]) /\ st' = n /\ UNCHANGED x
Step ==
  LET t == Trace[k] IN
  IF ~OK(t) THEN Report(Common(t), t.exc) /\ UNCHANGED <<st, x>>
  ELSE IF ~t.inf /\ ~S!CanStep(st) THEN Report({"generator"}, "") /\ UNCHANGED <<st, x>>
  ELSE IF t.inf THEN InfStep(t) ELSE RegularStep(t)

\* ---- snapshots ----------------------------------------------------------
Save == LET t == Trace[k] IN
  /\ x' = [x EXCEPT !.snaps = (t.slot :> S!Snapshot(st)) @@ @]
  /\ UNCHANGED st /\ Report(Common(t), t.exc)
SameHyper(a, b) == /\ \A f \in {"lr", "momentum", "damping", "alpha1", "wd"} : RClose(a[f], b[f], "0", "0")
                   /\ \A f \in {"T", "la", "approx", "like", "norm", "sK", "sC"} : a[f] = b[f]
                   /\ Len(a.lrcov) = Len(b.lrcov) /\ \A i \in DOMAIN a.lrcov : RClose(a.lrcov[i], b.lrcov[i], "0", "0")
Load == LET t == Trace[k] IN
  IF ~OK(t) THEN Report(Common(t), t.exc) /\ UNCHANGED <<st, x>> ELSE
  LET n == S!Restore(st, x.snaps[t.slot])
      bads == Common(t)
        \cup If(\E l \in Ls : \E f \in {"K", "C", "mK", "mC"} : ~Exact(Obs(t, l)[f], n.pre[l][f]), "restored-preconditioner")
        \cup If(\E l \in Ls : ~Exact(Obs(t, l).par, n.par[l]) \/ ~Exact(Obs(t, l).mom, n.mom[l]), "restored-parameters")
        \cup If(t.steps # n.steps, "restored-steps")
        \cup If(\E i \in DOMAIN t.hyper : ~SameHyper(t.hyper[i].h, n.conf.groups[t.hyper[i].g]), "restored-hyper-parameters")
  IN /\ st' = n /\ x' = [x EXCEPT !.hyper = TRUE] /\ Report(bads, [step |-> t.steps])

\* ---- relations between runs ---------------------------------------------
Mark == LET t == Trace[k] IN
  /\ x' = [x EXCEPT !.marks = (t.key :> [pre |-> st.pre, par |-> st.par, mom |-> st.mom]) @@ @]
  /\ UNCHANGED st /\ Report(Common(t), t.exc)
Cmp == LET t == Trace[k] IN
  \* the other run failed, which was reported there
  IF t.key \notin DOMAIN x.marks THEN Report(Common(t), "") /\ UNCHANGED <<st, x>> ELSE
       LET m == x.marks[t.key]
           C(A, B) == MClose(A, B, t.tol[1], RMul(t.tol[2], RAdd(1, MMaxAbs(B))))
           bads == Common(t)
             \cup If(\E l \in Ls : \E f \in {"K", "C", "mK", "mC"} : ~C(st.pre[l][f], m.pre[l][f]), "differs-preconditioner")
             \cup If(\E l \in Ls : ~C(st.par[l], m.par[l]) \/ ~C(st.mom[l], m.mom[l]), "differs-parameters")
       IN /\ Report(bads, [key |-> t.key, dev |-> [l \in Ls |-> <<MDev(st.pre[l].K, m.pre[l].K), MDev(st.pre[l].C, m.pre[l].C), MDev(st.par[l], m.par[l])>>]])
          /\ UNCHANGED <<st, x>>

Next ==
  /\ k <= Len(Trace) /\ k' = k + 1
  /\ LET e == Trace[k].ev IN
     CASE e = "conf" -> Conf
       [] x.blown -> UNCHANGED <<st, x, nbad>>
       [] e = "fwd" -> Fwd
       [] e = "drop" -> Drop
       [] e = "bwd" -> Bwd
       [] e = "zero" -> Zero
       [] e = "announce" -> Announce
       [] e = "edit" -> Edit
       [] e = "hyper" -> Hyper
       [] e = "step" -> Step
       [] e = "save" -> Save
       [] e = "load" -> Load
       [] e = "mark" -> Mark
       [] e = "cmp" -> Cmp
       [] e = "broken" -> Report({"raises"}, Trace[k].exc) /\ UNCHANGED <<st, x>>
Spec == Init /\ [][Next]_vars
View == <<k, nbad>>
Done == PrintT("@@DONE " \o ToString(TLCGet("stats").diameter - 1) \o " " \o ToString(Len(Trace)))
=============================================================================
