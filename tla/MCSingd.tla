------------------------------ MODULE MCSingd ------------------------------
(***************************************************************************)
(* Exhaustive exploration of Singd with symbolic values.                   *)
(*   - a backward pass is an id; a contribution is the set {[id, e]} where  *)
(*     2^e is the factor its output-gradient statistics carry (scales are   *)
(*     powers of two, written as exponents)                                *)
(*   - a pre-conditioner is the set of refreshes [step, what] it went       *)
(*     through, a parameter the set of its updates [step, refreshes, grads] *)
(* Ghost variables describe what the environment did: h.since, the backward *)
(* passes since the last step; h.log, for every past step the backward      *)
(* passes, the scale, whether it overflowed.  A snapshot contains h, so     *)
(* after a restore the invariants compare with the restored past.           *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC
CONSTANTS Ts,        \* set of update intervals of a group
          Scales,    \* exponents of loss scales
          InitScales,\* exponents of init_grad_scale
          MaxSteps, MaxBwd, MaxPend, MaxSnap, Mutation

VARIABLES st, h, snap, nid
vars == <<st, h, snap, nid>>

SContribution(conf, l, pre, obs, prev) == {[id |-> obs.id, e |-> 2 * obs.scale - prev]}
SAccAdd(a, c) == a \cup c
SRefresh(conf, l, pre, acc, t, prev, cur) ==
  pre \cup {[step |-> t, what |-> {[id |-> x.id, e |-> x.e + prev - 2 * cur] : x \in acc}]}
SUpdate(conf, l, pre, par, mom, grad, cur) ==
  [par |-> par \cup {[step |-> conf.now, ref |-> {r.step : r \in pre}, e |-> grad.e - cur, ids |-> grad.ids]}, mom |-> mom]

S == INSTANCE Singd WITH None <- {}, Contribution <- SContribution, AccAdd <- SAccAdd, Refresh <- SRefresh, Update <- SUpdate

NoSnap == [st |-> <<>>, h |-> <<>>]
Init ==
  /\ \E t1, t2 \in Ts, i \in InitScales :
       st = S!InitState([layers |-> <<[group |-> 1], [group |-> 2]>>, groups |-> <<[T |-> t1], [T |-> t2]>>, now |-> 0],
                        i, [l \in 1..2 |-> {}], [l \in 1..2 |-> {}], [l \in 1..2 |-> {}])
  /\ h = [since |-> {}, log |-> <<>>, scale |-> "none", on |-> {}]
  /\ snap = NoSnap /\ nid = 1

Now(s) == [s EXCEPT !.conf.now = s.steps]

Forward(g) ==
  /\ Cardinality(DOMAIN st.pend) < MaxPend /\ nid <= MaxBwd * MaxSteps
  /\ Cardinality(h.since) < MaxBwd
  /\ st' = S!Forward(st, nid, IF g THEN 1..2 ELSE {}) /\ nid' = nid + 1 /\ UNCHANGED snap
  /\ h' = IF g THEN [h EXCEPT !.on = @ \cup {nid}] ELSE h
DropF == \E id \in DOMAIN st.pend : st' = S!Drop(st, id) /\ UNCHANGED <<h, snap, nid>>
\* the loss scale of a step is fixed by its first backward pass
Backward == \E id \in DOMAIN st.pend, sc \in Scales :
  /\ Cardinality(h.since) < MaxBwd
  /\ h.scale \in {"none", ToString(sc)}
  /\ LET o == [l \in 1..2 |-> [id |-> id, scale |-> sc]]
         n == S!Backward(st, id, o, FALSE)
     IN st' = IF Mutation = "count-twice" /\ st.acc[1] # {}
              THEN [n EXCEPT !.acc[1] = @ \cup {[id |-> id + 1000, e |-> 0]}] ELSE n
  /\ h' = [h EXCEPT !.since = @ \cup {id}, !.scale = ToString(sc)]
  /\ UNCHANGED <<snap, nid>>
CurScale == CHOOSE sc \in Scales : h.scale = ToString(sc)
Announce == /\ h.scale # "none" /\ st.steps \notin DOMAIN st.scales
            /\ st' = S!Announce(st, CurScale) /\ UNCHANGED <<h, snap, nid>>
LogStep(inf) == h' = [since |-> {}, scale |-> "none", on |-> {},
                      log |-> Append(h.log, [ids |-> h.since, on |-> h.since \cap h.on, inf |-> inf, scale |-> CurScale])]
Step == /\ st.steps < MaxSteps /\ h.since # {} /\ DOMAIN st.pend = {} /\ S!CanStep(st)
        /\ LET g == [l \in 1..2 |-> [e |-> CurScale, ids |-> h.since]]
               n == S!Step(Now(st), CurScale, g)
           IN st' = CASE Mutation = "no-pop" -> [n EXCEPT !.acc = st.acc]
                      [] Mutation = "keep-scales" -> [n EXCEPT !.scales = (st.steps :> CurScale) @@ st.scales]
                      [] Mutation = "wrong-scale" -> S!Step(Now(st), 0, g)
                      [] Mutation = "always-refresh" -> [n EXCEPT !.pre[1] = @ \cup {[step |-> st.steps, what |-> {}]}]
                      [] OTHER -> n
        /\ LogStep(FALSE) /\ UNCHANGED <<snap, nid>>
StepInf == /\ st.steps < MaxSteps /\ h.since # {} /\ DOMAIN st.pend = {}
           /\ LET n == S!StepInf(st, CurScale)
              IN st' = CASE Mutation = "inf-keeps" -> [n EXCEPT !.acc = st.acc]
                         [] Mutation = "inf-no-count" -> [n EXCEPT !.steps = st.steps]
                         [] OTHER -> n
           /\ LogStep(TRUE) /\ UNCHANGED <<snap, nid>>
Save == /\ Cardinality({x \in {snap} : x # NoSnap}) < MaxSnap
        /\ snap' = [st |-> IF Mutation = "save-no-acc" THEN [S!Snapshot(st) EXCEPT !.acc = [l \in 1..2 |-> {}]]
                           ELSE S!Snapshot(st), h |-> h]
        /\ UNCHANGED <<st, h, nid>>
Restore == /\ snap # NoSnap /\ DOMAIN st.pend = {} /\ st' = S!Restore(st, snap.st) /\ h' = snap.h /\ UNCHANGED <<snap, nid>>

Next == Forward(TRUE) \/ Forward(FALSE) \/ DropF \/ Backward \/ Announce \/ Step \/ StepInf \/ Save \/ Restore
Spec == Init /\ [][Next]_vars

----------------------------------------------------------------------------
Ls == 1..2
T(l) == st.conf.groups[l].T
\* C04: refreshes happen exactly at due steps that did not overflow ...
RefreshSteps == \A l \in Ls : {r.step : r \in st.pre[l]} =
   {t \in 0..(st.steps - 1) : t % T(l) = 0 /\ ~h.log[t + 1].inf}
\* ... from exactly the backward passes of that step whose forward pass recorded gradients
OnlyOwnStep == \A l \in Ls : \A r \in st.pre[l] :
   /\ {x.id : x \in r.what} = h.log[r.step + 1].on
   /\ Cardinality({x.id : x \in r.what}) = Cardinality(r.what)
   /\ r.what # {}
\* pending statistics belong to the current step
PendingOwn == \A l \in Ls : {x.id : x \in st.acc[l]} = IF S!Due(st, l) THEN h.since \cap h.on ELSE {}
\* nothing is pending right after a step (C04, C06, C18)
Flushed == h.since = {} => \A l \in Ls : st.acc[l] = {}
NotDueNoAcc == \A l \in Ls : ~S!Due(st, l) => st.acc[l] = {}
\* C05: all statistics and gradients are used without their scale
Unscaled == \A l \in Ls :
   /\ \A r \in st.pre[l] : \A x \in r.what : x.e = 0
   /\ \A u \in st.par[l] : u.e = 0
\* C06: an overflowed step leaves nothing
NoResidue == \A l \in Ls : \A t \in 1..Len(h.log) : h.log[t].inf =>
   /\ \A r \in st.pre[l] : r.step # t - 1 /\ {x.id : x \in r.what} \cap h.log[t].ids = {}
   /\ \A u \in st.par[l] : u.step # t - 1
\* C02/C08: every regular step updates every parameter once, with the freshest pre-conditioner
UpdateOnce == \A l \in Ls :
   /\ {u.step : u \in st.par[l]} = {t \in 0..(st.steps - 1) : ~h.log[t + 1].inf}
   /\ Cardinality(st.par[l]) = Cardinality({u.step : u \in st.par[l]})
   /\ \A u \in st.par[l] : /\ u.ids = h.log[u.step + 1].ids
                           /\ u.ref = {t \in 0..u.step : t % T(l) = 0 /\ ~h.log[t + 1].inf}
\* C18
Bounded == Cardinality(DOMAIN st.scales) <= 2 /\ (h.since = {} => Cardinality(DOMAIN st.scales) = 1)
Counted == st.steps = Len(h.log)
=============================================================================
