------------------------------- MODULE Singd -------------------------------
(***************************************************************************)
(* The optimizer as a state machine.  One action per externally visible     *)
(* operation: forward pass, backward pass, dropping a forward pass that is  *)
(* never differentiated, announcing a gradient scale, step, overflow step,  *)
(* changing a hyper-parameter, saving and restoring a snapshot.             *)
(*                                                                         *)
(* The state is one record st:                                             *)
(*   conf    layers (each with its group) and groups (hyper-parameters)    *)
(*   steps   number of steps taken                                         *)
(*   scales  gradient scales of the steps that are still needed            *)
(*   acc     per layer: accumulated curvature statistics, None if none     *)
(*   pre     per layer: pre-conditioner and its momenta                    *)
(*   par     per layer: parameters                                         *)
(*   mom     per layer: parameter momenta                                  *)
(*   pend    forward passes that can still be differentiated: id |-> layers*)
(*           on whose outputs a hook sits                                  *)
(*                                                                         *)
(* What the curvature, a refresh and a parameter update compute is left to *)
(* the operator constants, so that the same module is explored with        *)
(* symbolic values (MCSingd) and with numbers (SingdTrace).                *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC
CONSTANTS
  None,                        \* the empty accumulator
  Contribution(_, _, _, _, _), \* conf, layer, pre, observation, previous scale
  AccAdd(_, _),                \* accumulator (never None), contribution
  Refresh(_, _, _, _, _, _, _),\* conf, layer, pre, accumulator, step, previous scale, scale
  Update(_, _, _, _, _, _, _)  \* conf, layer, pre, par, mom, gradient, scale: [par, mom]

Layers(st) == DOMAIN st.conf.layers
Group(st, l) == st.conf.groups[st.conf.layers[l].group]
Due(st, l) == st.steps % Group(st, l).T = 0

InitState(conf, initScale, pre, par, mom) ==
  [conf |-> conf, steps |-> 0, scales |-> (-1 :> initScale), acc |-> [l \in DOMAIN conf.layers |-> None],
   pre |-> pre, par |-> par, mom |-> mom, pend |-> <<>>]

(* ---- forward: hooks are installed only for layers that are due -------- *)
\* on: the layers whose outputs can be differentiated
Forward(st, id, on) ==
  [st EXCEPT !.pend = (id :> {l \in on : Due(st, l)}) @@ @]

Remove(f, id) == [i \in DOMAIN f \ {id} |-> f[i]]
Drop(st, id) == [st EXCEPT !.pend = Remove(@, id)]

(* ---- backward: every hooked layer contributes its statistics ---------- *)
(* keep: the forward pass can be differentiated once more                   *)
CanBackward(st, id) == id \in DOMAIN st.pend
AddTo(a, c) == IF a = None THEN c ELSE AccAdd(a, c)
Backward(st, id, obs, keep) ==
  LET prev == st.scales[st.steps - 1]
      new == [l \in Layers(st) |->
                IF l \in st.pend[id] THEN AddTo(st.acc[l], Contribution(st.conf, l, st.pre[l], obs[l], prev))
                ELSE st.acc[l]]
  IN [st EXCEPT !.acc = TLCEval(new), !.pend = IF keep THEN @ ELSE Remove(@, id)]

(* ---- gradient scales -------------------------------------------------- *)
Announce(st, s) == [st EXCEPT !.scales = (st.steps :> s) @@ @]
EffScale(st, s) == IF st.steps \in DOMAIN st.scales THEN st.scales[st.steps] ELSE s
KeepScales(sc, t) == [u \in {v \in DOMAIN sc : v >= t - 1} |-> sc[u]]
NextScales(st, s) == KeepScales((st.steps :> EffScale(st, s)) @@ st.scales, st.steps + 1)

(* ---- step ------------------------------------------------------------- *)
\* well-formed use: statistics are there when a refresh is due
CanStep(st) == \A l \in Layers(st) : Due(st, l) => st.acc[l] # None
\* refresh the layers that are due and use their statistics up
RefreshAll(st, s) ==
  [st EXCEPT !.pre = TLCEval([l \in Layers(st) |->
                       IF Due(st, l)
                       THEN Refresh(st.conf, l, st.pre[l], st.acc[l], st.steps, st.scales[st.steps - 1], EffScale(st, s))
                       ELSE st.pre[l]]),
             !.acc = [l \in Layers(st) |-> IF Due(st, l) THEN None ELSE @[l]]]
UpdateAll(st, s, grads) ==
  LET upd == TLCEval([l \in Layers(st) |->
               Update(st.conf, l, st.pre[l], st.par[l], st.mom[l], grads[l], EffScale(st, s))])
  IN [st EXCEPT !.par = [l \in Layers(st) |-> upd[l].par], !.mom = [l \in Layers(st) |-> upd[l].mom]]
EndStep(st, s) == [st EXCEPT !.scales = NextScales(st, s), !.steps = @ + 1]
Step(st, s, grads) == EndStep(UpdateAll(RefreshAll(st, s), s, grads), s)

(* ---- step with non-finite gradients: skipped, statistics discarded ----- *)
StepInf(st, s) == EndStep([st EXCEPT !.acc = [l \in Layers(st) |-> None]], s)

(* ---- hyper-parameters, snapshots -------------------------------------- *)
SetHyper(st, g, k, v) == [st EXCEPT !.conf.groups[g] = [@ EXCEPT ![k] = v]]
\* a snapshot holds everything but the forward passes in flight
Snapshot(st) == [st EXCEPT !.pend = <<>>]
Restore(st, snap) == snap
=============================================================================
