----------------------------- MODULE SingdGen -----------------------------
(***************************************************************************)
(* Generates configurations and schedules: TLC simulates this specification *)
(* and writes every finished behaviour as one JSON line, which the driver   *)
(* executes on the real optimizer.  First the configuration is chosen field *)
(* by field from the options in OPTS, then events follow the actions of     *)
(* Singd with symbolic statistics, so only well-formed schedules are made.  *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils
CONSTANTS OutFile
VARIABLES pc, todo, conf, st, ev, c
vars == <<pc, todo, conf, st, ev, c>>

Opt == JsonDeserialize(IOEnv.OPTS)
Elems(s) == {s[i] : i \in DOMAIN s}

S == INSTANCE Singd WITH None <- {}, Contribution <- LAMBDA cf, l, pre, obs, prev : {obs},
       AccAdd <- LAMBDA a, b : a \cup b, Refresh <- LAMBDA cf, l, pre, acc, t, prev, cur : pre,
       Update <- LAMBDA cf, l, pre, par, mom, grad, cur : [par |-> par, mom |-> mom]

\* ---- configuration ------------------------------------------------------
\* todo: sequence of <<scope, index, field>>; conf: scope |-> index |-> field |-> value
Top == [i \in DOMAIN Opt.topfields |-> <<"top", 1, Opt.topfields[i]>>]
NL(a) == Opt.nlayers[a]
LayerTodo(a) == [i \in 1..(NL(a) * Len(Opt.layerfields)) |->
                  <<"layer", ((i - 1) \div Len(Opt.layerfields)) + 1, Opt.layerfields[((i - 1) % Len(Opt.layerfields)) + 1]>>]
GroupTodo(n) == [i \in 1..(n * Len(Opt.groupfields)) |->
                  <<"group", ((i - 1) \div Len(Opt.groupfields)) + 1, Opt.groupfields[((i - 1) % Len(Opt.groupfields)) + 1]>>]
Empty == [x |-> 0]
Init == /\ pc = "conf" /\ todo = Top /\ ev = <<>> /\ st = <<>>
        /\ conf = [top |-> Empty, layer |-> [i \in 1..12 |-> Empty], group |-> [i \in 1..3 |-> Empty]]
        /\ c = <<>>

\* conf.top.vary = f: the groups differ in field f only ("all": in any field)
Values(t) ==
  LET all == Elems(Opt.options[t[3]]) IN
  IF t[1] = "layer" /\ t[3] = "group" THEN 0..conf.top.ngroups
  ELSE IF t[1] # "group" \/ t[2] = 1 \/ conf.top.vary = "all" THEN all
  ELSE LET v == conf.group[1][t[3]] IN IF t[3] # conf.top.vary \/ all = {v} THEN {v} ELSE all \ {v}
Choose ==
  /\ pc = "conf" /\ todo # <<>>
  /\ LET t == Head(todo) IN
     \E v \in Values(t) :
       /\ conf' = IF t[1] = "top" THEN [conf EXCEPT !.top = (t[3] :> v) @@ @]
                  ELSE [conf EXCEPT ![t[1]][t[2]] = (t[3] :> v) @@ @]
       /\ todo' = Tail(todo)
  /\ UNCHANGED <<pc, st, ev, c>>
MoreTodo == /\ pc = "conf" /\ todo = <<>>
            /\ todo' = LayerTodo(conf.top.arch) \o GroupTodo(conf.top.ngroups)
            /\ pc' = "conf2" /\ UNCHANGED <<conf, st, ev, c>>
Choose2 == /\ pc = "conf2" /\ todo # <<>>
           /\ LET t == Head(todo) IN \E v \in Values(t) :
                /\ conf' = [conf EXCEPT ![t[1]][t[2]] = (t[3] :> v) @@ @]
                /\ todo' = Tail(todo)
           /\ UNCHANGED <<pc, st, ev, c>>
\* layers that are listed in a group; at least one, else the first is put into group 1
Listed == LET L == {l \in 1..NL(conf.top.arch) : conf.layer[l].group > 0} IN IF L = {} THEN {1} ELSE L
GroupOf(l) == IF conf.layer[l].group = 0 THEN 1 ELSE conf.layer[l].group
Begin == /\ pc = "conf2" /\ todo = <<>>
         /\ st' = S!InitState([layers |-> [l \in Listed |-> [group |-> GroupOf(l)]],
                               groups |-> [g \in 1..conf.top.ngroups |-> [T |-> conf.group[g].T]]],
                              "i", [l \in Listed |-> 0], [l \in Listed |-> 0], [l \in Listed |-> 0])
         /\ c' = [n |-> 1, bwd |-> 0, scale |-> "", ga |-> FALSE, snaps |-> <<>>, inf |-> FALSE, ann |-> FALSE, born |-> <<>>, ev |-> 0]
         /\ pc' = "kind" /\ UNCHANGED <<todo, conf, ev>>

\* ---- events -------------------------------------------------------------
Emit(s) == ev' = ev \o s
Ids == DOMAIN st.pend
Live == {i \in Ids : c.born[i] = st.steps}
Clean == c.bwd = 0 /\ Ids = {}
CanEnd == c.ga /\ ~c.inf /\ S!CanStep(st)
Enabled_(kd) ==
  CASE kd \in {"train", "train2", "trainbad"} -> c.bwd < Opt.maxbwd /\ ~c.inf /\ (kd = "trainbad" => conf.top.scaling # "none")
    [] kd \in {"fwd", "nograd", "eval"} -> Cardinality(Ids) < 2 /\ c.bwd < Opt.maxbwd /\ ~c.inf
    [] kd \in {"bwd", "bwdkeep"} -> Live # {} /\ c.bwd < Opt.maxbwd /\ ~c.inf
    [] kd = "drop" -> Ids # {}
    [] kd = "step" -> CanEnd
    [] kd = "infstep" -> c.bwd > 0 /\ conf.top.scaling # "none"
    [] kd = "trainstep" -> c.bwd = 0 /\ ~c.inf
    [] kd = "zero" -> Clean /\ ~c.inf
    [] kd = "zerokeep" -> ~c.inf
    [] kd = "clip" -> c.ga /\ ~c.inf
    [] kd = "edit" -> Clean /\ ~c.inf
    [] kd = "announce" -> conf.top.scaling = "explicit"
    [] kd = "hyper" -> ~c.inf
    [] kd = "hyperT" -> Clean
    [] kd = "save" -> ~c.inf /\ Cardinality(DOMAIN c.snaps) < 2
    [] kd = "load" -> c.snaps # <<>> /\ Ids = {}
    [] OTHER -> FALSE
Kind == /\ pc = "kind" /\ Len(ev) < conf.top.length
        /\ \E kd \in Elems(Opt.kinds) : Enabled_(kd) /\ pc' = kd
        /\ UNCHANGED <<todo, conf, st, ev, c>>

Scales == IF c.scale # "" THEN {c.scale} ELSE IF conf.top.scaling = "none" THEN {"1"} ELSE Elems(Opt.scales)
FwdEv(id, mode, b) == [e |-> "fwd", id |-> id, mode |-> mode, b |-> b]
BwdEv(id, sc, keep, bad) == [e |-> "bwd", id |-> id, s |-> sc, keep |-> keep, bad |-> bad]
StepEv(inf, ann) == [e |-> "step", inf |-> inf, s |-> IF c.scale = "" THEN "1" ELSE c.scale, ann |-> ann]
AllL == S!Layers(st)
Ended(n) == [c EXCEPT !.bwd = 0, !.scale = "", !.ann = FALSE, !.inf = FALSE, !.ev = @ + 1]

Train == /\ pc \in {"train", "trainbad", "train2"}
         /\ \E b \in Elems(Opt.batches), sc \in Scales :
              LET f == S!Forward(st, c.n, AllL) IN
              /\ st' = S!Backward(f, c.n, [l \in AllL |-> c.n], FALSE)
              /\ Emit(<<FwdEv(c.n, "grad", b), BwdEv(c.n, sc, FALSE, pc = "trainbad")>>)
              /\ c' = [c EXCEPT !.n = @ + 1, !.bwd = @ + 1, !.scale = sc, !.ga = TRUE, !.inf = (pc = "trainbad")]
         /\ pc' = "kind"
Fwd == /\ pc \in {"fwd", "nograd", "eval"}
       /\ \E b \in Elems(Opt.batches) :
            /\ st' = S!Forward(st, c.n, IF pc = "nograd" THEN {} ELSE AllL)
            /\ Emit(<<FwdEv(c.n, IF pc = "fwd" THEN "grad" ELSE pc, b)>>)
       /\ c' = [c EXCEPT !.n = @ + 1, !.born = (c.n :> IF pc = "nograd" THEN -1 ELSE st.steps) @@ @]
       /\ pc' = "kind"
Bwd == /\ pc \in {"bwd", "bwdkeep"}
       /\ \E id \in Live, sc \in Scales :
            /\ st' = S!Backward(st, id, [l \in AllL |-> id], pc = "bwdkeep")
            /\ Emit(<<BwdEv(id, sc, pc = "bwdkeep", FALSE)>>)
            /\ c' = [c EXCEPT !.bwd = @ + 1, !.scale = sc, !.ga = TRUE]
       /\ pc' = "kind"
DropE == pc = "drop" /\ \E id \in Ids : st' = S!Drop(st, id) /\ Emit(<<[e |-> "drop", id |-> id]>>) /\ pc' = "kind" /\ UNCHANGED c
Zeroes == IF Opt.zero = "always" THEN {TRUE} ELSE BOOLEAN
ZeroEv(none) == [e |-> "zero", none |-> none]
Step == /\ pc = "step"
        /\ \E z \in Zeroes, none \in BOOLEAN :
             /\ Emit(<<StepEv(FALSE, c.ann)>> \o IF z THEN <<ZeroEv(none)>> ELSE <<>>)
             /\ c' = [Ended(1) EXCEPT !.ga = ~z \/ ~none]
        /\ st' = S!Step(st, c.scale, [l \in AllL |-> 0])
        /\ pc' = "kind"
TrainStep ==
  /\ pc = "trainstep"
  /\ \E b \in Elems(Opt.batches), sc \in Scales :
       LET f == S!Forward(st, c.n, AllL)
           g == S!Backward(f, c.n, [l \in AllL |-> c.n], FALSE) IN
       /\ st' = S!Step(g, sc, [l \in AllL |-> 0])
       /\ Emit(<<FwdEv(c.n, "grad", b), BwdEv(c.n, sc, FALSE, FALSE),
                 [StepEv(FALSE, c.ann) EXCEPT !.s = sc], ZeroEv(TRUE)>>)
  /\ c' = [Ended(1) EXCEPT !.n = @ + 1, !.ga = FALSE]
  /\ pc' = "kind"
InfStep == /\ pc = "infstep"
           /\ Emit(<<StepEv(TRUE, c.ann), ZeroEv(TRUE)>>)
           /\ c' = [Ended(1) EXCEPT !.ga = FALSE]
           /\ st' = S!StepInf(st, c.scale)
           /\ pc' = "kind"
Zero == /\ pc \in {"zero", "zerokeep"}
        /\ Emit(<<ZeroEv(pc = "zero")>>)
        /\ c' = IF pc = "zero" THEN [c EXCEPT !.ga = FALSE] ELSE c
        /\ pc' = "kind" /\ UNCHANGED st
\* gradients or parameters are changed from outside
Outside == pc \in {"clip", "edit"} /\ Emit(<<[e |-> pc]>>) /\ pc' = "kind" /\ UNCHANGED <<st, c>>
Announce == /\ pc = "announce"
            \* the last announcement counts; it can change until a loss was scaled
            /\ \E sc \in (IF c.bwd = 0 THEN Elems(Opt.scales) ELSE Scales) :
                 /\ Emit(<<[e |-> "announce", s |-> sc]>>)
                 /\ st' = S!Announce(st, sc) /\ c' = [c EXCEPT !.ann = TRUE, !.scale = sc]
            /\ pc' = "kind"
HyperE == /\ pc = "hyper"
          /\ \E g \in 1..conf.top.ngroups, h \in Elems(Opt.hyper) : \E v \in Elems(h[2]) :
               \* a parameter momentum or Riemannian momentum is not switched on or off during training
               /\ (h[1] \in {"momentum", "alpha1"} => conf.group[g][h[1]] # "0" /\ v # "0" /\ ~conf.group[g].like)
               /\ Emit(<<[e |-> "hyper", g |-> g, k |-> h[1], v |-> v]>>)
          /\ pc' = "kind" /\ UNCHANGED <<st, c>>
HyperSkip == pc = "hyper" /\ pc' = "kind" /\ UNCHANGED <<st, c, ev>>
HyperT == /\ pc = "hyperT"
          /\ \E g \in 1..conf.top.ngroups, v \in Elems(Opt.options.T) :
               Emit(<<[e |-> "hyper", g |-> g, k |-> "T", v |-> v]>>) /\ st' = S!SetHyper(st, g, "T", v)
          /\ pc' = "kind" /\ UNCHANGED c
Save == /\ pc = "save"
        /\ \E how \in {"ser", "mem"} :
             /\ Emit(<<[e |-> "save", slot |-> Cardinality(DOMAIN c.snaps) + 1, how |-> how]>>)
             /\ c' = [c EXCEPT !.snaps = (Cardinality(DOMAIN c.snaps) + 1 :> [st |-> S!Snapshot(st), c |-> [c EXCEPT !.snaps = <<>>]]) @@ @]
        /\ pc' = "kind" /\ UNCHANGED st
Load == /\ pc = "load"
        /\ \E s \in DOMAIN c.snaps, how \in {"fresh", "running"} :
             /\ Emit(<<[e |-> "load", slot |-> s, how |-> how]>>)
             /\ st' = S!Restore(st, c.snaps[s].st)
             /\ c' = [c.snaps[s].c EXCEPT !.n = c.n, !.snaps = c.snaps, !.born = c.born]
        /\ pc' = "kind"

Write(y) == Serialize(ToJson(y) \o "\n", OutFile,
              [format |-> "TXT", charset |-> "UTF-8", openOptions |-> <<"WRITE", "CREATE", "APPEND">>]).exitValue = 0
Finish == /\ pc = "kind" /\ Len(ev) >= conf.top.length
          /\ Write([top |-> conf.top, layers |-> [l \in 1..NL(conf.top.arch) |-> [group |-> IF l \in Listed THEN GroupOf(l) ELSE 0, list |-> conf.layer[l].list]],
                    groups |-> [g \in 1..conf.top.ngroups |-> conf.group[g]], ev |-> ev])
          /\ pc' = "done" /\ UNCHANGED <<todo, conf, st, ev, c>>
Next == \/ Choose \/ MoreTodo \/ Choose2 \/ Begin \/ Kind \/ Finish
        \/ (Train \/ Fwd \/ Bwd \/ DropE \/ Step \/ TrainStep \/ InfStep \/ Zero \/ Outside \/ Announce \/ HyperE \/ HyperSkip \/ HyperT \/ Save \/ Load)
           /\ UNCHANGED <<todo, conf>>
Spec == Init /\ [][Next]_vars
=============================================================================
