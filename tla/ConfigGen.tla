----------------------------- MODULE ConfigGen -----------------------------
(***************************************************************************)
(* Enumerates configurations: every combination of at most Depth changes to *)
(* a valid configuration.  The ghost `faults` collects which changes are    *)
(* invalid; TLC checks that the declarative Errors of Config agrees.        *)
(* With OutFile # "" every configuration is written as a JSON line.         *)
(***************************************************************************)
EXTENDS Config, Json, IOUtils
CONSTANTS OutFile, Depth
VARIABLES c, faults, n, touched
vars == <<c, faults, n, touched>>

Args == [lr |-> "0.01", momentum |-> "0.9", damping |-> "0.01", alpha1 |-> "0.5", weight_decay |-> "0.001", T |-> "1",
         loss_average |-> "batch", lr_cov |-> "0.01", K |-> "dense", C |-> "dense", kfac_approx |-> "expand",
         kfac_like |-> "False", pK |-> "None", pC |-> "None", init_grad_scale |-> "1.0", normalize_lr_cov |-> "False"]
Init == /\ \E m \in DOMAIN Models, how \in {"none", "list", "groups"} :
             c = [model |-> m, wrapper |-> "none", args |-> Args, how |-> how, over |-> <<>>, warn |-> TRUE,
                  assign |-> [p \in Params(m) |-> IF p \in TrainableParams(m) THEN 1 ELSE 0]]
        /\ faults = {} /\ n = 0 /\ touched = {}

STRUCT == {"dense", "diagonal", "block30diagonal", "hierarchical15_15", "triltoeplitz", "triutoeplitz"}
\* documented values, and values outside the documentation
Fine == [lr |-> {"0", "1", "0.5"}, momentum |-> {"0", "0.0", "1"}, alpha1 |-> {"0", "0.0", "1", "0.9"}, weight_decay |-> {"0", "1"},
         lr_cov |-> {"0", "1", "callable"}, damping |-> {"0", "1"}, T |-> {"2", "7"}, loss_average |-> AVERAGE, kfac_approx |-> APPROX,
         kfac_like |-> {"True", "False"}, normalize_lr_cov |-> {"True", "False"}, K |-> STRUCT, C |-> STRUCT,
         pK |-> {"float32", "float64", "bfloat16"}, pC |-> {"float32", "float64", "bfloat16"}, init_grad_scale |-> {"1024.0"}]
Wrong == [lr |-> Negative, momentum |-> Negative, alpha1 |-> Negative, weight_decay |-> Negative, lr_cov |-> Negative,
          loss_average |-> {"sum", "mean", "sequence", "Batch", "True", "batch+seq", ""}, kfac_approx |-> {"Expand", "sum", "None", "", "expand,reduce"}]
Over == {"loss_average", "kfac_approx", "kfac_like", "alpha1", "T", "K", "C", "normalize_lr_cov", "lr", "lr_cov", "momentum"}

\* names of changes and faults are strings, <<group, argument>> as text
Name(x) == ToString(x)
Change(x, what, f) == /\ Name(what) \notin touched
                      /\ c' = x /\ faults' = faults \cup f /\ n' = n + 1 /\ touched' = touched \cup {Name(what)}
SetArg == \E f \in DOMAIN Args :
  \/ \E v \in Fine[f] : v # c.args[f] /\ Change([c EXCEPT !.args[f] = v], f, {})
  \/ f \in DOMAIN Wrong /\ \E v \in Wrong[f] :
       \* a default that every group overrides is not in any group
       Change([c EXCEPT !.args[f] = v], f,
              IF f \in HYPER \/ c.how # "groups" \/ c.over = <<>> \/ \E g \in DOMAIN c.over : f \notin DOMAIN c.over[g] THEN {f} ELSE {})
Wrap == \E w \in {"DP", "DDP"} : Change([c EXCEPT !.wrapper = w], "wrapper", {"wrapper"})
WarnOff == Change([c EXCEPT !.warn = FALSE], "warn", {})
NG(x) == Cardinality({x.assign[p] : p \in DOMAIN x.assign} \ {0})
Fit(x) == [x EXCEPT !.over = [g \in 1..NG(x) |-> IF g \in DOMAIN x.over THEN x.over[g] ELSE <<>>]]
\* assignments of parameters to groups; group numbers have to be 1..NG
Dense(x) == {x.assign[p] : p \in DOMAIN x.assign} \ {0} = 1..NG(x) /\ NG(x) >= 1
Assign == c.how = "groups" /\ c.over = <<>> /\ \E ly \in Models[c.model], g \in 0..3 : \E ps \in SUBSET ly.params \ {{}} :
  LET x == [c EXCEPT !.assign = [p \in DOMAIN c.assign |-> IF p[1] = ly.name /\ p[2] \in ps THEN g ELSE c.assign[p]]] IN
  x # c /\ ~ly.frozen /\ (NG(x) = 1 \/ c.model \in {"norm", "conv", "nested", "plain", "lin"}) /\ Dense(x)
  /\ Change(x, <<ly.name, ps>>, IF Supported(ly) /\ Split(x, ly) THEN {"split"} ELSE {})
Unlist == c.how = "list" /\ \E ly \in Models[c.model] : \E ps \in SUBSET ly.params \ {{}} :
  LET x == [c EXCEPT !.assign = [p \in DOMAIN c.assign |-> IF p[1] = ly.name /\ p[2] \in ps THEN 1 - c.assign[p] ELSE c.assign[p]]] IN
  NG(x) = 1 /\ ~ly.frozen /\ Change(x, <<ly.name, ps>>, {})
\* with groups: override in one group
Override == c.how = "groups" /\ LET x == Fit(c) IN \E g \in 1..NG(x), f \in Over :
  f \notin DOMAIN x.over[g] /\
  (\/ \E v \in Fine[f] : Change([x EXCEPT !.over[g] = (f :> v) @@ @], <<"over", g, f>>, {})
   \/ f \in {"loss_average", "kfac_approx"} /\ \E v \in Wrong[f] : Change([x EXCEPT !.over[g] = (f :> v) @@ @], <<"over", g, f>>, {Name(<<g, f>>)}))

\* a wrong default can be overridden in every group, so its fault is not decisive
Agree == LET x == IF c.how = "groups" THEN Fit(c) ELSE c IN
  /\ (faults = {} => Accepts(x))
  /\ (faults \cap (HYPER \cup {"wrapper"}) # {} => ~Accepts(x))
  /\ ((\E g \in DOMAIN x.over, f \in Over : Name(<<g, f>>) \in faults) => ~Accepts(x))
  /\ (("split" \notin faults) => \A ly \in Models[x.model] : Supported(ly) => ~Split(x, ly))
  /\ ("wrapper" \in faults => "TypeError" \in Errors(x)) /\ (faults \ {"wrapper"} = {} => "ValueError" \notin Errors(x))

Params2Seq(x) == LET S == Params(x.model)
                     RECURSIVE Sq(_)
                     Sq(T) == IF T = {} THEN <<>> ELSE LET p == CHOOSE q \in T : TRUE IN <<[l |-> p[1], p |-> p[2], g |-> x.assign[p]]>> \o Sq(T \ {p})
                 IN Sq(S)
Write == LET x == IF c.how = "groups" THEN Fit(c) ELSE c IN
  OutFile = "" \/ Serialize(ToJson([x EXCEPT !.assign = Params2Seq(x)]) \o "\n", OutFile,
    [format |-> "TXT", charset |-> "UTF-8", openOptions |-> <<"WRITE", "CREATE", "APPEND">>]).exitValue = 0
Inv == Agree /\ Write
Next == n < Depth /\ (SetArg \/ Wrap \/ WarnOff \/ Assign \/ Unlist \/ Override)
Spec == Init /\ [][Next]_vars
=============================================================================
