------------------------------- MODULE Config -------------------------------
(***************************************************************************)
(* Construction of the optimizer: which configurations are rejected, what   *)
(* is warned about and what results.                                        *)
(*                                                                         *)
(* A configuration has                                                     *)
(*   model    name of a model of the table Models                          *)
(*   wrapper  "none", "DP" or "DDP"                                        *)
(*   args     constructor arguments                                        *)
(*   how      "none" (params unspecified), "list" or "groups"              *)
(*   over     for how = "groups": per group the overridden arguments       *)
(*   assign   per parameter <<layer, parameter>> its group, 0 = not listed *)
(*   warn     warn_unsupported                                             *)
(* Numbers are decimal strings ("-1" is passed as an integer, "-1.0" as a   *)
(* float); "callable" is a schedule.                                        *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC

\* layers of the models the driver builds; own: parameters of a container itself
Ly(name, kind, params, frozen) == [name |-> name, kind |-> kind, params |-> params, frozen |-> frozen]
WB == {"weight", "bias"}
Models == [
  lin    |-> {Ly("0", "linear", WB, FALSE)},
  norm   |-> {Ly("0", "linear", WB, FALSE), Ly("1", "norm", WB, FALSE), Ly("2", "linear", {"weight"}, FALSE)},
  conv   |-> {Ly("0", "conv", WB, FALSE), Ly("1", "norm", WB, FALSE), Ly("3", "linear", WB, FALSE)},
  nested |-> {Ly("", "own", {"shift"}, FALSE), Ly("emb", "embedding", {"weight"}, FALSE), Ly("body.0", "linear", WB, FALSE),
              Ly("body.1.0", "linear", WB, FALSE), Ly("body.1", "own", {"gain"}, FALSE)},
  frozen |-> {Ly("0", "linear", WB, TRUE), Ly("1", "norm", WB, TRUE), Ly("2", "conv1x1", WB, FALSE), Ly("4", "linear", WB, FALSE)},
  plain  |-> {Ly("0", "linear", WB, FALSE), Ly("2", "linear", WB, FALSE)}]
Supported(ly) == ly.kind \in {"linear", "conv", "conv1x1"}
Params(m) == UNION {{<<ly.name, p>> : p \in ly.params} : ly \in Models[m]}
TrainableParams(m) == UNION {{<<ly.name, p>> : p \in ly.params} : ly \in {l \in Models[m] : Supported(l) /\ ~l.frozen}}

HYPER == {"lr", "lr_cov", "alpha1", "momentum", "weight_decay"}
Negative == {"-1", "-1.0", "-0.5", "-0.000001", "-1000"}
APPROX == {"expand", "reduce"}
AVERAGE == {"None", "batch", "batch+sequence"}

Groups(c) == IF c.how = "groups" THEN DOMAIN c.over ELSE {1}
Eff(c, g, k) == IF c.how = "groups" /\ k \in DOMAIN c.over[g] THEN c.over[g][k] ELSE c.args[k]
GroupOf(c, p) == IF c.how = "none" THEN IF p \in TrainableParams(c.model) THEN 1 ELSE 0 ELSE c.assign[p]
Split(c, ly) == Cardinality({GroupOf(c, <<ly.name, p>>) : p \in ly.params} \ {0}) > 1

\* the exception types that are possible; construction has to fail iff there is one
Errors(c) ==
  (IF c.wrapper # "none" THEN {"TypeError"} ELSE {})
  \cup (IF \E k \in HYPER : c.args[k] \in Negative THEN {"ValueError"} ELSE {})
  \cup (IF \E g \in Groups(c) : Eff(c, g, "kfac_approx") \notin APPROX \/ Eff(c, g, "loss_average") \notin AVERAGE THEN {"ValueError"} ELSE {})
  \cup (IF \E ly \in Models[c.model] : Supported(ly) /\ Split(c, ly) THEN {"ValueError"} ELSE {})
Accepts(c) == Errors(c) = {}

Zero == {"0", "0.0"}
\* groups whose Riemannian momentum is set to zero with a warning
Overruled(c) == {g \in Groups(c) : Eff(c, g, "kfac_like") = "True" /\ Eff(c, g, "alpha1") \notin Zero}
ResultAlpha(c, g) == IF g \in Overruled(c) THEN "0.0" ELSE Eff(c, g, "alpha1")
\* layers that are warned about
Unsupported(c) == IF c.how = "none" /\ c.warn
                  THEN {ly.name : ly \in {l \in Models[c.model] : ~Supported(l) /\ ~l.frozen}} ELSE {}
\* parameters a step changes (given that every gradient is non-zero and the learning rate positive)
Trained(c) == {p \in Params(c.model) : GroupOf(c, p) # 0 /\ \E ly \in Models[c.model] : ly.name = p[1] /\ Supported(ly) /\ ~ly.frozen}
=============================================================================
