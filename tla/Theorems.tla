----------------------------- MODULE Theorems -----------------------------
(***************************************************************************)
(* Consequences of Recursion and Curvature that users rely on, decided by   *)
(* TLC with numbers on every case of a finite family (layers with weight    *)
(* sharing, all kinds of structures, both variants of the update).  They    *)
(* show that what the traces are compared with is the right thing.          *)
(*   ScaleFree      the loss scale cancels, whatever its history (C05)      *)
(*   Accumulation   m micro-batches are one batch (C13)                     *)
(*   DataParallel   R processes with averaged losses are one process, with  *)
(*                  summed losses C-statistics and gradients add up (C12)   *)
(*   Stationary     the KFAC-like update ends at the damped inverse (C01)   *)
(*   StationaryIng  the default update ends at the inverse of the weighted  *)
(*                  statistics (C01)                                        *)
(***************************************************************************)
EXTENDS Recursion, TLC
CONSTANTS Kind, Structs, Seeds, Parts
VARIABLE c
vars == <<c>>

\* small numbers that look random
Val(seed, i, j, l) == RDiv(((seed * 37 + i * 17 + j * 29 + l * 11 + i * j * 7 + (seed + j) * l * 5) % 19) - 9, 7)
Cube(seed, n1, n2, n3) == [b \in 1..n1 |-> MForce([s \in 1..n2 |-> [d \in 1..n3 |-> Val(seed, b, s, d)]])]
CScale(s, X) == [b \in 1..Len(X) |-> MScale(s, X[b])]

Cases == [sK : Structs, sC : Structs, like : BOOLEAN, norm : BOOLEAN, la : {"none", "batch", "batch+sequence"},
          approx : {"expand", "reduce"}, seed : Seeds, alpha1 : {"0", "0.5"}, m : Parts]
Init == c \in Cases /\ (Kind \in {"stationary"} => ~c.norm /\ c.la = "none" /\ c.approx = "expand" /\ c.alpha1 = "0" /\ c.sK = c.sC)
        /\ (c.like => c.alpha1 = "0") /\ (Kind = "accumulation" => ~c.like /\ c.la # "none")
Next == UNCHANGED vars
Spec == Init /\ [][Next]_vars

Ly == [kind |-> "linear", bias |-> TRUE, group |-> 1, tw |-> TRUE, tb |-> TRUE]
Conf == [layers |-> <<Ly>>,
         groups |-> <<[T |-> 1, lr |-> "0.1", momentum |-> "0.9", damping |-> "0.01", alpha1 |-> c.alpha1, wd |-> "0.1", la |-> c.la,
                       lrcov |-> <<"0.3", "0.1">>, sK |-> c.sK, sC |-> c.sC, approx |-> c.approx, like |-> c.like, norm |-> c.norm]>>]
dK == 3
dC == 2
Start == [pre |-> [K |-> MEye(dK), C |-> MEye(dC), mK |-> MZero(dK, dK), mC |-> MZero(dC, dC)],
          par |-> MForce([i \in 1..dC |-> [j \in 1..dK |-> Val(3, i, j, 1)]]), mom |-> MZero(dC, dK)]

\* gradient of the parameters that belongs to inputs and output gradients
ParGrad(o) == MMul(MTrans(MatG(Ly, "expand", o.g)), MatA(Ly, "expand", o.a))
\* one training step: per process a sequence of micro-batches
\* obs: micro-batch |-> process |-> [a, g]
OneStep(z, obs, t, prev, cur) ==
  LET cont == [i \in 1..Len(obs) |-> Contribution(Conf, 1, z.pre, [r \in 1..Len(obs[i]) |-> <<obs[i][r]>>], prev)]
      A[i \in 1..Len(obs)] == IF i = 1 THEN cont[1] ELSE AccAdd(A[i - 1], cont[i])
      pre == Refresh(Conf, 1, z.pre, A[Len(obs)], t, prev, cur)
      grads == [r \in 1..Len(obs[1]) |-> MSum([i \in 1..Len(obs) |-> ParGrad(obs[i][r])])]
      u == Update(Conf, 1, pre, z.par, z.mom, grads, cur)
  IN [pre |-> pre, par |-> u.par, mom |-> u.mom]

\* micro-batch i of step t: 2 samples, 2 positions
A_(i, t) == Cube(c.seed + 5 * i + 3 * t, 2, 2, dK - 1)
G_(i, t) == Cube(c.seed + 7 * i + 2 * t + 1, 2, 2, dC)
F_(n, X(_)) == LET U[i \in 0..n] == IF i = 0 THEN <<>> ELSE U[i - 1] \o X(i) IN U[n]
Union_(t) == [a |-> F_(c.m, LAMBDA i : A_(i, t)), g |-> F_(c.m, LAMBDA i : G_(i, t))]
TwoSteps(obs(_), scale) == OneStep(OneStep(Start, obs(0), 0, scale[1], scale[2]), obs(1), 1, scale[2], scale[3])

Reference == TwoSteps(LAMBDA t : <<<<Union_(t)>>>>, <<1, 1, 1>>)
C_(A, B) == MClose(A, B, "1e-25", "1e-25")
Same(x, y) == /\ C_(x.pre.K, y.pre.K) /\ C_(x.pre.C, y.pre.C) /\ C_(x.pre.mK, y.pre.mK) /\ C_(x.pre.mC, y.pre.mC)
              /\ C_(x.par, y.par) /\ C_(x.mom, y.mom)

\* every scale of the previous step (where the statistics take it from) and of the current one
Hist == {<<"1", "4", "0.5">>, <<"16", "3.0", "1024">>, <<"0.25", "1", "7">>}
ScaleFree == Kind = "scale" => \A s \in Hist :
  Same(TwoSteps(LAMBDA t : <<<<[a |-> Union_(t).a, g |-> CScale(s[t + 2], Union_(t).g)]>>>>, s), Reference)

Accumulation == Kind = "accumulation" =>
  Same(TwoSteps(LAMBDA t : [i \in 1..c.m |-> <<[a |-> A_(i, t), g |-> G_(i, t)]>>], <<1, 1, 1>>), Reference)

\* process i holds shard i and averages over it
Shards(t) == <<[i \in 1..c.m |-> [a |-> A_(i, t), g |-> IF c.la = "none" THEN G_(i, t) ELSE CScale(c.m, G_(i, t))]]>>
DataParallel == Kind = "parallel" =>
  IF c.la # "none" THEN Same(TwoSteps(Shards, <<1, 1, 1>>), Reference)
  ELSE LET one == Contribution(Conf, 1, Start.pre, <<<<Union_(0)>>>>, 1)
           all == Contribution(Conf, 1, Start.pre, [i \in 1..c.m |-> <<Shards(0)[1][i]>>], 1)
       IN C_(all.HC, one.HC) /\ C_(all.HK, MScale(c.m, one.HK))

\* ---- where the refresh leads when the statistics stay the same ---------------
Cov(n, s) == MScale("0.2", Gram(MForce([i \in 1..(n + 1) |-> [j \in 1..n |-> Val(c.seed + s, i, j, s)]])))
Damp == "0.3"
LongConf == [Conf EXCEPT !.groups[1].damping = Damp, !.groups[1].lrcov = <<"0.3">>]
Iter(n) ==
  LET A == Cov(dK, 1)  G == Cov(dC, 2)
      Z[i \in 0..n] ==
        IF i = 0 THEN Start.pre
        ELSE LET p == Z[i - 1]
                 acc == [HK |-> Proj(StructOf(c.sK), Congruence(p.K, A)), HC |-> Proj(StructOf(c.sC), Congruence(p.C, G))]
             IN Refresh(LongConf, 1, p, acc, 0, 1, 1)
  IN Z[n]
Inv(K, M) == MClose(MMul(MMul(K, MTrans(K)), M), MEye(Len(M)), "1e-6", "1e-6")
Tr(M) == MAvgTrace(M)
Stationary == Kind = "stationary" =>
  LET p == TLCEval(Iter(220))  A == Cov(dK, 1)  G == Cov(dC, 2)
      StK == Proj(StructOf(c.sK), MMul(MTrans(p.K), p.K))  StC == Proj(StructOf(c.sC), MMul(MTrans(p.C), p.C))
      HK == Proj(StructOf(c.sK), Congruence(p.K, A))  HC == Proj(StructOf(c.sC), Congruence(p.C, G))
      MK == IF c.like THEN MAdd(A, MScale(Damp, MEye(dK))) ELSE MAdd(MScale(Tr(HC), A), MScale(RMul(Damp, Tr(StC)), MEye(dK)))
      MC == IF c.like THEN MAdd(G, MScale(Damp, MEye(dC))) ELSE MAdd(MScale(Tr(HK), G), MScale(RMul(Damp, Tr(StK)), MEye(dC)))
  IN /\ Member(StructOf(c.sK), p.K) /\ Member(StructOf(c.sC), p.C)
     /\ c.sK = "dense" => Inv(p.K, MK) /\ Inv(p.C, MC)
     \* otherwise the gradient of the variational objective vanishes on the structure
     /\ MClose(Proj(StructOf(c.sK), Congruence(p.K, MK)), MEye(dK), "1e-6", "1e-6")
     /\ MClose(Proj(StructOf(c.sC), Congruence(p.C, MC)), MEye(dC), "1e-6", "1e-6")
=============================================================================
