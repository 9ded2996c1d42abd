----------------------------- MODULE Recursion -----------------------------
(***************************************************************************)
(* What the statistics of a backward pass, a pre-conditioner refresh and a  *)
(* parameter update compute, with numbers.                                  *)
(*                                                                         *)
(* pre   [K, C, mK, mC], dense matrices                                     *)
(* acc   [HK, HC]                                                           *)
(* par, mom   matrices dC x dK, the bias as last column                     *)
(* Observations and gradients come as one entry per process.                *)
(***************************************************************************)
EXTENDS Num, Structures, Curvature

Grp(conf, l) == conf.groups[conf.layers[l].group]
Reduce(conf, l, seq) == \* over processes: average for averaged losses, else sum
  LET F[i \in 1..Len(seq)] == IF i = 1 THEN seq[1] ELSE MAdd(F[i - 1], seq[i])
      sum == F[Len(seq)]
  IN IF Len(seq) = 1 THEN sum
     ELSE IF Grp(conf, l).la = "none" THEN sum ELSE MScale(RDiv(1, Len(seq)), sum)
MSum(seq) == LET F[i \in 1..Len(seq)] == IF i = 1 THEN seq[1] ELSE MAdd(F[i - 1], seq[i]) IN F[Len(seq)]

\* S^T M S
Congruence(S, M) == MMul(MTrans(S), MMul(M, S))

\* obs: per process, per use of the layer, [a, g]
Contribution(conf, l, pre, obs, prev) ==
  LET ly == conf.layers[l]  gr == Grp(conf, l)
      HK(u) == Proj(StructOf(gr.sK), Congruence(pre.K, GramA(ly, gr.approx, u.a)))
      HC(u) == MScale(RDiv(1, prev), Proj(StructOf(gr.sC), Congruence(pre.C, GramG(ly, gr.approx, gr.la, u.g))))
  IN [HK |-> MForce(Reduce(conf, l, [r \in 1..Len(obs) |-> MSum([i \in 1..Len(obs[r]) |-> HK(obs[r][i])])])),
      HC |-> MForce(Reduce(conf, l, [r \in 1..Len(obs) |-> MSum([i \in 1..Len(obs[r]) |-> HC(obs[r][i])])]))]
AccAdd(a, c) == [HK |-> MForce(MAdd(a.HK, c.HK)), HC |-> MForce(MAdd(a.HC, c.HC))]

LrCov(gr, t) == IF Len(gr.lrcov) = 1 THEN gr.lrcov[1] ELSE gr.lrcov[t + 1]

\* one factor: S <- S - beta S m,  m <- alpha m + s (c H + e S^T S - I)
NewMomentum(H, c, StS, e, s, alpha, m) ==
  LET n == Len(H)
      x == MScale(s, MSub(MAdd(MScale(c, H), MScale(e, StS)), MEye(n)))
  IN MForce(IF RIsZero(alpha) THEN x ELSE MAdd(x, MScale(alpha, m)))
Rate(gr, t, m) == IF gr.norm THEN RDiv(LrCov(gr, t), RMax(1, MMaxAbs(m))) ELSE LrCov(gr, t)

Refresh(conf, l, pre, acc, t, prev, cur) ==
  LET gr == Grp(conf, l)
      KtK == Proj(StructOf(gr.sK), MMul(MTrans(pre.K), pre.K))
      CtC == Proj(StructOf(gr.sC), MMul(MTrans(pre.C), pre.C))
      u == RDiv(prev, RMul(cur, cur))
      s == RMul("0.5", IF gr.norm THEN RSub(1, gr.alpha1) ELSE 1)
      cK == IF gr.like THEN 1 ELSE RMul(u, MAvgTrace(acc.HC))
      eK == RMul(gr.damping, IF gr.like THEN 1 ELSE MAvgTrace(CtC))
      cC == IF gr.like THEN u ELSE RMul(u, MAvgTrace(acc.HK))
      eC == RMul(gr.damping, IF gr.like THEN 1 ELSE MAvgTrace(KtK))
      mK == NewMomentum(acc.HK, cK, KtK, eK, s, gr.alpha1, pre.mK)
      mC == NewMomentum(acc.HC, cC, CtC, eC, s, gr.alpha1, pre.mC)
      keep == ~RIsZero(gr.alpha1)
  IN [K |-> MForce(MSub(pre.K, MScale(Rate(gr, t, mK), MMul(pre.K, mK)))),
      C |-> MForce(MSub(pre.C, MScale(Rate(gr, t, mC), MMul(pre.C, mC)))),
      mK |-> IF keep THEN mK ELSE pre.mK,
      mC |-> IF keep THEN mC ELSE pre.mC]

Natural(pre, G) == MMul(MMul(pre.C, MTrans(pre.C)), MMul(G, MMul(pre.K, MTrans(pre.K))))

\* grads: per process, scaled by cur
Update(conf, l, pre, par, mom, grads, cur) ==
  LET gr == Grp(conf, l)  ly == conf.layers[l]
      nat == Reduce(conf, l, [r \in 1..Len(grads) |-> Natural(pre, MScale(RDiv(1, cur), grads[r]))])
      dir == MAdd(nat, MScale(gr.wd, par))
      heavy == ~RIsZero(gr.momentum)
      buf == IF heavy THEN MForce(MAdd(MScale(gr.momentum, mom), dir)) ELSE mom
      new == MForce(MSub(par, MScale(gr.lr, IF heavy THEN buf ELSE dir)))
      n == NCols(par)
      trained(j) == IF ly.bias /\ j = n THEN ly.tb ELSE ly.tw
      Mask(x, y) == IF ly.tw /\ (ly.tb \/ ~ly.bias) THEN x
                    ELSE MForce([i \in 1..NRows(par) |-> [j \in 1..n |-> IF trained(j) THEN x[i][j] ELSE y[i][j]]])
  IN [par |-> Mask(new, par), mom |-> Mask(buf, mom)]
=============================================================================
