----------------------------- MODULE Curvature -----------------------------
(***************************************************************************)
(* The curvature statistics of one use of a layer in a forward and backward *)
(* pass, by definition: every row of the input matrix is an input the layer *)
(* multiplied its weight matrix with (for a convolution a patch, by index   *)
(* arithmetic), every row of the gradient matrix the gradient with respect  *)
(* to the corresponding row of the output.                                  *)
(*                                                                         *)
(* Linear layer: a[b][s][d], g[b][s][d'], s running over all weight-shared  *)
(* axes.  Convolution: a[b][c][i][j], g[b][c'][i'][j'].                     *)
(* A layer description ly has kind, bias and, for convolutions, geo:        *)
(*   [k, s, d |-> <<h, w>>, p |-> <<top, bottom, left, right>>, groups, mode]*)
(***************************************************************************)
EXTENDS Num

\* ---- patches of a convolution -------------------------------------------
OutSize(n, k, s, d, p1, p2) == (n + p1 + p2 - d * (k - 1) - 1) \div s + 1
\* index into the un-padded axis 1..n of the padded position q (q = 1 is the first un-padded entry); 0: padding
AxisIndex(mode, n, q) ==
  CASE q >= 1 /\ q <= n -> q
    [] mode = "zeros" -> 0
    [] mode = "circular" -> ((q - 1) % n) + 1
    [] mode = "replicate" -> IF q < 1 THEN 1 ELSE n
    [] mode = "reflect" -> IF q < 1 THEN 2 - q ELSE 2 * n - q
At(x, i, j) == IF i = 0 \/ j = 0 THEN 0 ELSE x[i][j]

\* mean over the channel groups: channel c of the result averages c, c + C', c + 2C', ... (C' = C / groups)
GroupMean(ab, groups) ==
  LET cs == Len(ab) \div groups  I == Len(ab[1])  J == Len(ab[1][1]) IN
  IF groups = 1 THEN ab ELSE
  [c \in 1..cs |-> MForce([i \in 1..I |-> [j \in 1..J |->
      RDiv(RSum([q \in 1..groups |-> ab[(q - 1) * cs + c][i][j]]), groups)]])]

\* rows of one sample: one per output location (row-major), entries ordered channel, kernel row, kernel column
PatchRows(x, geo) ==
  LET I == Len(x[1])  J == Len(x[1][1])
      kh == geo.k[1]  kw == geo.k[2]
      oh == OutSize(I, kh, geo.s[1], geo.d[1], geo.p[1], geo.p[2])
      ow == OutSize(J, kw, geo.s[2], geo.d[2], geo.p[3], geo.p[4])
      Entry(o, e) ==
        LET oi == (o - 1) \div ow  oj == (o - 1) % ow
            c == (e - 1) \div (kh * kw)  r == (e - 1) % (kh * kw)
            ki == r \div kw  kj == r % kw
            qi == oi * geo.s[1] + ki * geo.d[1] - geo.p[1] + 1
            qj == oj * geo.s[2] + kj * geo.d[2] - geo.p[3] + 1
        IN At(x[c + 1], AxisIndex(geo.mode, I, qi), AxisIndex(geo.mode, J, qj))
  IN [o \in 1..(oh * ow) |-> [e \in 1..(Len(x) * kh * kw) |-> Entry(o, e)]]

\* ---- rows of a layer, per sample ----------------------------------------
SampleRowsA(ly, ab) == MForce(IF ly.kind = "linear" THEN ab ELSE PatchRows(GroupMean(ab, ly.geo.groups), ly.geo))
SampleRowsG(ly, gb) ==
  IF ly.kind = "linear" THEN gb
  ELSE LET oh == Len(gb[1])  ow == Len(gb[1][1]) IN
       MForce([o \in 1..(oh * ow) |-> [c \in 1..Len(gb) |-> gb[c][((o - 1) \div ow) + 1][((o - 1) % ow) + 1]]])

ColSum(rows) == MForce([i \in {1} |-> [j \in 1..Len(rows[1]) |-> RSum([r \in 1..Len(rows) |-> rows[r][j]])]])
ColMean(rows) == MScale(RDiv(1, Len(rows)), ColSum(rows))
Concat(mats) == \* stack the rows of a sequence of matrices
  LET F[i \in 0..Len(mats)] == IF i = 0 THEN <<>> ELSE F[i - 1] \o mats[i] IN F[Len(mats)]
WithOne(rows) == [r \in 1..Len(rows) |-> Append(rows[r], 1)]

MatA(ly, approx, a) ==
  LET rows == Concat([b \in 1..Len(a) |->
                 IF approx = "expand" THEN SampleRowsA(ly, a[b]) ELSE ColMean(SampleRowsA(ly, a[b]))])
  IN IF ly.bias THEN WithOne(rows) ELSE rows
MatG(ly, approx, g) ==
  Concat([b \in 1..Len(g) |-> IF approx = "expand" THEN SampleRowsG(ly, g[b]) ELSE ColSum(SampleRowsG(ly, g[b]))])

\* number of terms the loss averages over
LossTerms(ly, average, g) ==
  CASE average = "none" -> 1
    [] average = "batch" -> Len(g)
    [] average = "batch+sequence" -> Len(g) * Len(SampleRowsG(ly, g[1]))

Gram(rows) == MMul(MTrans(rows), rows)
\* mean of x x^T over the rows of the input, and sum of g g^T times the number of loss terms
GramA(ly, approx, a) == LET R == MForce(MatA(ly, approx, a)) IN MScale(RDiv(1, Len(R)), Gram(R))
GramG(ly, approx, average, g) == MScale(LossTerms(ly, average, g), Gram(MForce(MatG(ly, approx, g))))

(***************************************************************************)
(* What the layer itself computes with these rows, per channel group q:     *)
(* its output is the rows times the weight, the gradient of the weight the  *)
(* product of output gradients and rows.  Compared with the layers of       *)
(* PyTorch (SingdTrace), this ties the definition of the rows to the layer. *)
(***************************************************************************)
NGroups(ly) == IF ly.kind = "linear" THEN 1 ELSE ly.geo.groups
Part(seq, n, q) == LET m == Len(seq) \div n IN [i \in 1..m |-> seq[(q - 1) * m + i]]
RowsOfGroup(ly, a, q) ==
  LET rows == Concat([b \in 1..Len(a) |->
                 IF ly.kind = "linear" THEN a[b] ELSE MForce(PatchRows(Part(a[b], ly.geo.groups, q), ly.geo))])
  IN MForce(IF ly.bias THEN WithOne(rows) ELSE rows)
\* columns of the output (or its gradient) that belong to the group
OutOfGroup(ly, o, q) == LET R == MatG(ly, "expand", o) IN MForce([i \in 1..Len(R) |-> Part(R[i], NGroups(ly), q)])
OutputIs(ly, W, a, o, rtol, atol) == \A q \in 1..NGroups(ly) :
   MClose(OutOfGroup(ly, o, q), MMul(RowsOfGroup(ly, a, q), MTrans(Part(W, NGroups(ly), q))), rtol, atol)
\* uses: sequence of [a, g]
WeightGradIs(ly, uses, dW, rtol, atol) == \A q \in 1..NGroups(ly) :
   LET P(u) == MMul(MTrans(OutOfGroup(ly, u.g, q)), RowsOfGroup(ly, u.a, q))
       F[i \in 1..Len(uses)] == IF i = 1 THEN P(uses[1]) ELSE MAdd(F[i - 1], P(uses[i]))
   IN MClose(Part(dW, NGroups(ly), q), F[Len(uses)], rtol, atol)
=============================================================================
