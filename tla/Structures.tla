---------------------------- MODULE Structures ----------------------------
(***************************************************************************)
(* What the structured matrices of singd.structures mean, as sets of dense *)
(* matrices closed under + and *, and as the map Proj that extracts a      *)
(* member from a symmetric matrix.                                         *)
(*                                                                         *)
(* A structure is a record:                                                *)
(*   [k |-> "dense"], [k |-> "diag"], [k |-> "block", b |-> n],            *)
(*   [k |-> "hier", k1 |-> n, k2 |-> m], [k |-> "tril"], [k |-> "triu"]    *)
(*   (Toeplitz), and the recursive ones                                    *)
(*   [k |-> "recTR" or "recBL", da |-> n, dc |-> m, A |-> s, C |-> s']     *)
(*   where da, dc are the maximal dimensions of the diagonal blocks, one   *)
(*   of them Inf.                                                          *)
(***************************************************************************)
EXTENDS Num

Inf == 1000000
Dense == [k |-> "dense"]
Diag  == [k |-> "diag"]
StructOf(name) ==
  CASE name = "dense" -> Dense
    [] name = "diagonal" -> Diag
    [] name = "block30diagonal" -> [k |-> "block", b |-> 30]
    [] name = "block3diagonal" -> [k |-> "block", b |-> 3]
    [] name \in {"block2diagonal", "naiveblock2"} -> [k |-> "block", b |-> 2]
    [] name = "hierarchical15_15" -> [k |-> "hier", k1 |-> 15, k2 |-> 15]
    [] name = "hierarchical3_2" -> [k |-> "hier", k1 |-> 3, k2 |-> 2]
    [] name = "hierarchical1_1" -> [k |-> "hier", k1 |-> 1, k2 |-> 1]
    [] name = "triltoeplitz" -> [k |-> "tril"]
    [] name = "triutoeplitz" -> [k |-> "triu"]
    [] name = "trilbottomrightdiag" -> [k |-> "recBL", da |-> 1, dc |-> Inf, A |-> Dense, C |-> Diag]
    [] name = "triltopleftdiag" -> [k |-> "recBL", da |-> Inf, dc |-> 1, A |-> Diag, C |-> Dense]
    [] name = "triubottomrightdiag" -> [k |-> "recTR", da |-> 1, dc |-> Inf, A |-> Dense, C |-> Diag]
    [] name = "triutopleftdiag" -> [k |-> "recTR", da |-> Inf, dc |-> 1, A |-> Diag, C |-> Dense]
    \* user-defined nestings of the recursive templates (see harness/structs.py)
    [] name = "rec_hier_toep" -> [k |-> "recTR", da |-> 4, dc |-> Inf,
                                   A |-> [k |-> "hier", k1 |-> 1, k2 |-> 1], C |-> [k |-> "triu"]]
    [] name = "rec_rec" -> [k |-> "recBL", da |-> Inf, dc |-> 3, A |-> Diag,
                             C |-> [k |-> "recTR", da |-> 1, dc |-> Inf, A |-> Dense, C |-> [k |-> "block", b |-> 2]]]

Min2(a, b) == IF a <= b THEN a ELSE b
Max2(a, b) == IF a <= b THEN b ELSE a

\* dimension of the top left block A of a recursive structure of dimension n
Boundary(s, n) == IF s.da = Inf THEN Max2(0, n - s.dc) ELSE Min2(s.da, n)
\* block dimensions of a hierarchical structure of dimension n
HierK1(s, n) == Min2(n, s.k1)
HierK2(s, n) == Min2(s.k2, n - HierK1(s, n))

Sub(M, r1, r2, c1, c2) == [i \in 1..(r2 - r1 + 1) |-> [j \in 1..(c2 - c1 + 1) |-> M[r1 + i - 1][c1 + j - 1]]]

(***************************************************************************)
(* Support(s, n, i, j): entry (i, j) may be non-zero.  The further          *)
(* constraint of Toeplitz matrices is in SameEntry.                         *)
(***************************************************************************)
RECURSIVE Support(_, _, _, _)
Support(s, n, i, j) ==
  CASE s.k = "dense" -> TRUE
    [] s.k = "diag" -> i = j
    [] s.k = "block" -> (i - 1) \div s.b = (j - 1) \div s.b
    [] s.k = "hier" ->
         LET k1 == HierK1(s, n)  k2 == HierK2(s, n)  IN
           \/ i <= k1
           \/ i > n - k2 /\ j > k1
           \/ i = j
    [] s.k = "tril" -> i >= j
    [] s.k = "triu" -> i <= j
    [] s.k \in {"recTR", "recBL"} ->
         LET b == Boundary(s, n) IN
           IF i <= b /\ j <= b THEN Support(s.A, b, i, j)
           ELSE IF i > b /\ j > b THEN Support(s.C, n - b, i - b, j - b)
           ELSE IF s.k = "recTR" THEN i <= b ELSE j <= b

\* the position whose entry position (i, j) has to equal (identity unless Toeplitz)
RECURSIVE Rep(_, _, _, _)
Rep(s, n, i, j) ==
  CASE s.k = "tril" /\ i >= j -> <<i - j + 1, 1>>
    [] s.k = "triu" /\ i <= j -> <<1, j - i + 1>>
    [] s.k \in {"recTR", "recBL"} ->
         LET b == Boundary(s, n) IN
           IF i <= b /\ j <= b THEN Rep(s.A, b, i, j)
           ELSE IF i > b /\ j > b
             THEN LET r == Rep(s.C, n - b, i - b, j - b) IN <<r[1] + b, r[2] + b>>
           ELSE <<i, j>>
    [] OTHER -> <<i, j>>

Member(s, M) ==
  LET n == Len(M) IN
  /\ \A i \in 1..n : Len(M[i]) = n
  /\ \A i, j \in 1..n :
       IF Support(s, n, i, j)
       THEN LET r == Rep(s, n, i, j) IN r = <<i, j>> \/ REq(M[i][j], M[r[1]][r[2]])
       ELSE RIsZero(M[i][j])

(***************************************************************************)
(* Proj(s, M), M symmetric: entries of the diagonal blocks are kept, those  *)
(* whose mirror image is not part of the structure are doubled (recursive:  *)
(* added to their mirror image), Toeplitz entries are averages over both    *)
(* mirrored diagonals, normalised by the length of one.                     *)
(***************************************************************************)
DiagSum(M, d) == LET n == Len(M) IN RSum([t \in 1..(n - d) |-> RAdd(M[t + d][t], M[t][t + d])])
ToepCoef(M) == \* coefficients of diagonals 0..n-1
  LET n == Len(M) IN
  [d \in 0..(n - 1) |-> IF d = 0 THEN RDiv(MDiagSum(M), n) ELSE RDiv(DiagSum(M, d), n - d)]

RECURSIVE ProjRaw(_, _)
ProjRaw(s, M) ==
  LET n == Len(M) IN
  CASE s.k = "dense" -> M
    [] s.k \in {"diag", "block"} ->
         [i \in 1..n |-> [j \in 1..n |-> IF Support(s, n, i, j) THEN M[i][j] ELSE 0]]
    [] s.k = "hier" ->
         [i \in 1..n |-> [j \in 1..n |->
            IF ~Support(s, n, i, j) THEN 0
            ELSE IF Support(s, n, j, i) THEN M[i][j]
            ELSE RMul(2, M[i][j])]]
    [] s.k \in {"tril", "triu"} ->
         LET c == ToepCoef(M)  f == [d \in 0..(n - 1) |-> c[d]] IN
         MForce([i \in 1..n |-> [j \in 1..n |->
            IF ~Support(s, n, i, j) THEN 0 ELSE f[IF i >= j THEN i - j ELSE j - i]]])
    [] s.k \in {"recTR", "recBL"} ->
         LET b == Boundary(s, n)
             PA == ProjRaw(s.A, Sub(M, 1, b, 1, b))
             PC == ProjRaw(s.C, Sub(M, b + 1, n, b + 1, n)) IN
         [i \in 1..n |-> [j \in 1..n |->
            IF i <= b /\ j <= b THEN PA[i][j]
            ELSE IF i > b /\ j > b THEN PC[i - b][j - b]
            ELSE IF Support(s, n, i, j) THEN RAdd(M[i][j], M[j][i])
            ELSE 0]]
Proj(s, M) == MForce(ProjRaw(s, M))
=============================================================================
