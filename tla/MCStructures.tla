--------------------------- MODULE MCStructures ---------------------------
(***************************************************************************)
(* Design check of Structures: for every structure and dimension 1..MaxN,  *)
(* the set of members contains the identity and is closed under sums,      *)
(* products and Proj.  Products are decided on the supports (for every     *)
(* member at once), and, for the entries that have to be equal, on a basis *)
(* of the structure (by bilinearity for every pair of members).            *)
(***************************************************************************)
EXTENDS Structures, TLC
CONSTANTS Names, MaxN
VARIABLES name, n, phase
vars == <<name, n, phase>>

Init == name \in Names /\ n \in 1..MaxN /\ phase = "supp"
Next == \/ phase = "supp" /\ phase' = "basis" /\ UNCHANGED <<name, n>>
        \/ phase = "basis" /\ phase' = "proj" /\ UNCHANGED <<name, n>>
Spec == Init /\ [][Next]_vars

s == StructOf(name)
Cells == {c \in (1..n) \X (1..n) : Support(s, n, c[1], c[2])}
Reps == {Rep(s, n, c[1], c[2]) : c \in Cells}
\* the basis member that belongs to the representative r
Basis(r) == MForce([i \in 1..n |-> [j \in 1..n |->
               IF Support(s, n, i, j) /\ Rep(s, n, i, j) = r THEN 1 ELSE 0]])

ClosedSupport == phase = "supp" =>
  /\ \A i \in 1..n : Support(s, n, i, i)
  /\ \A i, j, l \in 1..n : Support(s, n, i, j) /\ Support(s, n, j, l) => Support(s, n, i, l)
  /\ \A c \in Cells : LET r == Rep(s, n, c[1], c[2]) IN r \in Cells /\ Rep(s, n, r[1], r[2]) = r
IdentityMember == phase = "supp" => Member(s, MEye(n))
\* only structures with equal entries need more than the supports
HasReps == \E c \in Cells : Rep(s, n, c[1], c[2]) # c
ClosedBasis == phase = "basis" =>
  /\ \A r \in Reps : Member(s, Basis(r))
  /\ HasReps => \A p, q \in Reps : Member(s, MMul(Basis(p), Basis(q)))
\* the symmetric unit matrices span the symmetric matrices and Proj is linear
SymUnit(a, b) == MForce([i \in 1..n |-> [j \in 1..n |-> IF {i, j} = {a, b} THEN 60 ELSE 0]])
ProjMember == phase = "proj" => \A a, b \in 1..n : Member(s, Proj(s, SymUnit(a, b)))
\* Proj keeps the trace, hence the average trace of curvature matrices
ProjTrace == phase = "proj" => \A a, b \in 1..n :
   RClose(MDiagSum(Proj(s, SymUnit(a, b))), MDiagSum(SymUnit(a, b)), 0, "1e-30")
\* Proj of the identity is the identity
ProjIdentity == phase = "proj" => MClose(Proj(s, MEye(n)), MEye(n), 0, "1e-30")
=============================================================================
