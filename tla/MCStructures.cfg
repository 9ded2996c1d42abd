SPECIFICATION Spec
CONSTANTS
 MaxN = 7
 Names = {"dense","diagonal","block30diagonal","block3diagonal","block2diagonal","hierarchical15_15","hierarchical3_2","hierarchical1_1","triltoeplitz","triutoeplitz","trilbottomrightdiag","triltopleftdiag","triubottomrightdiag","triutopleftdiag","rec_hier_toep","rec_rec"}
INVARIANTS ClosedSupport IdentityMember ClosedBasis ProjMember ProjTrace ProjIdentity
CHECK_DEADLOCK FALSE
