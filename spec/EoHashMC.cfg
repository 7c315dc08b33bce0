SPECIFICATION Spec
INVARIANTS
  InvOrder InvIrreflexive InvAsymmetric InvStable InvTotal InvScheme InvTransitive InvSomeOrder
CHECK_DEADLOCK FALSE
