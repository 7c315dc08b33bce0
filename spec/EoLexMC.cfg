SPECIFICATION Spec
INVARIANTS
  InvProgress InvLocal InvLong InvLong2 InvWhite InvSeq InvNum InvStr InvBits InvQuote
CHECK_DEADLOCK FALSE
