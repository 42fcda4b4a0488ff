SPECIFICATION Spec
CONSTANTS
  Profile = "claims"
  Depth = 4
  MaxBlock = 7
  Emit = FALSE
VIEW VView
INVARIANTS InvCovered InvReachable InvBounded InvMoney InvEnds InvAllClaimable
PROPERTY Steps
CHECK_DEADLOCK FALSE
