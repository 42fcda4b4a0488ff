SPECIFICATION Spec
CONSTANTS
  Profile = "batches"
  Depth = 4
  MaxBlock = 7
  Emit = FALSE
VIEW VView
INVARIANTS InvCovered InvLocked InvBounded InvMoney
PROPERTY Steps
CHECK_DEADLOCK FALSE
