SPECIFICATION Spec
CONSTANTS
  Profile = "creds"
  Depth = 4
  MaxBlock = 7
  Emit = FALSE
VIEW VView
INVARIANTS InvOnce InvLocked InvEnd InvBounded InvMoney
PROPERTY Steps
CHECK_DEADLOCK FALSE
