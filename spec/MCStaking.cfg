SPECIFICATION Spec
CONSTANTS
  Profile = "lists"
  Depth = 4
  MaxBlock = 7
  Emit = FALSE
VIEW VView
INVARIANTS InvBonds InvLists InvAgree InvPool InvMinimums InvPaid InvMoney InvDue InvLeave
PROPERTY Steps
CHECK_DEADLOCK FALSE
