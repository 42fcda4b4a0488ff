SPECIFICATION Spec
CONSTANTS
  Profile = "votes"
  Depth = 4
  MaxBlock = 7
  Emit = FALSE
VIEW View
INVARIANTS InvTally InvLocks InvDeposits InvQueue InvTime InvBounded InvEnact InvBars InvMeta
PROPERTY Steps
PROPERTY Telling
CHECK_DEADLOCK FALSE
