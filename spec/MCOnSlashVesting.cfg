SPECIFICATION Spec
CONSTANTS
  Profile = "curves"
  Depth = 4
  MaxBlock = 7
  Emit = FALSE
VIEW View
INVARIANTS InvPromises InvLock InvBounded InvEveryBlock
PROPERTY Steps
CHECK_DEADLOCK FALSE
