SPECIFICATION Spec
CONSTANTS
  Profile = "seats"
  Depth = 4
  MaxBlock = 7
  Emit = FALSE
VIEW View
INVARIANTS InvSeats InvDeposits InvStake InvListener InvPrime InvBounded InvPhragmen
PROPERTY Steps
PROPERTY Telling
CHECK_DEADLOCK FALSE
