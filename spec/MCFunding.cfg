SPECIFICATION Spec
CONSTANTS
  Profile = "reg"
  Depth = 3
  MaxBlock = 1
  Emit = FALSE
VIEW VView
INVARIANTS InvEscrow InvHolds InvBonds InvCts InvSold InvRewards InvEarly InvMigrations InvActive InvRecords InvWinners InvTickets InvLimits InvMoney
PROPERTY Steps
CHECK_DEADLOCK FALSE
