SPECIFICATION Spec
CONSTANTS
  Profile = "windows"
  Depth = 4
  MaxBlock = 14
  Emit = FALSE
VIEW VView
INVARIANT InvWindow
PROPERTY Steps
PROPERTY OncePerWindow
CHECK_DEADLOCK FALSE
