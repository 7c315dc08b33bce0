SPECIFICATION MCSpec
CONSTANTS
  NameCodes <- CodesIn
  Fuel <- FuelLeft
  FilesOf <- FilesIn
  DirsOf <- DirsIn
VIEW View
INVARIANTS
  InvNames InvScopes InvSorry InvSound InvAsms
CHECK_DEADLOCK FALSE
