SPECIFICATION Spec
CONSTANTS
  NameCodes <- CodesIn
  Fuel <- FuelLeft
  FilesOf <- FilesIn
  DirsOf <- DirsIn
CHECK_DEADLOCK FALSE
