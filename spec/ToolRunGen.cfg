SPECIFICATION GSpec
CONSTANTS
  Buffer = 3
  Each = 4
  Inputs = 1
  Rooms <- AnyRoom
  EndsQuietly = FALSE
  Classes = {"profile", "none", "directory", "magic", "version", "cut", "streams", "meta", "three files", "empty", "noise"}
CHECK_DEADLOCK FALSE
