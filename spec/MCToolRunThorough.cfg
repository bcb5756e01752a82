SPECIFICATION MSpec
CONSTANTS
  Buffer = 5
  Each = 7
  Inputs = 4
  Rooms <- AnyRoom
  EndsQuietly = FALSE
  Classes = {"profile", "none", "directory", "magic", "version", "cut", "streams", "meta", "three files", "empty", "noise"}
INVARIANT Told
PROPERTY Ends
CHECK_DEADLOCK FALSE
