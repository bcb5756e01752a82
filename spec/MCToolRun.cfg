SPECIFICATION MSpec
CONSTANTS
  Buffer = 3
  Each = 4
  Inputs = 3
  Rooms <- AnyRoom
  EndsQuietly = FALSE
  Classes = {"profile", "none", "directory", "magic", "version", "cut", "streams", "meta", "three files", "empty", "noise"}
INVARIANT Told
PROPERTY Ends
CHECK_DEADLOCK FALSE
