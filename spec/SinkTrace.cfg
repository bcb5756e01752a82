SPECIFICATION TSpec
CONSTANTS
  Streams = {1, 2, 3}
  Slack = 262144
CHECK_DEADLOCK FALSE
