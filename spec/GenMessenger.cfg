INIT MCInit
NEXT MCNext
CONSTANTS
  MaxCalls = 8
  MaxMsgs = 8
  MaxFails = 1
  MaxStops = 2
  MaxStarts = 2
  MsgSet = "full"
  TypeSet = {0, 1, 2, 3}
  MaxLen = 14
  GenId = "SCHED"
CHECK_DEADLOCK FALSE
