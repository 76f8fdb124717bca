INIT MCInit
NEXT MCNext
CONSTANTS
  MaxCalls = 2
  MaxMsgs = 2
  MaxFails = 1
  MaxStops = 2
  MaxStarts = 2
  MsgSet = "small"
  TypeSet = {0, 1, 2}
  MaxLen = 0
  GenId = "SCHED"
INVARIANTS TypeOK Exclusive CallbackOnce StoppedIsIdle RunsRegistered NoFalseReport QuietIsRight
PROPERTIES StopIsFinal
CHECK_DEADLOCK FALSE
