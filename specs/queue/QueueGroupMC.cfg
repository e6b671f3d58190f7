SPECIFICATION Spec
CONSTANTS
  Slop = 0
  Base = {2, 4}
  Retry <- MCRetry
  Delay <- MCDelay
  MaxMsg = 2
  Trans = {10, 20}
  Props = {0, 1}
  MaxWait = 1
  MaxTime = 2
  MaxSteps = @STEPS@
INVARIANTS TypeOK ExactlyOnce NothingLost Durable Home Accounting Counters Known
PROPERTIES Isolation Bounded
CHECK_DEADLOCK FALSE
