INIT Init
NEXT Next
CONSTANTS MaxItems = 1
          Rich = TRUE
INVARIANTS SplitsCorrectly BackInText Dump
CHECK_DEADLOCK FALSE
