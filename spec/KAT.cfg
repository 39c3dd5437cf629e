INIT KInit
NEXT KNext
CHECK_DEADLOCK FALSE
