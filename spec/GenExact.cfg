INIT GenInit
NEXT GenNext
CHECK_DEADLOCK FALSE
