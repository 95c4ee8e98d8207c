INIT SimInit
NEXT SimNext
CHECK_DEADLOCK FALSE
