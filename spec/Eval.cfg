INIT FanInit
NEXT FanNext
INVARIANT Emit
INVARIANT Laws
CHECK_DEADLOCK FALSE
