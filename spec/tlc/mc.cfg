INIT q_init
NEXT q_step
INVARIANT safe
CONSTRAINT bound
CHECK_DEADLOCK FALSE
