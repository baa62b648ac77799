SPECIFICATION TSpec
CONSTANT Threads = {0,1,2,3,4,5,6,7,8}
CONSTANT Tasks = {1,2,3,4,5,6,7,8,9}
CONSTRAINT Report
CHECK_DEADLOCK FALSE
INVARIANTS PTypeOK PDrained PGone
