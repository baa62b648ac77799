SPECIFICATION MSpec
CONSTANT Threads = {0,1,2,3,4,5,6}
CONSTANT Tasks = {1,2,3,4,5,6,7,8,9}
INVARIANTS PTypeOK PDrained PGone MEnd
PROPERTIES PForward
