SPECIFICATION TSpec
CONSTANT Slots = {0,1,2,3,4}
CONSTANT Fns = {1,2,3,4,5,6,7,8,9,10,11,12,13,14,15,16}
CONSTRAINT Report
CHECK_DEADLOCK FALSE
INVARIANTS OneOwner OwnedLive
