SPECIFICATION MSpec
CONSTANT Slots = {0,1,2}
CONSTANT Fns = {1,2,3,4,5}
CONSTANT MaxOps = 4
INVARIANTS OneOwner OwnedLive NoOrphan
PROPERTIES Once
