SPECIFICATION MSpec
CONSTANT Threads = {1,2,3}
CONSTANT MaxCount = 2
CONSTANT MaxOps = 2
CHECK_DEADLOCK FALSE
INVARIANTS LTypeOK LNoEarly LOpenIffZero LNoUseAfterDelete
PROPERTIES LMonotone MLive
