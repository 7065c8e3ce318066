CONSTANT QB = 2
SPECIFICATION Spec
INVARIANTS OkRT OkAdd OkSub OkMul OkDiv OkCmp OkShift OkLen
CHECK_DEADLOCK FALSE
