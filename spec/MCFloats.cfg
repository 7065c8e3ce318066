CONSTANT QB = 15
SPECIFICATION Spec
INVARIANTS OkRT OkAdd OkMul OkDiv OkCmp OkSpecial OkTrunc
CHECK_DEADLOCK FALSE
