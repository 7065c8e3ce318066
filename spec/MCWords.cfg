CONSTANT H = 2
SPECIFICATION Spec
INVARIANTS OkLin OkCmp OkBit OkShift OkDiv OkOv OkExt
CHECK_DEADLOCK FALSE
