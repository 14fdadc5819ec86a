SPECIFICATION Spec
CONSTANTS STEP = 997
          TOP = 15000
INVARIANTS MulOk DivOk FracOk ExpOk LnOk SqrtOk
CHECK_DEADLOCK FALSE
