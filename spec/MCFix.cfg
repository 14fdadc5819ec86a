SPECIFICATION Spec
CONSTANTS STEP = 9973
          TOP = 1500
INVARIANTS MulOk DivOk FracOk ExpOk LnOk SqrtOk
CHECK_DEADLOCK FALSE
