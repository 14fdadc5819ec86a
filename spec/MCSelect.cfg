SPECIFICATION Spec
CONSTANTS LEN = 4
          VALS = {0, 1, 2, 3, 40}
INVARIANTS NeverUnknown NeverInf Dominates NonEmpty Sums Odds ModeIsMax
PROPERTY ShiftFree
CHECK_DEADLOCK FALSE
