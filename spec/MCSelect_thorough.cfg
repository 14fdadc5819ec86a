SPECIFICATION Spec
CONSTANTS LEN = 5
          VALS = {0, 1, 2, 3, 9, 40}
INVARIANTS NeverUnknown NeverInf Dominates NonEmpty Sums Odds ModeIsMax
PROPERTY ShiftFree
CHECK_DEADLOCK FALSE
