SPECIFICATION Spec
CONSTANTS KIND = "hex"
          W = 3
          H = 2
          STAY = 0
          MAXFIT = 2
          LEN = 3
INVARIANTS ClosedForm Bounded ResetRestores Matches Lines Norms Averages Mass
PROPERTIES Stable
CHECK_DEADLOCK FALSE
