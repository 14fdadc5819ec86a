SPECIFICATION Spec
CONSTANTS KIND = "square"
          W = 2
          H = 2
          STAY = 1
          MAXFIT = 2
          LEN = 2
INVARIANTS ClosedForm Bounded ResetRestores Matches Lines Norms Averages Mass
PROPERTIES Stable
CHECK_DEADLOCK FALSE
