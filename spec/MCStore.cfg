SPECIFICATION Spec
CONSTANTS MAXW = 2
          MAXH = 2
          NF = 1
INVARIANTS RoundTrip SameCells Sizes
CHECK_DEADLOCK FALSE
