SPECIFICATION Spec
CONSTANTS MAXW = 5
          MAXH = 5
INVARIANTS Apart Touching SameWay Rounding
CHECK_DEADLOCK FALSE
