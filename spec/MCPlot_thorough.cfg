SPECIFICATION Spec
CONSTANTS MAXW = 8
          MAXH = 8
INVARIANTS Apart Touching SameWay Rounding
CHECK_DEADLOCK FALSE
