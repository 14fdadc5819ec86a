SPECIFICATION Spec
CONSTANTS NS = 2
          REW = {0, 1, 3}
          SC = 1024
INVARIANTS Optimal Greedy Accepts Rejects
CHECK_DEADLOCK FALSE
