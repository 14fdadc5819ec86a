SPECIFICATION Spec
CONSTANTS MaxW = 5
          MaxH = 5
          MaxWallCells = 6
INVARIANTS Deterministic Contact HexDistOne Compass Reversible Distinct Stay Isolated Preserved IdsInverse
CHECK_DEADLOCK FALSE
