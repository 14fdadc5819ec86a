SPECIFICATION Spec
CONSTANTS MaxW = 6
          MaxH = 7
          MaxWallCells = 9
INVARIANTS Deterministic Contact HexDistOne Compass Reversible Distinct Stay Isolated Preserved IdsInverse
CHECK_DEADLOCK FALSE
