SPECIFICATION Spec
CONSTANTS W = 3
          H = 2
          KIND = "hex"
          TURNS = 3
          CASES = 3
INVARIANTS Budget FullUnlessCaught CaughtOnce OverIffCaught Return RealUntouched OwnOnlyShrinks LayersMirror
PROPERTIES CaughtStay EatersOnly
CHECK_DEADLOCK FALSE
