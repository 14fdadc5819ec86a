SPECIFICATION Spec
CONSTANTS W = 3
          H = 2
          KIND = "hex"
          MAXN = 6
INVARIANTS LayersMirror BlankOnlyIfCaught Conserved Accounted OnlyEaters ResetRestores HistEnds BaseFixed
PROPERTIES StepLocal EatenOnce StepCounts
VIEW Hidden
CHECK_DEADLOCK FALSE
