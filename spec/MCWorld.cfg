SPECIFICATION Spec
CONSTANTS W = 2
          H = 2
          KIND = "square"
          MAXN = 4
INVARIANTS LayersMirror BlankOnlyIfCaught Conserved Accounted OnlyEaters ResetRestores HistEnds BaseFixed
PROPERTIES StepLocal EatenOnce StepCounts
VIEW Hidden
CHECK_DEADLOCK FALSE
