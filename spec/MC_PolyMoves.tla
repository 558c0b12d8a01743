--------------------------- MODULE MC_PolyMoves ---------------------------
EXTENDS PolyMoves
TwoShapes == { <<<<0, 0>>, <<16, 0>>, <<8, 24>>>>,
               <<<<16, 8>>, <<40, 8>>, <<24, 16>>, <<32, 40>>, <<8, 32>>>> }
SomeShifts == { <<8, -16>>, <<-24, 0>> }
SomeFactors == { <<2, 1>>, <<1, 2>>, <<-1, 1>>, <<3, 2>> }
===========================================================================
