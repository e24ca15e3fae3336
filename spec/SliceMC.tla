------------------------------ MODULE SliceMC ------------------------------
EXTENDS Slice
BigP == {1000, 999}
BigM == {-1000, -999}
LensQ == 0..6
ValsQ == (-9..9) \cup BigP \cup BigM \cup {N}
StepsQ == ((-8..8) \ {0}) \cup BigP \cup BigM \cup {N}
LensT == 0..12
ValsT == (-15..15) \cup BigP \cup BigM \cup {N}
StepsT == ((-14..14) \ {0}) \cup BigP \cup BigM \cup {N}
=============================================================================
