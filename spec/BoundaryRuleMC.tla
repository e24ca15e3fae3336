---------------------------- MODULE BoundaryRuleMC ----------------------------
EXTENDS BoundaryRule
XsD == {1, 2, 7}
PsD == {-9, -5, -2, -1, 0, 3}
TausD == {<<1, 1>>, <<99, 100>>, <<1, 2>>, <<995, 1000>>}
XsB == {1, 2, 3, 7, 100}
PsB == {-900, -9, -7, -5, -3, -2, -1, 0, 1, 8}
=============================================================================
