----------------------------- MODULE LatticeMC2 -----------------------------
EXTENDS LatticeMC
Small == -3..3
Smaller == -1..1
=============================================================================
