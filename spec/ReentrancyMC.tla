--------------------------- MODULE ReentrancyMC ---------------------------
EXTENDS Reentrancy
=============================================================================
