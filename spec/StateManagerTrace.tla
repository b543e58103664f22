------------------------- MODULE StateManagerTrace -------------------------
EXTENDS StateManager, TraceBatch
=============================================================================
