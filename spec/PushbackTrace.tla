--------------------------- MODULE PushbackTrace ---------------------------
EXTENDS Pushback, TraceBatch
=============================================================================
