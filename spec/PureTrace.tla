----------------------------- MODULE PureTrace ------------------------------
EXTENDS Pure, TraceBatch
=============================================================================
