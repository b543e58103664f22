------------------------------ MODULE LogTrace ------------------------------
EXTENDS Log, TraceBatch
=============================================================================
