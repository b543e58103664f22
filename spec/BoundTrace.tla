----------------------------- MODULE BoundTrace -----------------------------
EXTENDS Bound, TraceBatch
=============================================================================
