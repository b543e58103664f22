----------------------------- MODULE TimeBatch -----------------------------
EXTENDS TimeCheck, Batch
=============================================================================
