----------------------------- MODULE SplitBatch -----------------------------
EXTENDS Split, Batch
=============================================================================
