----------------------------- MODULE WordsBatch -----------------------------
EXTENDS Words, Batch
=============================================================================
