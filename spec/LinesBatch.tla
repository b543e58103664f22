----------------------------- MODULE LinesBatch -----------------------------
EXTENDS Lines, Batch
=============================================================================
