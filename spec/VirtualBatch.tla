---------------------------- MODULE VirtualBatch ----------------------------
EXTENDS Virtual, Batch
=============================================================================
