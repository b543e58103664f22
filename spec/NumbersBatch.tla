---------------------------- MODULE NumbersBatch ----------------------------
EXTENDS Numbers, Batch
=============================================================================
