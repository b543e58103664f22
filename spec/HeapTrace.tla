----------------------------- MODULE HeapTrace -----------------------------
EXTENDS Heap, TraceBatch
=============================================================================
