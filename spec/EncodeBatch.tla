----------------------------- MODULE EncodeBatch -----------------------------
EXTENDS Encode, Batch
=============================================================================
