----------------------------- MODULE GrepBatch -----------------------------
EXTENDS Grep, Batch
=============================================================================
