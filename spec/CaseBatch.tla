----------------------------- MODULE CaseBatch -----------------------------
EXTENDS Case, Batch
=============================================================================
