----------------------------- MODULE RegexBatch -----------------------------
EXTENDS Regex, Batch
=============================================================================
