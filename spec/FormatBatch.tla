---------------------------- MODULE FormatBatch ----------------------------
EXTENDS Format, Batch
=============================================================================
