---------------------------- MODULE DelimsBatch ----------------------------
EXTENDS Delims, Batch
=============================================================================
