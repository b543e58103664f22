---------------------------- MODULE VersionBatch ----------------------------
EXTENDS Version, Batch
=============================================================================
