---------------------------- MODULE FilesTrace ----------------------------
EXTENDS FilesCheck, TraceBatch
=============================================================================
