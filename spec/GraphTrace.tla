----------------------------- MODULE GraphTrace -----------------------------
EXTENDS Graph, TraceBatch
=============================================================================
