---------------------------- MODULE QuotesBatch ----------------------------
EXTENDS Quotes, Batch
=============================================================================
