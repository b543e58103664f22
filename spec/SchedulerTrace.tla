--------------------------- MODULE SchedulerTrace ---------------------------
EXTENDS Scheduler, TraceBatch
=============================================================================
