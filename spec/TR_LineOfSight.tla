---------------------------- MODULE TR_LineOfSight ----------------------------
EXTENDS Conform, LineOfSight
===========================================================================
