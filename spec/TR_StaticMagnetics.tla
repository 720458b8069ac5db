---------------------------- MODULE TR_StaticMagnetics ----------------------------
EXTENDS Conform, StaticMagnetics
===========================================================================
