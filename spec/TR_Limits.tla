---------------------------- MODULE TR_Limits ----------------------------
EXTENDS Conform, Limits
===========================================================================
