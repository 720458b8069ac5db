---------------------------- MODULE TR_Transient ----------------------------
EXTENDS Conform, Transient
===========================================================================
