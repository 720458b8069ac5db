---------------------------- MODULE TR_DirectCurrent ----------------------------
EXTENDS Conform, DirectCurrent
===========================================================================
