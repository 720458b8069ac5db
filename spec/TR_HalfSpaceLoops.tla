---------------------------- MODULE TR_HalfSpaceLoops ----------------------------
EXTENDS Conform, HalfSpaceLoops
===========================================================================
