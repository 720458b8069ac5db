-------------------------- MODULE TR_Superposition --------------------------
EXTENDS Conform, Superposition
===========================================================================
