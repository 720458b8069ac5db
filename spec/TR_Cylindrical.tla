---------------------------- MODULE TR_Cylindrical ----------------------------
EXTENDS Conform, Cylindrical
===========================================================================
