---------------------------- MODULE TR_Medium ----------------------------
EXTENDS Conform, Medium
===========================================================================
