---------------------------- MODULE TR_Kernels ----------------------------
EXTENDS Conform, Kernels
===========================================================================
