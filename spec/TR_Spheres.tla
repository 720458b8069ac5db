---------------------------- MODULE TR_Spheres ----------------------------
EXTENDS Conform, Spheres
===========================================================================
