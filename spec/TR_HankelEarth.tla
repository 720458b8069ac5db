---------------------------- MODULE TR_HankelEarth ----------------------------
EXTENDS Conform, HankelEarth
===========================================================================
