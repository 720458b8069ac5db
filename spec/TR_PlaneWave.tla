---------------------------- MODULE TR_PlaneWave ----------------------------
EXTENDS Conform, PlaneWave
===========================================================================
