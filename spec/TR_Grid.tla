---------------------------- MODULE TR_Grid ----------------------------
EXTENDS Conform, Grid
===========================================================================
