---------------------------- MODULE TR_MagPrism ----------------------------
EXTENDS Conform, MagPrism
===========================================================================
