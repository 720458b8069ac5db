------------------------------ MODULE TR_Raster ------------------------------
EXTENDS Conform, Raster
===========================================================================
