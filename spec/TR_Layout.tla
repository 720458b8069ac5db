---------------------------- MODULE TR_Layout ----------------------------
EXTENDS Conform, Layout
===========================================================================
