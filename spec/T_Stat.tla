------------------------------- MODULE T_Stat -------------------------------
EXTENDS Stat, Conform
=============================================================================
