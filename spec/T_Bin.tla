------------------------------- MODULE T_Bin -------------------------------
EXTENDS Bin, Conform
=============================================================================
