------------------------------- MODULE T_Str -------------------------------
EXTENDS Str, Conform
=============================================================================
