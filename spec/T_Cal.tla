------------------------------- MODULE T_Cal -------------------------------
EXTENDS Cal, Conform
=============================================================================
