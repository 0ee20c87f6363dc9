------------------------------ MODULE T_Accum ------------------------------
EXTENDS Accum, Conform
=============================================================================
