------------------------------ MODULE T_Stack ------------------------------
EXTENDS Stack, Conform
=============================================================================
