---------------------------- MODULE T_Reshape ----------------------------
EXTENDS Reshape, Conform
=============================================================================
