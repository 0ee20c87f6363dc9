------------------------------- MODULE T_Span -------------------------------
EXTENDS Span, Conform
=============================================================================
