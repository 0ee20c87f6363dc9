---------------------------- MODULE T_Exchange ----------------------------
EXTENDS Exchange, Conform
=============================================================================
