---- MODULE T_Cells ----
EXTENDS Cells, Conform
====
