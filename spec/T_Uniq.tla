---- MODULE T_Uniq ----
EXTENDS Uniq, Conform
====
