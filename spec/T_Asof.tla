---- MODULE T_Asof ----
EXTENDS Asof, Conform
====
