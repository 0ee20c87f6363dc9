---- MODULE T_Join ----
EXTENDS Join, Conform
====
