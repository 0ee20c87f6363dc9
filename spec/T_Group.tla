---- MODULE T_Group ----
EXTENDS Group, Conform
====
