---- MODULE T_Column ----
EXTENDS Column, Conform
====
