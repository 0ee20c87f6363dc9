---- MODULE T_Sort ----
EXTENDS Sort, Conform
====
