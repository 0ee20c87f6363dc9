---- MODULE T_Store ----
EXTENDS Store, Conform
====
