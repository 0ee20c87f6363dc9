---- MODULE T_Container ----
EXTENDS Container, Conform
====
