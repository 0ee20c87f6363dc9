---- MODULE T_Cat ----
EXTENDS Cat, Conform
====
