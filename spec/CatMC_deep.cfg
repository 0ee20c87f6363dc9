SPECIFICATION Spec
CONSTANTS L = 3
 N = 2
 DEPTH = 2
INVARIANTS WellFormed RoundTrip OnlyNamed Answers
CHECK_DEADLOCK FALSE
