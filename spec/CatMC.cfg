SPECIFICATION Spec
CONSTANTS L = 2
 N = 2
 DEPTH = 2
INVARIANTS WellFormed RoundTrip OnlyNamed Answers
CHECK_DEADLOCK FALSE
