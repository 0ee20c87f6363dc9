SPECIFICATION Spec
CONSTANTS LastYear = 2040
          SecStep = 86400
INVARIANTS CalendarAgrees RoundTrip TextAgrees
PROPERTY OffsetSteps
CHECK_DEADLOCK FALSE
