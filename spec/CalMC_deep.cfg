SPECIFICATION Spec
CONSTANTS LastYear = 2040
          SecStep = 7200
INVARIANTS CalendarAgrees RoundTrip TextAgrees
PROPERTY OffsetSteps
CHECK_DEADLOCK FALSE
