SPECIFICATION Spec
CONSTANT MaxDepth = 1000
INVARIANTS WellFormed Encodes Sized RoundTrip Merges ErrStays Plan
CHECK_DEADLOCK FALSE
