SPECIFICATION TraceSpec
INVARIANTS Explained UniqueNames RemIsSuffix PosTracks
CHECK_DEADLOCK FALSE
