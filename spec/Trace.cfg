SPECIFICATION TraceSpec
INVARIANT Explained
INVARIANT Complete
INVARIANT RemIsSuffix
INVARIANT PosTracks
