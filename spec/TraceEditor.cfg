SPECIFICATION TraceSpec
INVARIANT Explained
INVARIANT EditorColumns
