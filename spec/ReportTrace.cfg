SPECIFICATION TSpec
CONSTANTS
  Parsers = {}
  Texts = {}
INVARIANTS Explained RefusedIffRejected BuiltIsResult ReportRight PlaceInText EveryMessageHasText
CHECK_DEADLOCK FALSE
