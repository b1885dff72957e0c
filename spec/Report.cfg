SPECIFICATION RSpec
CONSTANTS
  Parsers <- MCParsers
  Texts <- MCTexts
INVARIANTS RefusedIffRejected BuiltIsResult ReportRight PlaceInText EveryMessageHasText
PROPERTY Answers
CHECK_DEADLOCK FALSE
