SPECIFICATION MSpec
CONSTANTS
  NCases <- MNC
  CaseAt <- CaseOf
INVARIANT AppliedInPlace
INVARIANT AcceptInPlace
INVARIANT RejectInPlace
INVARIANT Agreement
INVARIANT Monotone
INVARIANT OnlyNeeded
