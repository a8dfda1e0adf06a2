SPECIFICATION Spec
CONSTANTS
    Ds = {0, 1, 16384, 32767}
    MaxDigits = 3
INVARIANTS Canon AddLaws MulLaws Order BitLaws
CHECK_DEADLOCK FALSE
