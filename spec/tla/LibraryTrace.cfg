SPECIFICATION TSpec
INVARIANTS RaceFree AbsOK
CHECK_DEADLOCK TRUE
