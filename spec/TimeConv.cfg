SPECIFICATION TSpec
CONSTANT Units = {"Seconds", "Milliseconds", "None", "", "Bytes"}
INVARIANTS RoundTrip Emit
CHECK_DEADLOCK FALSE
