SPECIFICATION Spec
INVARIANTS NothingLost Latest Printed
PROPERTIES Monotonic Settles
CHECK_DEADLOCK FALSE
