SPECIFICATION Spec
PROPERTIES Grows
CHECK_DEADLOCK FALSE
