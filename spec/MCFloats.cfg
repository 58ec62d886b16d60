SPECIFICATION Spec
INVARIANTS Nearest AddSub Bits AngleLaws PiAngles Angles
CHECK_DEADLOCK FALSE
