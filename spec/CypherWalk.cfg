SPECIFICATION Spec
CHECK_DEADLOCK FALSE
INVARIANTS PrefixOut Emit
