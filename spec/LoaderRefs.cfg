SPECIFICATION Spec
CONSTANTS Part = 0
 Parts = 1
INVARIANTS TableOK VerdictOK Emit
CHECK_DEADLOCK FALSE
