SPECIFICATION Spec
VIEW View
INVARIANTS Rep Laws
CHECK_DEADLOCK FALSE
