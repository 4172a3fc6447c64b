SPECIFICATION Spec
VIEW View
INVARIANTS Laws
CHECK_DEADLOCK FALSE
