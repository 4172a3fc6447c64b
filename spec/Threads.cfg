SPECIFICATION Spec
INVARIANTS WorkerLimit NoRace OnceAndRight AsSequential
PROPERTY Ends
CHECK_DEADLOCK FALSE
