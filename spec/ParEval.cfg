SPECIFICATION Spec
INVARIANTS OnceEach OwnValue AllDone
PROPERTY Ends
CHECK_DEADLOCK FALSE
