SPECIFICATION Spec
INVARIANTS Denotes MemoSound Furthest Progress Bounded Spans Foreseen Laws
PROPERTIES Final Monotone Terminates
CONSTANTS Memo = TRUE Predict = TRUE
CHECK_DEADLOCK TRUE
