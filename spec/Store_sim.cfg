CONSTANTS Stores = {1, 2} Names = {"a", "b"} MaxOps = 20
 Ops = {"add", "remove", "write", "copy", "scribble", "addbad", "late", "gpu"}
INIT Init
NEXT Next
INVARIANTS Separate LastWriter RefusedChangesNothing Emit
CHECK_DEADLOCK FALSE
