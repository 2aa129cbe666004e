CONSTANTS Stores = {1} Names = {"a", "b"} MaxOps = 4
 Ops = {"add", "remove", "write", "copy", "scribble", "addbad"}
INIT Init
NEXT Next
INVARIANTS Separate LastWriter RefusedChangesNothing Emit
CHECK_DEADLOCK FALSE
