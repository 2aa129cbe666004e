CONSTANTS Stores = {1, 2} Names = {"a"} MaxOps = 5
 Ops = {"add", "remove", "write", "copy"}
INIT Init
NEXT Next
INVARIANTS Separate LastWriter RefusedChangesNothing Emit
CHECK_DEADLOCK FALSE
