CONSTANTS Stores = {1} Names = {"a"} MaxOps = 6
 Ops = {"add", "remove", "write", "copy", "late"}
INIT Init
NEXT Next
INVARIANTS Separate LastWriter RefusedChangesNothing Emit
CHECK_DEADLOCK FALSE
