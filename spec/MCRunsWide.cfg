SPECIFICATION Spec
CONSTANT Count = 4
INVARIANTS FunctionOfContents SeenIsSound Emit
CHECK_DEADLOCK FALSE
