SPECIFICATION Spec
CONSTANT Count = 3
INVARIANTS FunctionOfContents SeenIsSound Emit
CHECK_DEADLOCK FALSE
