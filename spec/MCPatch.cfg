SPECIFICATION Spec
CONSTANT Depth = 2
INVARIANTS OkIsLegal AbsentIgnored Commutes Emit
