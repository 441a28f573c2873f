SPECIFICATION Spec
CONSTANTS N = 3
Kinds = {"const", "enum", "typedef", "struct", "union"}
INVARIANTS NeverStuck AlwaysRight Emit
