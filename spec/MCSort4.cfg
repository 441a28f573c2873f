SPECIFICATION Spec
CONSTANTS N = 4
Kinds = {"struct"}
INVARIANTS NeverStuck AlwaysRight Emit
