SPECIFICATION Spec
CONSTANTS N = 5
Kinds = {"struct"}
INVARIANTS NeverStuck AlwaysRight Emit
