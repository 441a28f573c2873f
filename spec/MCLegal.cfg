SPECIFICATION Spec
INVARIANTS PrefixLegal HasLayout Emit
