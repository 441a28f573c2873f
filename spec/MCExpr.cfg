SPECIFICATION Spec
CONSTANTS Operands = 4
Parens = 1
Minuses = 1
INVARIANTS Stable Emit
