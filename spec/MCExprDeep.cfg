SPECIFICATION Spec
CONSTANTS Operands = 4
Parens = 2
Minuses = 2
INVARIANTS Stable Emit
