SPECIFICATION Spec
CONSTANTS Wide = TRUE
INVARIANTS Once Independent Emit
