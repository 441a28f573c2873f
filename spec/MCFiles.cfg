SPECIFICATION Spec
CONSTANTS Wide = FALSE
INVARIANTS Once Independent Emit
