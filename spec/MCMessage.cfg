SPECIFICATION Spec
CONSTANT Depth = 3
INVARIANTS Emit AlwaysValid AlwaysEncodable
