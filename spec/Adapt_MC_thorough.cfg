INIT Init
NEXT Next
INVARIANTS Typed Same Keeps
CONSTANTS
  Atoms = {"x", "y", "z"}
  Width = 2
