INIT Init
NEXT Next
INVARIANTS Typed Same Keeps
CONSTANTS
  Atoms = {"x", "y"}
  Width = 2
