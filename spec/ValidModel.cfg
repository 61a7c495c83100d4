SPECIFICATION Spec
CONSTANTS
  nv = 4
  ne = 3
  Damages = 1
INVARIANTS Verdict SoundMeshes
CHECK_DEADLOCK FALSE
