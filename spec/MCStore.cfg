SPECIFICATION Spec
CONSTANTS
  CIDS = {9, 16}
  NMAX = 2
  RUNSMAX = 2
  LOCS = {1, 3}
  TYS = {0, 1, 2, 3, 4, 13}
  MUTANT = "none"
INVARIANT AllProps
CONSTRAINT Bounded
VIEW View
CHECK_DEADLOCK FALSE
