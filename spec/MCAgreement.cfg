CONSTANTS Good = {g1, g2, g3} f = f Nil = nil MaxR = 1 Blocks = {a, b} Drop = "none"
SPECIFICATION Spec
SYMMETRY Sym
INVARIANTS Agreement
CHECK_DEADLOCK FALSE
