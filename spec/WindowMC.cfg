SPECIFICATION Spec
CONSTANTS MaxCap = 3
          Depth = 3
          MaxCopy = 3
          Big = {0, 2, 5}
INVARIANTS Same Bounded Printed
PROPERTY KeepsLast
CHECK_DEADLOCK FALSE
