SPECIFICATION Spec
CONSTANTS MaxCap = 4
          Depth = 4
          MaxCopy = 5
          Big = {0, 2, 7}
INVARIANTS Same Bounded Printed
PROPERTY KeepsLast
CHECK_DEADLOCK FALSE
