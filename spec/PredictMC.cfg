SPECIFICATION Spec
CONSTANTS Alphabet = {79, 111}
          MinLen = 0
          MaxLen = 7
          MaxPre = 2
INVARIANTS IndexRight FastIsPlain PredictsRight Printed
CHECK_DEADLOCK FALSE
