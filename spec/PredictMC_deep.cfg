SPECIFICATION Spec
CONSTANTS Alphabet = {79, 111}
          MinLen = 0
          MaxLen = 9
          MaxPre = 3
INVARIANTS IndexRight FastIsPlain PredictsRight Printed
CHECK_DEADLOCK FALSE
