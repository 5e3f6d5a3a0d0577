SPECIFICATION Spec
CONSTANTS Depth = 7
          Inits <- SomeInits
INVARIANTS Same Canonical Printed
CHECK_DEADLOCK FALSE
