SPECIFICATION Spec
CONSTANTS Depth = 5
          Inits <- SomeInits
INVARIANTS Same Canonical Printed
CHECK_DEADLOCK FALSE
