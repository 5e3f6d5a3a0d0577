SPECIFICATION Spec
CONSTANTS Extras = {0, 1, 3, 260}
          Texts <- MoreTexts
          Damage <- SomeDamage
INVARIANTS Exact Goes Printed
CHECK_DEADLOCK FALSE
