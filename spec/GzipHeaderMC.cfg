SPECIFICATION Spec
CONSTANTS Extras = {0, 1, 2}
          Texts <- SomeTexts
          Damage <- SomeDamage
INVARIANTS Exact Goes Printed
CHECK_DEADLOCK FALSE
