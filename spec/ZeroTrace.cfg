SPECIFICATION Spec
VIEW ZView
CHECK_DEADLOCK FALSE
