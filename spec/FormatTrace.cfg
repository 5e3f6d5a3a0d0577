SPECIFICATION Spec
CONSTANT FullRun = 32767
VIEW View
CHECK_DEADLOCK FALSE
