SPECIFICATION Spec
VIEW MCView
CONSTANTS MaxBlocks = 2
          MaxCodes = 1
INVARIANTS NoFault Prefix RoundTrip CutFaults Definitions
PROPERTY Progress
CHECK_DEADLOCK FALSE
