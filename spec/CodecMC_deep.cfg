SPECIFICATION Spec
VIEW MCView
CONSTANTS MaxBlocks = 2
          MaxCodes = 2
INVARIANTS NoFault Prefix RoundTrip CutFaults Definitions
PROPERTY Progress
CHECK_DEADLOCK FALSE
