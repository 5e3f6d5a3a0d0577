SPECIFICATION Spec
CONSTANTS MaxBlocks = 1
          MaxContent = 6
          MaxGuess = 2
          FullRun = 2
INVARIANTS Sound Decoding Whole Served Codes AllRight
CHECK_DEADLOCK FALSE
