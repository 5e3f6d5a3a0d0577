SPECIFICATION Spec
CONSTANTS MaxBlocks = 2
          MaxContent = 5
          MaxGuess = 2
          FullRun = 2
INVARIANTS Sound Decoding Whole Served Codes AllRight
CHECK_DEADLOCK FALSE
