SPECIFICATION Spec
CONSTANTS MaxBlocks = 2
          MaxContent = 4
          MaxGuess = 1
          FullRun = 2
INVARIANTS Sound Decoding Whole Served Codes AllRight
CHECK_DEADLOCK FALSE
