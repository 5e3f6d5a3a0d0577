SPECIFICATION Spec
CONSTANTS Alphabet = {1, 2}
          MaxLen = 6
          MaxGuess = 3
          MinRun = 2
INVARIANTS Lossless OnePerCode RightWhereRight Function
CHECK_DEADLOCK FALSE
