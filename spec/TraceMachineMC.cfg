SPECIFICATION Spec
CONSTANTS Alphabet = {1, 2}
          MaxLen = 5
          MaxGuess = 2
          MinRun = 2
INVARIANTS Lossless OnePerCode RightWhereRight Function
CHECK_DEADLOCK FALSE
