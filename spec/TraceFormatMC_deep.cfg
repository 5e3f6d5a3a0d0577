SPECIFICATION Spec
CONSTANTS FullRun = 3
          Depth = 4
          Dists = {1, 256, 32768}
          Lens = {3, 258}
          Runs = {1, 2, 3, 4, 6, 7}
INVARIANTS Lossless CutIsSeen Unique Printed
CHECK_DEADLOCK FALSE
