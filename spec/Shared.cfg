SPECIFICATION MSpec
CONSTANTS Threads = {1, 2, 3}
          Palette = {0, 1}
          MaxLen = 3
INVARIANT WalksSeeTheContents
CHECK_DEADLOCK FALSE
