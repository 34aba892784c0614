SPECIFICATION TSpec
CONSTANTS Threads = {1}
          Palette = {0}
          MaxLen = 0
