SPECIFICATION TSpec
CONSTANTS M = 1048576
          Short = 2000
