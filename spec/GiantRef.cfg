SPECIFICATION Spec
CONSTANTS M = 3
          Short = 100
          MaxN = 4
INVARIANTS Answers Agree Queries Iterators Swept
CHECK_DEADLOCK FALSE
