SPECIFICATION Spec
CONSTANTS
  MaxQueries = 4
  MaxWorkers = 3
  MaxChunk = 2
  CompletionOrder = FALSE
  SharedScratch = FALSE
  Emit = FALSE
INVARIANTS RowsOfOwnQuery NoForeignRow EachOnce
CHECK_DEADLOCK FALSE
