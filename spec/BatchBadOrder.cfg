SPECIFICATION Spec
CONSTANTS
  MaxQueries = 3
  MaxWorkers = 2
  MaxChunk = 1
  CompletionOrder = TRUE
  SharedScratch = FALSE
  Emit = FALSE
INVARIANTS RowsOfOwnQuery NoForeignRow EachOnce
CHECK_DEADLOCK FALSE
