SPECIFICATION Spec
CONSTANTS
  MaxQueries = 4
  MaxWorkers = 3
  MaxChunk = 1
  CompletionOrder = FALSE
  SharedScratch = FALSE
  Emit = TRUE
INVARIANTS RowsOfOwnQuery NoForeignRow EachOnce
CHECK_DEADLOCK FALSE
