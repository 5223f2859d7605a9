SPECIFICATION TSpec
INVARIANTS ResultOK ContentOK CountOK IterationOK HeapOK UsageOK TrieEmptyOK SizeOK
ALIAS Alias
CHECK_DEADLOCK FALSE
