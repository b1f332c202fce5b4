package hexreader

func vSetProcs(n int) { numProc = n }
