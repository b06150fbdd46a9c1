package rt

// os.Exit writes the coverage counters of a -cover build by itself.
func flushCoverage() {}
