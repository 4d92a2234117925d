//go:build !race

package vsched

// Race tells that the race detector watches.
const Race = false

func quiet()   {}
func unquiet() {}
