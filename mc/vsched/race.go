//go:build race

package vsched

import "runtime"

// Race tells that the race detector watches.
const Race = true

func quiet()   { runtime.RaceDisable() }
func unquiet() { runtime.RaceEnable() }
