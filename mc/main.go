// verifmc decides the properties of /verif/properties.jsonl by bounded
// exhaustive exploration of the real code.
package main

import (
	"github.com/batchatco/go-native-netcdf/verifmc/fw"
	_ "github.com/batchatco/go-native-netcdf/verifmc/props"
)

func main() { fw.Main() }
