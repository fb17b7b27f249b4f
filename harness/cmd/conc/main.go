// Command conc runs requests at the same time; it is built with the race
// detector.
package main

import (
	"os"

	"verif/conc"
)

func main() { conc.Main(os.Args[1]) }
