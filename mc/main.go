package main

import (
	"verif/mc/core"
	_ "verif/mc/rolec"
	_ "verif/mc/rootc"
	_ "verif/mc/utilc"
	_ "verif/mc/v1c"
	_ "verif/mc/v2c"
)

func main() { core.Main() }
