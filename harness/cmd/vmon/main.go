package main

import (
	"os"

	_ "verif/checks"
	"verif/rt"
)

func main() { os.Exit(rt.Main(os.Args[1:])) }
