package main

import (
	"modelconvmc/engine"
	_ "modelconvmc/props"
)

func main() { engine.Main() }
