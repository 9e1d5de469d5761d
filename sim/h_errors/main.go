//go:build go1.22

// Command h_errors simulates users of package errorsWithData.
package main

import "github.com/GottfriedHerold/Bandersnatch/internal/verifsim/core"

func main() { core.Main("errors") }
