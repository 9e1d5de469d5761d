//go:build race

package rt

import (
	"runtime"
	"unsafe"
)

const RaceBuild = true

//go:norace
func raceDisable() { runtime.RaceDisable() }

//go:norace
func raceEnable() { runtime.RaceEnable() }

//go:norace
func raceAcquire(p *byte) { runtime.RaceAcquire(unsafe.Pointer(p)) }

//go:norace
func raceReleaseMerge(p *byte) { runtime.RaceReleaseMerge(unsafe.Pointer(p)) }

//go:norace
func raceRelease(p *byte) { runtime.RaceRelease(unsafe.Pointer(p)) }

// RaceErrors returns the number of data races reported so far.
func RaceErrors() int { return runtime.RaceErrors() }
