//go:build !race

package rt

const RaceBuild = false

func raceDisable()             {}
func raceEnable()              {}
func raceAcquire(p *byte)      {}
func raceReleaseMerge(p *byte) {}
func raceRelease(p *byte)      {}

// RaceErrors returns the number of data races reported so far.
func RaceErrors() int { return 0 }
