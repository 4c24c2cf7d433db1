//go:build !race

package rt

import "unsafe"

// RaceBuild reports whether the race detector is compiled in.
const RaceBuild = false

func raceDisable()                 {}
func raceEnable()                  {}
func raceAcquire(p unsafe.Pointer) {}
func raceRelease(p unsafe.Pointer) {}

// RaceErrors is the number of data races reported so far in this process.
func RaceErrors() int { return 0 }

// RaceWriteRange tells the detector that the calling goroutine wrote b.
func RaceWriteRange(b []byte) {}

// RaceReadRange tells the detector that the calling goroutine read b.
func RaceReadRange(b []byte) {}
