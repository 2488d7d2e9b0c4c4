//go:build race

package zsim

import (
	"runtime"
	"unsafe"
)

//go:linkname racegoend runtime.racegoend
func racegoend()

// raceTaskEnd gives back what the race detector keeps for the running
// goroutine, which must not execute instrumented code any more.
func raceTaskEnd() { racegoend() }

const RaceEnabled = true

func raceAcquire(p unsafe.Pointer)      { runtime.RaceAcquire(p) }
func raceRelease(p unsafe.Pointer)      { runtime.RaceRelease(p) }
func raceReleaseMerge(p unsafe.Pointer) { runtime.RaceReleaseMerge(p) }
