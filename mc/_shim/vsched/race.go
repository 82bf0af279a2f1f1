//go:build race
// +build race

package vsched

import (
	"runtime"
	"unsafe"
)

const tracking = false

// Hand-overs between threads are no synchronisation of the program.
func raceDisable() { runtime.RaceDisable() }
func raceEnable()  { runtime.RaceEnable() }

// but the scheduler sees all that the threads did.
func raceAcquire(p unsafe.Pointer) { runtime.RaceAcquire(p) }
func raceRelease(p unsafe.Pointer) { runtime.RaceRelease(p) }
