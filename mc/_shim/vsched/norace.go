//go:build !race
// +build !race

package vsched

import "unsafe"

const tracking = true

func raceDisable() {}
func raceEnable()  {}

func raceAcquire(p unsafe.Pointer) {}
func raceRelease(p unsafe.Pointer) {}
