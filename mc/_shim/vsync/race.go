//go:build race
// +build race

package vsync

import (
	"runtime"
	"unsafe"
)

func acquire(p unsafe.Pointer)      { runtime.RaceAcquire(p) }
func release(p unsafe.Pointer)      { runtime.RaceRelease(p) }
func releaseMerge(p unsafe.Pointer) { runtime.RaceReleaseMerge(p) }
