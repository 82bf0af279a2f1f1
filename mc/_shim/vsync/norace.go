//go:build !race
// +build !race

package vsync

import "unsafe"

func acquire(p unsafe.Pointer)      {}
func release(p unsafe.Pointer)      {}
func releaseMerge(p unsafe.Pointer) {}
