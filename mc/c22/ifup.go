package main

import (
	"syscall"
	"unsafe"
)

func ifup(s int) {
	var req struct {
		name  [16]byte
		flags uint16
		pad   [22]byte
	}
	copy(req.name[:], "lo")
	req.flags = syscall.IFF_UP | syscall.IFF_RUNNING
	syscall.Syscall(syscall.SYS_IOCTL, uintptr(s), syscall.SIOCSIFFLAGS, uintptr(unsafe.Pointer(&req)))
}
