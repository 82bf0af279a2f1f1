// Package vsyscall is package syscall with locks which the explorer waits for.
package vsyscall

import (
	"fmt"
	"os"
	"path/filepath"
	"syscall"

	"github.com/Ptt-official-app/go-bbs/verifmcshim/vsched"
)

func Exit(code int) { vsched.Exit("syscall.Exit") }

// Flock takes real locks; a thread which has to wait is not run until it can have the lock.
func Flock(fd int, how int) error {
	kind := "lock"
	if how&syscall.LOCK_UN != 0 {
		kind = "unlock"
	}
	name, _ := os.Readlink(fmt.Sprintf("/proc/self/fd/%d", fd))
	name = filepath.Base(name)
	if a := vsched.Point(vsched.Op{Kind: kind, Name: name, N: int64(how)}); a.Do == vsched.Fail {
		return a.Err
	}
	if kind == "unlock" || how&syscall.LOCK_NB != 0 {
		err := syscall.Flock(fd, how)
		if err == syscall.EWOULDBLOCK {
			vsched.Yield()
		}
		return err
	}
	for {
		err := syscall.Flock(fd, how|syscall.LOCK_NB)
		if err == syscall.EINTR {
			continue
		}
		if err != syscall.EWOULDBLOCK {
			return err
		}
		vsched.Point(vsched.Op{Kind: "wait", Name: name, N: int64(how), Ready: func() bool { return free(fd, how) }})
	}
}

// free says whether the lock could be taken by another open file, as this one has none now.
func free(fd, how int) bool {
	f, err := os.Open(fmt.Sprintf("/proc/self/fd/%d", fd))
	if err != nil {
		f, err = os.OpenFile(fmt.Sprintf("/proc/self/fd/%d", fd), os.O_WRONLY, 0)
		if err != nil {
			return true
		}
	}
	defer f.Close()
	return syscall.Flock(int(f.Fd()), how|syscall.LOCK_NB) == nil
}
