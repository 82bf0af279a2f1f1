// bbstool of the tree, with one operation on files which fails: C23_FAULT=N:I is answer I to operation N.
// It exits with 40 when there is no such answer, and with 41 when there is no such operation.
package main

import (
	"fmt"
	"os"
	"syscall"

	"github.com/Ptt-official-app/go-bbs/cmd/bbstool"
	"github.com/Ptt-official-app/go-bbs/verifmcshim/vsched"

	"verifmc/vx"
)

func faults(o vsched.Op) (l []vsched.Act) {
	switch o.Kind {
	case "open", "create", "stat", "remove", "rename", "mkdir", "truncate", "readdir", "link", "symlink", "chmod":
		l = append(l, vsched.Act{Do: vsched.Fail, Err: syscall.EACCES}, vsched.Act{Do: vsched.Fail, Err: syscall.EIO})
	case "read", "readat":
		l = append(l, vsched.Act{Do: vsched.Fail, Err: syscall.EIO})
		for _, k := range []int64{1, o.N / 2} {
			if k > 0 && k < o.N {
				l = append(l, vsched.Act{Do: vsched.Short, N: k})
			}
		}
	case "write", "writeat":
		l = append(l, vsched.Act{Do: vsched.Fail, Err: syscall.ENOSPC})
		if o.N > 1 {
			l = append(l, vsched.Act{Do: vsched.Fail, N: o.N / 2, Err: syscall.ENOSPC})
		}
	case "seek", "close", "fstat", "ftruncate", "sync", "unlock":
		l = append(l, vsched.Act{Do: vsched.Fail, Err: syscall.EIO})
	case "lock":
		l = append(l, vsched.Act{Do: vsched.Fail, Err: syscall.ENOLCK})
	}
	return l
}

func main() {
	var at, which int
	if _, err := fmt.Sscanf(os.Getenv("C23_FAULT"), "%d:%d", &at, &which); err != nil {
		panic(err)
	}
	n, numbers := 0, int64(0)
	p := vx.Single(func(o vsched.Op) vsched.Act {
		switch o.Kind {
		case "time":
			return vsched.Act{Do: vsched.Value, N: 1600000000}
		case "rand", "seed":
			numbers++
			return vsched.Act{Do: vsched.Value, N: 5 + numbers}
		}
		l := faults(o)
		if len(l) == 0 {
			return vsched.Act{}
		}
		n++
		if n-1 != at {
			return vsched.Act{}
		}
		if which >= len(l) {
			os.Exit(40)
		}
		fmt.Fprintf(os.Stderr, "FAULT %v: %v\n", o, l[which])
		return l[which]
	}, func() { bbstool.VerifMain() })
	if p != nil {
		if e, ok := p.What.(vsched.Ended); ok {
			fmt.Println(e.What)
			os.Exit(1)
		}
		fmt.Fprintf(os.Stderr, "panic: %v\n%s\n", p.What, p.Stack)
		os.Exit(2)
	}
	if at >= 0 && n <= at {
		os.Exit(41)
	}
}
