// Package vrand is math/rand with numbers chosen by the explorer.
package vrand

import (
	"math/rand"

	"github.com/Ptt-official-app/go-bbs/verifmcshim/vsched"
)

func choose(n int64) (int64, bool) {
	a := vsched.Point(vsched.Op{Kind: "rand", N: n})
	if a.Do == vsched.Value {
		return a.N, true
	}
	return 0, false
}

func Seed(seed int64) {
	if a := vsched.Point(vsched.Op{Kind: "seed"}); a.Do != vsched.Value {
		rand.Seed(seed)
	}
}

func Intn(n int) int {
	if v, ok := choose(int64(n)); ok && n > 0 {
		return int(v % int64(n))
	}
	return rand.Intn(n)
}

func Int31n(n int32) int32 {
	if v, ok := choose(int64(n)); ok && n > 0 {
		return int32(v % int64(n))
	}
	return rand.Int31n(n)
}

func Int63n(n int64) int64 {
	if v, ok := choose(n); ok && n > 0 {
		return v % n
	}
	return rand.Int63n(n)
}

func Int() int {
	if v, ok := choose(1 << 62); ok {
		return int(v)
	}
	return rand.Int()
}

func Int31() int32 {
	if v, ok := choose(1 << 31); ok {
		return int32(v)
	}
	return rand.Int31()
}

func Int63() int64 {
	if v, ok := choose(1 << 62); ok {
		return v
	}
	return rand.Int63()
}

func Uint32() uint32 {
	if v, ok := choose(1 << 32); ok {
		return uint32(v)
	}
	return rand.Uint32()
}

func Uint64() uint64 {
	if v, ok := choose(1 << 62); ok {
		return uint64(v)
	}
	return rand.Uint64()
}
