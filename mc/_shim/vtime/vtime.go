// Package vtime is the clock of the explorer.
package vtime

import (
	"time"

	"github.com/Ptt-official-app/go-bbs/verifmcshim/vsched"
)

// Base is the time at which the clock of an execution begins.
var Base = time.Unix(1600000000, 0)

func Now() time.Time {
	a := vsched.Point(vsched.Op{Kind: "time"})
	if a.Do == vsched.Value {
		return Base.Add(time.Duration(a.N) * time.Second)
	}
	return time.Now()
}

func Since(t time.Time) time.Duration { return Now().Sub(t) }
func Until(t time.Time) time.Duration { return t.Sub(Now()) }

// Sleep lets others run, no time passes otherwise.
func Sleep(d time.Duration) {
	vsched.Yield()
	vsched.Point(vsched.Op{Kind: "sleep"})
}
