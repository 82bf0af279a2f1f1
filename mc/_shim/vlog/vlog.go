// Package vlog is package log which does not end the process.
package vlog

import (
	"fmt"

	"github.com/Ptt-official-app/go-bbs/verifmcshim/vsched"
)

func Fatal(v ...interface{})                 { vsched.Exit("log.Fatal: " + fmt.Sprint(v...)) }
func Fatalf(format string, v ...interface{}) { vsched.Exit("log.Fatal: " + fmt.Sprintf(format, v...)) }
func Fatalln(v ...interface{})               { vsched.Exit("log.Fatal: " + fmt.Sprintln(v...)) }
