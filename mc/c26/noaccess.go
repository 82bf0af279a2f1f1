//go:build !settings

package main

import "github.com/Ptt-official-app/go-bbs"

var settings func(recs []bbs.UserRecord, id string) (map[string]bool, error)
