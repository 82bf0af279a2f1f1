//go:build settings

package main

import (
	"github.com/Ptt-official-app/go-bbs"
	"github.com/Ptt-official-app/go-bbs/pttbbs"
)

// settings reads the settings of a user in a list of users.
var settings func(recs []bbs.UserRecord, id string) (map[string]bool, error) = pttbbs.VerifSettings
