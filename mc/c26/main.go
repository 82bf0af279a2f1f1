// C26: user settings are read from exactly their own flag bit.
package main

import (
	"encoding/binary"
	"fmt"
	"os"
	"path/filepath"
	"strings"
	"time"

	"github.com/Ptt-official-app/go-bbs"
	"github.com/Ptt-official-app/go-bbs/pttbbs"

	"verifmc/kit"
	"verifmc/pb"
)

func main() {
	kit.Main(kit.Config{
		ID: "C26", Level: kit.Exploration,
		Rule:        "all combinations of the 15 setting bits with all other bits clear, set and mixed (thorough: all values of the lower 26 bits), every single bit and pair of bits of 32 alone and inverted, through records of the layout, files and other drivers' records; all user lists up to the length in the notes with all ids of the list; distinct by flags and list",
		Assumptions: []string{"reference: uflags.h of pttbbs", "of two users with the same id either may be meant; lists with such users are outside"},
		Body:        body,
	})
}

// flags is uflags.h: the bit of each setting.
var flags = map[string]uint32{
	"favnohilight":   0x00000001,
	"favaddnew":      0x00000002,
	"dbanner":        0x00000040,
	"dbannerusong":   0x00000080,
	"dbcsaware":      0x00000200,
	"dbcsnointresc":  0x00000400,
	"dbcsdroprepeat": 0x00000800,
	"nomodmark":      0x00001000,
	"coloredmodmark": 0x00002000,
	"defbackup":      0x00010000,
	"newangelpager":  0x00020000,
	"rejouttamail":   0x00040000,
	"securelogin":    0x00080000,
	"menulightbar":   0x01000000,
	"cursorascii":    0x02000000,
}

// user is a record of another driver.
type user struct {
	id    string
	flags uint32
}

func (u *user) UserID() string              { return u.id }
func (u *user) HashedPassword() string      { return "" }
func (u *user) VerifyPassword(string) error { return nil }
func (u *user) Nickname() string            { return "nobody" }
func (u *user) RealName() string            { return "nobody" }
func (u *user) NumLoginDays() int           { return -1 }
func (u *user) NumPosts() int               { return -1 }
func (u *user) Money() int                  { return -1 }
func (u *user) LastLogin() time.Time        { return time.Time{} }
func (u *user) LastHost() string            { return "" }
func (u *user) UserFlag() uint32            { return u.flags }

// check compares the settings with the flags.
func check(got map[string]bool, f uint32) error {
	n := 0
	for name, v := range got {
		bit, ok := flags[strings.ToLower(name)]
		if !ok {
			continue
		}
		n++
		if v != (f&bit != 0) {
			return fmt.Errorf("flags %08x: the setting %s is %v, its bit is %08x", f, name, v, bit)
		}
	}
	if n == 0 {
		return fmt.Errorf("no setting is known by its name: %v", got)
	}
	return nil
}

func bytesOf(id string, f uint32, seed byte) []byte {
	b := make([]byte, 512)
	for i := range b {
		b[i] = byte(i)*seed + seed
	}
	copy(b[4:17], id+"\x00")
	binary.LittleEndian.PutUint32(b[4+13+20+24+14+1:], f)
	return b
}

func record(id string, f uint32, seed byte) (*pttbbs.Userec, error) {
	u, err := pttbbs.UnmarshalUserec(bytesOf(id, f, seed))
	if err != nil {
		return nil, err
	}
	if u.UserID() != id {
		return nil, fmt.Errorf("user %q is %q", id, u.UserID())
	}
	if u.UserFlag() != f {
		return nil, fmt.Errorf("flags %08x of user %q are read as %08x", f, id, u.UserFlag())
	}
	return u, nil
}

// one checks the settings of one user with these flags in all ways.
func one(f uint32) error {
	u, err := record("tester", f, byte(f^f>>8^f>>16)|1)
	if err != nil || settings == nil {
		return err
	}
	for _, rec := range []bbs.UserRecord{u, &user{"tester", f}} {
		got, err := settings([]bbs.UserRecord{rec}, "tester")
		if err != nil {
			return fmt.Errorf("flags %08x: %v", f, err)
		}
		if err := check(got, f); err != nil {
			return err
		}
	}
	return nil
}

func body(r *kit.Run) {
	r.Note("settings read through the package", settings != nil)

	r.Section("the bits by their names")
	r.Check("names", func() error {
		for _, c := range []struct {
			name      string
			got, want uint32
		}{
			{"UfFavNohilight", pttbbs.UfFavNohilight, 0x1}, {"UfFavAddnew", pttbbs.UfFavAddnew, 0x2},
			{"UfFriend", pttbbs.UfFriend, 0x10}, {"UfBrdsort", pttbbs.UfBrdsort, 0x20},
			{"UfAdbanner", pttbbs.UfAdbanner, 0x40}, {"UfAdbannerUsong", pttbbs.UfAdbannerUsong, 0x80},
			{"UfDbcsAware", pttbbs.UfDbcsAware, 0x200}, {"UfDbcsNointresc", pttbbs.UfDbcsNointresc, 0x400},
			{"UfDbscDropRepeat", pttbbs.UfDbscDropRepeat, 0x800}, {"UfNoModmark", pttbbs.UfNoModmark, 0x1000},
			{"UfColoredModmark", pttbbs.UfColoredModmark, 0x2000}, {"UfDefbackup", pttbbs.UfDefbackup, 0x10000},
			{"UfNewAngelPager", pttbbs.UfNewAngelPager, 0x20000}, {"UfRejOuttamail", pttbbs.UfRejOuttamail, 0x40000},
			{"UfSecureLogin", pttbbs.UfSecureLogin, 0x80000}, {"UfForeign", pttbbs.UfForeign, 0x100000},
			{"UfLiveright", pttbbs.UfLiveright, 0x200000}, {"UfMenuLightbar", pttbbs.UfMenuLightbar, 0x1000000},
			{"UfCursorASCII", pttbbs.UfCursorASCII, 0x2000000},
		} {
			if c.got != c.want {
				return fmt.Errorf("%s is %08x, in uflags.h it is %08x", c.name, c.got, c.want)
			}
			r.Eval(1)
		}
		return nil
	})

	r.Section("all combinations of the settings")
	var bits []uint32
	all := uint32(0)
	for b := uint(0); b < 32; b++ {
		for _, f := range flags {
			if f == 1<<b {
				bits = append(bits, f)
				all |= f
			}
		}
	}
	spread := func(n int) (f uint32) {
		for i, b := range bits {
			if n>>uint(i)&1 != 0 {
				f |= b
			}
		}
		return f
	}
	for hi := 0; hi < 1<<15; hi += 256 {
		hi := hi
		r.Check(fmt.Sprintf("combinations from %d", hi), func() error {
			for n := hi; n < hi+256; n++ {
				f := spread(n)
				for _, others := range []uint32{0, 0xffffffff, 0x55555555, 0xaaaaaaaa} {
					if err := one(f | others&^all); err != nil {
						return err
					}
					r.Eval(1)
					r.Distinct(uint64(f | others&^all))
				}
			}
			return nil
		})
	}
	r.Section("bits and pairs of bits")
	for a := 0; a < 32; a++ {
		a := a
		r.Check(fmt.Sprintf("bit %d", a), func() error {
			for b := 0; b < 32; b++ {
				for c := 0; c < 32; c++ {
					f := uint32(1)<<uint(a) | 1<<uint(b) | 1<<uint(c)
					if err := one(f); err != nil {
						return err
					}
					if err := one(^f); err != nil {
						return err
					}
					r.Eval(2)
				}
			}
			return nil
		})
	}
	if r.Thorough {
		r.Section("all values of the lower 26 bits")
		for hi := uint32(0); hi < 1<<26; hi += 1 << 16 {
			hi := hi
			r.Check(fmt.Sprintf("values from %08x", hi), func() error {
				for f := hi; f < hi+1<<16; f++ {
					if err := one(f); err != nil {
						return err
					}
				}
				r.Eval(1 << 16)
				return nil
			})
		}
	}

	r.Section("finding the user")
	ids := []string{"a", "A", "ab", "b", "", "guest", "SYSOP"}
	asked := append([]string{"a ", " a", "abc", "aB", "sysop", "gues", "guestx", "x", "a\x00"}, ids...)
	maxLen := kit.Pick(r, 4, 5)
	r.Note("users of the longest list", maxLen)
	var lists func(l []string)
	lists = func(l []string) {
		list := append([]string{}, l...)
		r.Check(fmt.Sprintf("users %q", list), func() error { return find(r, list, asked) })
		if len(l) == maxLen {
			return
		}
	next:
		for _, id := range ids {
			for _, x := range l {
				if x == id {
					continue next
				}
			}
			lists(append(l, id))
		}
	}
	lists(nil)
	for _, n := range []int{100, 255, 256, 257, 1000, 32769, 65537} {
		n := n
		r.Check(fmt.Sprintf("%d users", n), func() error {
			var l []string
			for i := 0; i < n; i++ {
				l = append(l, fmt.Sprintf("u%d", (i*7919)%n))
			}
			return find(r, l, []string{l[0], l[1], l[n/2], l[n-2], l[n-1], l[99], l[min(255, n-1)], l[min(256, n-1)], l[min(65536, n-1)], "u", fmt.Sprintf("u%d", n)})
		})
	}
}

// find looks every asked id up in a list of users with these ids.
func find(r *kit.Run, list, asked []string) error {
	flagsOf := func(i int) uint32 { return 0x9e3779b9 * uint32(i+1) }
	home := r.Dir("home")
	var file []byte
	for i, id := range list {
		file = append(file, bytesOf(id, flagsOf(i), byte(3+2*i))...)
	}
	if err := os.WriteFile(filepath.Join(home, ".PASSWDS"), file, 0644); err != nil {
		return err
	}
	db, _, err := pb.Open(home)
	if err != nil {
		return err
	}
	recs, err := db.ReadUserRecords()
	if err != nil {
		return err
	}
	if len(recs) != len(list) {
		return fmt.Errorf("%d users are listed", len(recs))
	}
	for i, id := range list {
		if recs[i].UserID() != id || recs[i].UserFlag() != flagsOf(i) {
			return fmt.Errorf("user %d is %q with flags %08x, want %q with %08x", i, recs[i].UserID(), recs[i].UserFlag(), id, flagsOf(i))
		}
	}
	if settings == nil {
		return nil
	}
	// everyone is asked for twice, in both orders
	for k := 0; k < 2*len(asked); k++ {
		id := asked[k%len(asked)]
		if k >= len(asked) {
			id = asked[2*len(asked)-1-k]
		}
		at := -1
		for i, x := range list {
			if x == id {
				at = i
			}
		}
		got, err := settings(recs, id)
		r.Eval(1)
		if at < 0 {
			if err == nil {
				return fmt.Errorf("user %q does not exist, the settings are %v", id, got)
			}
			continue
		}
		if err != nil {
			return fmt.Errorf("user %q: %v", id, err)
		}
		if err := check(got, flagsOf(at)); err != nil {
			return fmt.Errorf("user %q: %v", id, err)
		}
	}
	if len(list) < 2 {
		return nil
	}
	// the list changes in place: the first and the last change places, then one of them gets other flags
	last := len(list) - 1
	recs[0], recs[last] = recs[last], recs[0]
	others := flagsOf(last) ^ 0x5a5a5a5a
	rec, err := pttbbs.UnmarshalUserec(bytesOf(list[0], others, 7))
	if err != nil {
		return err
	}
	for step, want := range [][2]uint32{{flagsOf(0), flagsOf(last)}, {others, flagsOf(last)}} {
		if step == 1 {
			recs[last] = rec
		}
		for i, id := range []string{list[0], list[last]} {
			for n := 0; n < 3; n++ {
				got, err := settings(recs, id)
				r.Eval(1)
				if err != nil {
					return fmt.Errorf("user %q, after a change of the list: %v", id, err)
				}
				if err := check(got, want[i]); err != nil {
					return fmt.Errorf("user %q, after a change of the list: %v", id, err)
				}
			}
		}
	}
	// and what does not belong to the list any more
	recs[0] = rec
	if got, err := settings(recs, list[last]); err == nil {
		return fmt.Errorf("user %q is not in the list any more, the settings are %v", list[last], got)
	}
	return nil
}
