// C21: shared-memory values are read at their C layout for every setting.
package main

import (
	"bytes"
	"encoding/binary"
	"fmt"
	"os"
	"path/filepath"
	"reflect"
	"syscall"

	"github.com/Ptt-official-app/go-bbs/cache"
	"github.com/Ptt-official-app/go-bbs/pttbbs"

	"verifmc/kit"
)

func main() {
	kit.Main(kit.Config{
		ID: "C21", Level: kit.Exploration,
		Rule:        "all combinations of user count, id length, hash size, cooldown option and alignment in the listed ranges; for each a memory image laid out as the C structure, with different values in every field and in every gap, through a file or a segment, and all reads for all user indexes; distinct by setting",
		Assumptions: []string{"user indexes are below the user count, those of online users below the number of records in the image", "the alignment setting is where the first integer after the ids begins, as its documentation says", "decoding of an online-user record itself is C06"},
		Body:        body,
	})
}

const userinfoSize = 3484

type setting struct {
	users, idlen, hash, align int
	cool                      bool
}

func (s setting) String() string {
	return fmt.Sprintf("users %d, id length %d, hash bits %d, alignment %d, cooldown %v", s.users, s.idlen, s.hash, s.align, s.cool)
}

// image is the C structure:
//
//	int version, size; char userid[MAX_USERS][IDLEN+1]; char gap_1[IDLEN+1];
//	int next_in_hash[MAX_USERS]; char gap_2[4]; int money[MAX_USERS]; char gap_3[4];
//	[time4_t cooldowntime[MAX_USERS];] char gap_4[4]; int hash_head[1<<HASH_BITS]; char gap_5[4];
//	int number, loaded; userinfo_t uinfo[];
type image struct {
	b                             []byte
	version                       int
	ids, money, uinfo, next, cool int // offsets
}

func layout(s setting, online int) image {
	var m image
	off := 8
	m.ids = off
	off += s.users*(s.idlen+1) + s.idlen + 1
	if s.align > 1 {
		for off%s.align != 0 {
			off++
		}
	}
	m.next = off
	off += 4*s.users + 4
	m.money = off
	off += 4*s.users + 4
	m.cool = off
	if s.cool {
		off += 4 * s.users
	}
	off += 4           // gap_4
	off += 4 << s.hash // hash_head
	off += 4 + 4 + 4   // gap_5, number, loaded
	m.uinfo = off
	off += userinfoSize * online
	m.b = make([]byte, off)
	// nothing is zero and no two words are equal
	x := uint32(s.users*7919 + s.idlen*31 + s.hash + 1)
	for i := range m.b {
		x = x*1664525 + 1013904223
		m.b[i] = byte(x>>24) | 1
	}
	return m
}

func id(n, l, variant int) string {
	if variant == 2 { // of full length
		return fmt.Sprintf("%0*dabcdefghijklmnopqrstuvwxyz", l, n%1000)[:l]
	}
	s := fmt.Sprintf("u%d_%d", n, variant)
	if len(s) > l {
		s = s[:l]
	}
	return s
}

// fill puts the ids, money and records into the image.
func (m *image) fill(s setting, online, variant int) {
	binary.LittleEndian.PutUint32(m.b, uint32(4842+variant))
	binary.LittleEndian.PutUint32(m.b[4:], uint32(len(m.b)))
	for u := 0; u < s.users; u++ {
		o := m.ids + u*(s.idlen+1)
		i := id(u, s.idlen, variant)
		if variant == 1 && u%3 == 0 {
			i = ""
		}
		copy(m.b[o:], i)
		m.b[o+len(i)] = 0 // what follows the NUL stays what it was
		binary.LittleEndian.PutUint32(m.b[m.money+4*u:], uint32(money(u, variant)))
	}
	for u := 0; u < online; u++ {
		// another record each time
		for i := range m.b[m.uinfo+u*userinfoSize : m.uinfo+(u+1)*userinfoSize] {
			m.b[m.uinfo+u*userinfoSize+i] += byte(2*variant + 2)
		}
	}
}

func money(u, variant int) int32 {
	switch variant {
	case 0:
		return int32(u*1000003 + 1)
	case 1:
		return -int32(u*77777 + 1)
	}
	return int32(uint32(0x80000000) >> uint(u%32))
}

func verify(c *pttbbs.Cache, m image, s setting, online, variant int) error {
	if g, w := c.Version(), uint32(4842+variant); g != w {
		return fmt.Errorf("version is %d, want %d", g, w)
	}
	for u := 0; u < s.users; u++ {
		w := id(u, s.idlen, variant)
		if variant == 1 && u%3 == 0 {
			w = ""
		}
		if g := c.UserID(u); g != w {
			return fmt.Errorf("id of user %d is %q, want %q", u, g, w)
		}
		if g, w := c.Money(u), money(u, variant); g != w {
			return fmt.Errorf("money of user %d is %d, want %d", u, g, w)
		}
	}
	for u := 0; u < online; u++ {
		rec := append([]byte{}, m.b[m.uinfo+u*userinfoSize:m.uinfo+(u+1)*userinfoSize]...)
		if g, w := c.UserInfo(u), pttbbs.UnmarshalUserInfo(rec); !reflect.DeepEqual(g, w) {
			return fmt.Errorf("online user %d is not read from its record", u)
		}
	}
	return nil
}

func body(r *kit.Run) {
	dir := r.Dir("c")
	run := func(s setting, online int, seg bool) error {
		m := layout(s, online)
		r.Eval(1)
		p := filepath.Join(dir, "shm")
		conn := "file:" + p
		var mem []byte
		if seg {
			key := 0x57000000 + os.Getpid()%1000000
			conn = fmt.Sprintf("shmkey:%d", key)
			if id, _, e := syscall.Syscall(syscall.SYS_SHMGET, uintptr(key), 0, 0); e == 0 {
				syscall.Syscall(syscall.SYS_SHMCTL, id, 0, 0)
			}
			h, err := cache.CreateKey(key, len(m.b))
			if err != nil {
				return err
			}
			defer cache.RemoveKey(key)
			defer h.Close()
			mem = h.Bytes()
		} else {
			if err := os.WriteFile(p, m.b, 0644); err != nil {
				return err
			}
			h, err := cache.OpenMmap(p)
			if err != nil {
				return err
			}
			defer h.Close()
			mem = h.Bytes()
		}
		set := &pttbbs.MemoryMappingSetting{AlignmentBytes: s.align, MaxUsers: s.users, IDLen: s.idlen, UseCoolDown: s.cool, HashBits: s.hash}
		c, err := pttbbs.NewCache(conn, set)
		if err != nil {
			return fmt.Errorf("%v: %v", s, err)
		}
		defer c.Close()
		for variant := 0; variant < 3; variant++ {
			if variant == 2 && s.idlen < 3 {
				continue
			}
			m.fill(s, online, variant)
			copy(mem, m.b)
			if err := verify(c, m, s, online, variant); err != nil {
				return fmt.Errorf("%v: %v", s, err)
			}
		}
		for i, b := range m.b {
			if mem[i] != b {
				return fmt.Errorf("%v: reading changed byte %d", s, i)
			}
		}
		return nil
	}
	aligns := []int{1, 2, 4, 8}
	r.Section("small settings")
	maxUsers, maxID := kit.Pick(r, 24, 64), kit.Pick(r, 17, 33)
	r.Note("users", maxUsers)
	r.Note("id length", maxID)
	for users := 0; users <= maxUsers; users++ {
		for idlen := 1; idlen <= maxID; idlen++ {
			users, idlen := users, idlen
			r.Check(fmt.Sprintf("%d users, ids of %d", users, idlen), func() error {
				for _, a := range aligns {
					for _, cool := range []bool{false, true} {
						for _, hash := range []int{0, 1, 2, 3} {
							s := setting{users, idlen, hash, a, cool}
							online := 2
							if hash > 0 {
								online = 1
							}
							if err := run(s, online, users%8 == 3); err != nil {
								return err
							}
						}
					}
				}
				return nil
			})
		}
	}
	r.Section("hash sizes and online users")
	for hash := 0; hash <= 17; hash++ {
		for online := 0; online <= 8; online++ {
			hash, online := hash, online
			r.Check(fmt.Sprintf("hash bits %d, %d online", hash, online), func() error {
				for _, a := range aligns {
					for _, cool := range []bool{false, true} {
						if err := run(setting{50, 12, hash, a, cool}, online, a == 2); err != nil {
							return err
						}
					}
				}
				return nil
			})
		}
	}
	r.Section("many users")
	for _, users := range []int{50, 100, 255, 256, 257, 1000, 65535, 65536, 65537, 150000} {
		for _, a := range aligns {
			users, a := users, a
			r.Check(fmt.Sprintf("%d users, alignment %d", users, a), func() error {
				for _, cool := range []bool{false, true} {
					for _, idlen := range []int{12, 13, 14, 15} {
						if err := run(setting{users, idlen, 16, a, cool}, 3, cool); err != nil {
							return err
						}
					}
				}
				return nil
			})
		}
	}
	r.Section("many online users")
	for _, online := range []int{50, 333, 2000} {
		online := online
		r.Check(fmt.Sprintf("%d online", online), func() error {
			return run(setting{50, 12, 16, 2, false}, online, false)
		})
	}
	r.Section("read again and again")
	for _, users := range []int{5, 300} {
		for _, a := range aligns {
			users, a := users, a
			r.Check(fmt.Sprintf("again and again, %d users, alignment %d", users, a), func() error {
				s := setting{users, 12, 4, a, a == 2}
				m := layout(s, 2)
				p := filepath.Join(dir, "again")
				if err := os.WriteFile(p, m.b, 0644); err != nil {
					return err
				}
				h, err := cache.OpenMmap(p)
				if err != nil {
					return err
				}
				defer h.Close()
				c, err := pttbbs.NewCache("file:"+p, &pttbbs.MemoryMappingSetting{AlignmentBytes: a, MaxUsers: users, IDLen: 12, UseCoolDown: s.cool, HashBits: 4})
				if err != nil {
					return err
				}
				defer c.Close()
				// the values change after every number of readings
				for n := 1; n <= 80; n++ {
					variant := n % 3
					m.fill(s, 2, variant)
					copy(h.Bytes(), m.b)
					for i := 0; i < n; i++ {
						if err := verify(c, m, s, 2, variant); err != nil {
							return fmt.Errorf("%v: reading %d after a change: %v", s, i+1, err)
						}
					}
					// and those of one user
					for i := 0; i < n; i++ {
						c.UserID(n % users)
						c.Money(n % users)
						c.UserInfo(n % 2)
						c.Version()
					}
				}
				return nil
			})
		}
	}
	r.Section("every byte changes alone")
	for _, seg := range []bool{false, true} {
		for _, a := range aligns {
			a, seg := a, seg
			r.Check(fmt.Sprintf("every byte, alignment %d, segment %v", a, seg), func() error {
				s := setting{4, 12, 3, a, a == 2}
				m := layout(s, 2)
				m.fill(s, 2, 0)
				p := filepath.Join(dir, "bytes")
				var h cache.Cache
				conn := "file:" + p
				if seg {
					k := 0x57800000 + os.Getpid()%1000000
					conn = fmt.Sprintf("shmkey:%d", k)
					if id, _, e := syscall.Syscall(syscall.SYS_SHMGET, uintptr(k), 0, 0); e == 0 {
						syscall.Syscall(syscall.SYS_SHMCTL, id, 0, 0)
					}
					x, err := cache.CreateKey(k, len(m.b))
					if err != nil {
						return err
					}
					defer cache.RemoveKey(k)
					h = x
				} else {
					if err := os.WriteFile(p, m.b, 0644); err != nil {
						return err
					}
					x, err := cache.OpenMmap(p)
					if err != nil {
						return err
					}
					h = x
				}
				defer h.Close()
				copy(h.Bytes(), m.b)
				c, err := pttbbs.NewCache(conn, &pttbbs.MemoryMappingSetting{AlignmentBytes: a, MaxUsers: s.users, IDLen: 12, UseCoolDown: s.cool, HashBits: 3})
				if err != nil {
					return err
				}
				defer c.Close()
				look := func() error {
					if g, w := c.Version(), binary.LittleEndian.Uint32(m.b); g != w {
						return fmt.Errorf("version is %d, want %d", g, w)
					}
					for u := 0; u < s.users; u++ {
						b := m.b[m.ids+13*u : m.ids+13*u+13]
						w := string(b)
						if i := bytes.IndexByte(b, 0); i >= 0 {
							w = string(b[:i])
						}
						if g := c.UserID(u); g != w {
							return fmt.Errorf("id of user %d is %q, want %q", u, g, w)
						}
						if g, w := c.Money(u), int32(binary.LittleEndian.Uint32(m.b[m.money+4*u:])); g != w {
							return fmt.Errorf("money of user %d is %d, want %d", u, g, w)
						}
					}
					for u := 0; u < 2; u++ {
						rec := append([]byte{}, m.b[m.uinfo+u*userinfoSize:m.uinfo+(u+1)*userinfoSize]...)
						if g, w := c.UserInfo(u), pttbbs.UnmarshalUserInfo(rec); !reflect.DeepEqual(g, w) {
							return fmt.Errorf("online user %d is not read from its record", u)
						}
					}
					return nil
				}
				if err := look(); err != nil {
					return err
				}
				for i := range m.b {
					for _, x := range []byte{0x01, 0x80} {
						m.b[i] ^= x
						h.Bytes()[i] ^= x
						r.Eval(1)
						if err := look(); err != nil {
							return fmt.Errorf("%v: after a change of byte %d: %v", s, i, err)
						}
					}
				}
				return nil
			})
		}
	}
	r.Section("two caches with different settings")
	for i := 0; i < 16; i++ {
		i := i
		r.Check(fmt.Sprintf("two caches %d", i), func() error {
			var cs [2]*pttbbs.Cache
			var ms [2]image
			ss := [2]setting{{10 + i, 12, 4, 1 << (i % 4), i%2 == 0}, {11, 12 + i%3, i % 5, 1 << (i / 4 % 4), i%3 == 0}}
			for k, s := range ss {
				m := layout(s, 2)
				m.fill(s, 2, k)
				ms[k] = m
				p := filepath.Join(dir, fmt.Sprint("two", k))
				if err := os.WriteFile(p, m.b, 0644); err != nil {
					return err
				}
				c, err := pttbbs.NewCache("file:"+p, &pttbbs.MemoryMappingSetting{AlignmentBytes: s.align, MaxUsers: s.users, IDLen: s.idlen, UseCoolDown: s.cool, HashBits: s.hash})
				if err != nil {
					return err
				}
				defer c.Close()
				cs[k] = c
			}
			for k := range cs {
				if err := verify(cs[k], ms[k], ss[k], 2, k); err != nil {
					return fmt.Errorf("cache %d: %v: %v", k, ss[k], err)
				}
			}
			return nil
		})
	}
	r.Check("what cannot be opened is an error", func() error {
		s := &pttbbs.MemoryMappingSetting{AlignmentBytes: 2, MaxUsers: 5, IDLen: 12, HashBits: 4}
		for _, conn := range []string{"file:" + filepath.Join(dir, "none"), filepath.Join(dir, "none"), "nothing:1", "shmkey:x", "shmkey:", "", "shmkey:" + fmt.Sprint(0x57800000+os.Getpid())} {
			if c, err := pttbbs.NewCache(conn, s); err == nil || c != nil {
				return fmt.Errorf("%q gives %v, %v", conn, c, err)
			}
		}
		return nil
	})
}
