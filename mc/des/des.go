// Package des is the reference of the traditional DES based crypt(3).
package des

// The traditional DES based crypt(3), one bit per byte, from the tables of FIPS 46.

var (
	pc1 = []int{57, 49, 41, 33, 25, 17, 9, 1, 58, 50, 42, 34, 26, 18, 10, 2, 59, 51, 43, 35, 27, 19, 11, 3, 60, 52, 44, 36,
		63, 55, 47, 39, 31, 23, 15, 7, 62, 54, 46, 38, 30, 22, 14, 6, 61, 53, 45, 37, 29, 21, 13, 5, 28, 20, 12, 4}
	pc2 = []int{14, 17, 11, 24, 1, 5, 3, 28, 15, 6, 21, 10, 23, 19, 12, 4, 26, 8, 16, 7, 27, 20, 13, 2,
		41, 52, 31, 37, 47, 55, 30, 40, 51, 45, 33, 48, 44, 49, 39, 56, 34, 53, 46, 42, 50, 36, 29, 32}
	shifts = []int{1, 1, 2, 2, 2, 2, 2, 2, 1, 2, 2, 2, 2, 2, 2, 1}
	ipT    = []int{58, 50, 42, 34, 26, 18, 10, 2, 60, 52, 44, 36, 28, 20, 12, 4, 62, 54, 46, 38, 30, 22, 14, 6, 64, 56, 48, 40, 32, 24, 16, 8,
		57, 49, 41, 33, 25, 17, 9, 1, 59, 51, 43, 35, 27, 19, 11, 3, 61, 53, 45, 37, 29, 21, 13, 5, 63, 55, 47, 39, 31, 23, 15, 7}
	fpT = []int{40, 8, 48, 16, 56, 24, 64, 32, 39, 7, 47, 15, 55, 23, 63, 31, 38, 6, 46, 14, 54, 22, 62, 30, 37, 5, 45, 13, 53, 21, 61, 29,
		36, 4, 44, 12, 52, 20, 60, 28, 35, 3, 43, 11, 51, 19, 59, 27, 34, 2, 42, 10, 50, 18, 58, 26, 33, 1, 41, 9, 49, 17, 57, 25}
	pT = []int{16, 7, 20, 21, 29, 12, 28, 17, 1, 15, 23, 26, 5, 18, 31, 10, 2, 8, 24, 14, 32, 27, 3, 9, 19, 13, 30, 6, 22, 11, 4, 25}
	sT = [8][64]byte{
		{14, 4, 13, 1, 2, 15, 11, 8, 3, 10, 6, 12, 5, 9, 0, 7, 0, 15, 7, 4, 14, 2, 13, 1, 10, 6, 12, 11, 9, 5, 3, 8, 4, 1, 14, 8, 13, 6, 2, 11, 15, 12, 9, 7, 3, 10, 5, 0, 15, 12, 8, 2, 4, 9, 1, 7, 5, 11, 3, 14, 10, 0, 6, 13},
		{15, 1, 8, 14, 6, 11, 3, 4, 9, 7, 2, 13, 12, 0, 5, 10, 3, 13, 4, 7, 15, 2, 8, 14, 12, 0, 1, 10, 6, 9, 11, 5, 0, 14, 7, 11, 10, 4, 13, 1, 5, 8, 12, 6, 9, 3, 2, 15, 13, 8, 10, 1, 3, 15, 4, 2, 11, 6, 7, 12, 0, 5, 14, 9},
		{10, 0, 9, 14, 6, 3, 15, 5, 1, 13, 12, 7, 11, 4, 2, 8, 13, 7, 0, 9, 3, 4, 6, 10, 2, 8, 5, 14, 12, 11, 15, 1, 13, 6, 4, 9, 8, 15, 3, 0, 11, 1, 2, 12, 5, 10, 14, 7, 1, 10, 13, 0, 6, 9, 8, 7, 4, 15, 14, 3, 11, 5, 2, 12},
		{7, 13, 14, 3, 0, 6, 9, 10, 1, 2, 8, 5, 11, 12, 4, 15, 13, 8, 11, 5, 6, 15, 0, 3, 4, 7, 2, 12, 1, 10, 14, 9, 10, 6, 9, 0, 12, 11, 7, 13, 15, 1, 3, 14, 5, 2, 8, 4, 3, 15, 0, 6, 10, 1, 13, 8, 9, 4, 5, 11, 12, 7, 2, 14},
		{2, 12, 4, 1, 7, 10, 11, 6, 8, 5, 3, 15, 13, 0, 14, 9, 14, 11, 2, 12, 4, 7, 13, 1, 5, 0, 15, 10, 3, 9, 8, 6, 4, 2, 1, 11, 10, 13, 7, 8, 15, 9, 12, 5, 6, 3, 0, 14, 11, 8, 12, 7, 1, 14, 2, 13, 6, 15, 0, 9, 10, 4, 5, 3},
		{12, 1, 10, 15, 9, 2, 6, 8, 0, 13, 3, 4, 14, 7, 5, 11, 10, 15, 4, 2, 7, 12, 9, 5, 6, 1, 13, 14, 0, 11, 3, 8, 9, 14, 15, 5, 2, 8, 12, 3, 7, 0, 4, 10, 1, 13, 11, 6, 4, 3, 2, 12, 9, 5, 15, 10, 11, 14, 1, 7, 6, 0, 8, 13},
		{4, 11, 2, 14, 15, 0, 8, 13, 3, 12, 9, 7, 5, 10, 6, 1, 13, 0, 11, 7, 4, 9, 1, 10, 14, 3, 5, 12, 2, 15, 8, 6, 1, 4, 11, 13, 12, 3, 7, 14, 10, 15, 6, 8, 0, 5, 9, 2, 6, 11, 13, 8, 1, 4, 10, 7, 9, 5, 0, 15, 14, 2, 3, 12},
		{13, 2, 8, 4, 6, 15, 11, 1, 10, 9, 3, 14, 5, 0, 12, 7, 1, 15, 13, 8, 10, 3, 7, 4, 12, 5, 6, 11, 0, 14, 9, 2, 7, 11, 4, 1, 9, 12, 14, 2, 0, 6, 10, 13, 15, 3, 5, 8, 2, 1, 14, 7, 4, 10, 8, 13, 15, 12, 9, 0, 3, 5, 6, 11},
	}
)

func perm(in []byte, t []int) []byte {
	out := make([]byte, len(t))
	for i, x := range t {
		out[i] = in[x-1]
	}
	return out
}

// Subkeys of a 64 bit key
func Subkeys(key [8]byte) [16][]byte {
	bits := make([]byte, 64)
	for i := range bits {
		bits[i] = key[i/8] >> uint(7-i%8) & 1
	}
	cd := perm(bits, pc1)
	c, d := append([]byte{}, cd[:28]...), append([]byte{}, cd[28:]...)
	var ks [16][]byte
	for i, n := range shifts {
		for ; n > 0; n-- {
			c = append(c[1:len(c):len(c)], c[0])
			d = append(d[1:len(d):len(d)], d[0])
		}
		ks[i] = perm(append(append([]byte{}, c...), d...), pc2)
	}
	return ks
}

// encrypt25 encrypts the block n times, the expansion swaps the bits of the salt.
func EncryptN(ks [16][]byte, block [64]byte, salt uint, n int) []byte {
	b := block[:]
	for ; n > 0; n-- {
		x := perm(b, ipT)
		var l, r [32]byte
		copy(l[:], x[:32])
		copy(r[:], x[32:])
		for round := 0; round < 16; round++ {
			var e [48]byte
			for j := 0; j < 48; j++ {
				e[j] = r[(j/6*4+j%6+31)%32]
			}
			for j := 0; j < 12; j++ {
				if salt>>uint(j)&1 != 0 {
					e[j], e[j+24] = e[j+24], e[j]
				}
			}
			var f [33]byte
			for j := 0; j < 8; j++ {
				k := ks[round][6*j : 6*j+6]
				y := e[6*j : 6*j+6]
				v := sT[j][(y[0]^k[0])<<5|(y[5]^k[5])<<4|(y[1]^k[1])<<3|(y[2]^k[2])<<2|(y[3]^k[3])<<1|(y[4]^k[4])]
				f[4*j+1], f[4*j+2], f[4*j+3], f[4*j+4] = v>>3&1, v>>2&1, v>>1&1, v&1
			}
			var nr [32]byte
			for j, p := range pT {
				nr[j] = l[j] ^ f[p]
			}
			l, r = r, nr
		}
		b = perm(append(append([]byte{}, r[:]...), l[:]...), fpT)
	}
	return b
}

const Alphabet = "./0123456789ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz"

func SaltValue(c byte) (uint, bool) {
	for i := range Alphabet {
		if Alphabet[i] == c {
			return uint(i), true
		}
	}
	return 0, false
}

// Key is the DES key of a password.
func Key(password []byte) (key [8]byte) {
	for i := 0; i < 8 && i < len(password) && password[i] != 0; i++ {
		key[i] = password[i] << 1
	}
	return
}

// Crypt is crypt(3); ok is false when the salt has other characters.
func Crypt(password []byte, salt string) (string, bool) {
	a, ok1 := SaltValue(salt[0])
	b, ok2 := SaltValue(salt[1])
	if !ok1 || !ok2 {
		return "", false
	}
	out := EncryptN(Subkeys(Key(password)), [64]byte{}, a|b<<6, 25)
	s := []byte(salt[:2])
	out = append(out, 0, 0)
	for i := 0; i < 11; i++ {
		v := 0
		for j := 0; j < 6; j++ {
			v = v<<1 | int(out[6*i+j])
		}
		s = append(s, Alphabet[v])
	}
	return string(s), true
}
