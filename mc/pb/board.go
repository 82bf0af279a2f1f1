package pb

import (
	"encoding/binary"
	"fmt"

	"github.com/Ptt-official-app/go-bbs/pttbbs"
)

// BoardBytes is board number n in its C layout, every stored field is set.
func BoardBytes(n int) []byte {
	b := make([]byte, 256)
	le := binary.LittleEndian
	copy(b[0:13], fmt.Sprintf("Board%d", n))
	copy(b[13:62], Big5(fmt.Sprintf("嘰哩 ◎看板 %d", n)))
	copy(b[62:101], fmt.Sprintf("bm%d/second", n))
	le.PutUint32(b[104:], uint32(n)*2654435761)
	b[108] = byte(n%9 + 49)
	b[109] = byte(n)
	b[110] = byte(n >> 1)
	le.PutUint32(b[112:], uint32(1000000000+n))
	b[116] = byte(n + 3)
	b[117] = byte(n + 4)
	b[119] = byte(n % 2)
	for i, o := range []int{120, 124, 128, 132, 136, 140, 144, 148, 152, 156, 160, 164, 168, 212} {
		le.PutUint32(b[o:], uint32(1+i)<<24+uint32(n))
	}
	copy(b[172:205], Big5("文  字"))
	b[205] = byte(n%255 + 1)
	b[206] = byte(n + 5)
	b[207] = byte(n + 6)
	b[208] = byte(n + 7)
	return b
}

// Board is board number n as the API represents it.
func Board(n int) *pttbbs.BoardHeader {
	h, err := pttbbs.UnmarshalBoardHeader(BoardBytes(n))
	if err != nil {
		panic(err)
	}
	return h
}
