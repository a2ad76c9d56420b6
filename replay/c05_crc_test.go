package zdecoder

import (
	"bytes"
	"fmt"
	"math/rand"
	"os"
	"strconv"
	"testing"
)

// CRC-16/MODBUS, bit by bit
func refCRC(b []byte) []byte {
	c := uint16(0xFFFF)
	for _, x := range b {
		c ^= uint16(x)
		for k := 0; k < 8; k++ {
			if c&1 == 1 {
				c = c>>1 ^ 0xA001
			} else {
				c >>= 1
			}
		}
	}
	return []byte{byte(c), byte(c >> 8)}
}

func TestVerifC05(t *testing.T) {
	cases := 0
	nf := 0
	fail := func(f string, a ...interface{}) {
		nf++
		if nf < 20 {
			fmt.Printf("VERIF-FAIL "+f+"\n", a...)
		}
		t.Fail()
	}
	seed, _ := strconv.Atoi(os.Getenv("VERIF_SEED"))
	rnd := rand.New(rand.NewSource(int64(seed)))
	check := func(b []byte) {
		cases++
		keep := append([]byte{}, b...)
		want := refCRC(b)
		got := GetCrC(b)
		if !bytes.Equal(got, want) {
			fail("GetCrC(%x) = %x, want %x", b, got, want)
			return
		}
		if !bytes.Equal(keep, b) {
			fail("GetCrC(%x) changed its input", keep)
		}
		if !CheckCRC(b, want) {
			fail("CheckCRC(%x, %x) = false", b, want)
		}
		for _, bad := range [][]byte{nil, {}, want[:1], append(append([]byte{}, want...), 0), {want[0] ^ 1, want[1]}, {want[0], want[1] ^ 0x80},
			{want[1] ^ 0x11, want[0] ^ 0x22}, {want[0] + 1, want[1] - 1}} {
			if len(bad) == 2 && bytes.Equal(bad, want) {
				continue
			}
			if CheckCRC(b, bad) {
				fail("CheckCRC(%x, %x) = true, checksum is %x", b, bad, want)
			}
		}
		if want[0] != want[1] && CheckCRC(b, []byte{want[1], want[0]}) {
			fail("CheckCRC(%x, swapped) = true", b)
		}
	}
	fmt.Println("VERIF-BEGIN crc sweep")
	check(nil)
	check([]byte("123456789"))
	for a := 0; a < 256; a++ {
		check([]byte{byte(a)})
		for b := 0; b < 256; b++ {
			check([]byte{byte(a), byte(b)})
		}
	}
	for i := 0; i < 4000; i++ {
		b := make([]byte, rnd.Intn(300))
		rnd.Read(b)
		check(b)
	}
	for _, n := range []int{255, 256, 257, 65535, 65536, 65537, 100000} {
		b := make([]byte, n)
		rnd.Read(b)
		check(b)
	}
	fmt.Println("VERIF-CASES", cases)
	fmt.Println("VERIF-DONE")
}
