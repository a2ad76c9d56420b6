package zinterceptor

import (
	"bytes"
	"encoding/binary"
	"fmt"
	"math/big"
	"math/rand"
	"os"
	"strconv"
	"sync/atomic"
	"testing"
	"time"

	"github.com/aceld/zinx/ziface"
)

type vcfg struct {
	max                    uint64
	off, flen, adj, strip  int
	little                 bool
}

func (c vcfg) order() binary.ByteOrder {
	if c.little {
		return binary.LittleEndian
	}
	return binary.BigEndian
}

// the length field at pos, as the documentation defines it
func (c vcfg) field(s []byte, pos int) *big.Int {
	b := append([]byte{}, s[pos+c.off:pos+c.off+c.flen]...)
	if c.little {
		for i, j := 0, len(b)-1; i < j; i, j = i+1, j-1 {
			b[i], b[j] = b[j], b[i]
		}
	}
	x := new(big.Int).SetBytes(b)
	if c.flen == 8 && b[0] >= 0x80 {
		x.Sub(x, new(big.Int).Lsh(big.NewInt(1), 64))
	}
	return x
}

// reference parse of a prefix: delivered frames; rejected: the decoder must have failed; mayReject: it may have
func (c vcfg) parse(s []byte) (out [][]byte, rejected, mayReject bool) {
	pos := 0
	end := c.off + c.flen
	for {
		if len(s)-pos < end {
			return out, false, false
		}
		f := c.field(s, pos)
		if f.Sign() < 0 {
			return out, true, true
		}
		tot := new(big.Int).Add(f, big.NewInt(int64(c.adj+end)))
		if tot.Cmp(big.NewInt(int64(end))) < 0 || tot.BitLen() > 63 {
			return out, true, true
		}
		if tot.Cmp(new(big.Int).SetUint64(c.max)) > 0 {
			if tot.Cmp(big.NewInt(int64(len(s)-pos))) > 0 {
				return out, false, false
			}
			pos += int(tot.Int64())
			continue
		}
		n := int(tot.Int64())
		if n < c.strip {
			return out, len(s)-pos >= n, true
		}
		if len(s)-pos < n {
			return out, false, false
		}
		out = append(out, s[pos+c.strip:pos+n])
		pos += n
	}
}

var curCase atomic.Value
var curStart int64

func runChunks(c vcfg, stream []byte, cuts []int, byParams bool) string {
	var d ziface.IFrameDecoder
	if byParams && !c.little {
		d = NewFrameDecoderByParams(c.max, c.off, c.flen, c.adj, c.strip)
	} else {
		lf := ziface.LengthField{MaxFrameLength: c.max, LengthFieldOffset: c.off, LengthFieldLength: c.flen, LengthAdjustment: c.adj, InitialBytesToStrip: c.strip}
		if c.little {
			lf.Order = binary.LittleEndian
		}
		d = NewFrameDecoder(lf)
	}
	var got, snap [][]byte
	p := 0
	curCase.Store(fmt.Sprintf("%+v stream %x cuts %v", c, head(stream), cuts))
	atomic.StoreInt64(&curStart, time.Now().UnixNano())
	shared := make([]byte, 0, 1<<16)
	for _, k := range append(append([]int{}, cuts...), len(stream)) {
		panicked := ""
		func() {
			defer func() {
				if r := recover(); r != nil {
					panicked = fmt.Sprint(r)
				}
			}()
			// the reader reuses one buffer for every read
			shared = append(shared[:0], stream[p:k]...)
			for _, f := range d.Decode(shared) {
				got = append(got, f)
				snap = append(snap, append([]byte{}, f...))
			}
		}()
		p = k
		want, rej, may := c.parse(stream[:k])
		if panicked != "" {
			if !may {
				return fmt.Sprintf("decode failed (%s) after %d bytes although no frame is malformed", panicked, k)
			}
			if len(got) > len(want) {
				return "too many frames before the failure"
			}
			return ""
		}
		if rej {
			return fmt.Sprintf("malformed frame not rejected after %d bytes, delivered %d", k, len(got))
		}
		if len(got) != len(want) {
			return fmt.Sprintf("after %d bytes %d frames delivered, want %d", k, len(got), len(want))
		}
		for i := range want {
			if !bytes.Equal(got[i], want[i]) {
				return fmt.Sprintf("frame %d is %x, want %x", i, head(got[i]), head(want[i]))
			}
		}
		for i := range snap {
			if !bytes.Equal(got[i], snap[i]) {
				return fmt.Sprintf("frame %d changed after delivery", i)
			}
		}
		for i := range shared {
			shared[i] = 0xEE
		}
		for i := range snap {
			if !bytes.Equal(got[i], snap[i]) {
				return fmt.Sprintf("frame %d changed when the read buffer was reused", i)
			}
		}
	}
	return ""
}

func head(b []byte) []byte {
	if len(b) > 60 {
		return b[:60]
	}
	return b
}

func putField(b []byte, c vcfg, v uint64) {
	for i := 0; i < c.flen; i++ {
		x := byte(v >> (8 * uint(i)))
		if c.little {
			b[c.off+i] = x
		} else {
			b[c.off+c.flen-1-i] = x
		}
	}
}

func mkStream(rnd *rand.Rand, c vcfg, bad bool) []byte {
	var s []byte
	end := c.off + c.flen
	for n := 1 + rnd.Intn(6); n > 0; n-- {
		body := rnd.Intn(12)
		tot := end + body
		if c.adj > 0 {
			tot += c.adj
		}
		switch rnd.Intn(8) {
		case 0:
			tot = int(c.max)
		case 1:
			tot = c.strip
		}
		if bad && rnd.Intn(3) == 0 {
			tot = int(c.max) + 1 + rnd.Intn(20)
		}
		if tot < end {
			tot = end
		}
		v := int64(tot - end - c.adj)
		if v < 0 {
			v = 0
			tot = end + c.adj
		}
		if tot < end {
			continue
		}
		if !bad && (uint64(tot) > c.max || tot < c.strip) {
			continue
		}
		if c.flen < 8 && v >= 1<<(8*uint(c.flen)) {
			continue
		}
		f := make([]byte, tot)
		rnd.Read(f)
		putField(f, c, uint64(v))
		s = append(s, f...)
	}
	if bad && rnd.Intn(3) == 0 {
		h := make([]byte, end+rnd.Intn(10))
		rnd.Read(h)
		switch rnd.Intn(6) {
		case 0:
			putField(h, c, ^uint64(0))
		case 1:
			putField(h, c, 1<<63-1)
		case 2:
			putField(h, c, 0)
		case 3:
			putField(h, c, 1<<62)
		case 4:
			putField(h, c, uint64(rnd.Intn(5)))
		}
		s = append(s, h...)
		x := make([]byte, rnd.Intn(40))
		rnd.Read(x)
		s = append(s, x...)
	} else if rnd.Intn(2) == 0 && len(s) > 0 {
		s = s[:len(s)-rnd.Intn(min0(len(s), 6))]
	}
	return s
}

func min0(a, b int) int {
	if a < b {
		return a
	}
	return b
}

func TestVerifFrames(t *testing.T) {
	bad := os.Getenv("VERIF_BAD") == "1"
	cases, nf := 0, 0
	seed, _ := strconv.Atoi(os.Getenv("VERIF_SEED"))
	rnd := rand.New(rand.NewSource(int64(seed)))
	curCase.Store("")
	go func() {
		for last, same := int64(0), 0; ; {
			time.Sleep(200 * time.Millisecond)
			st := atomic.LoadInt64(&curStart)
			if st != last || st == 0 {
				last, same = st, 0
			}
			if same++; same > 40 { // counted, so that a machine that stands still is no alarm
				fmt.Println("VERIF-FAIL decode call does not finish: " + curCase.Load().(string))
				os.Exit(1)
			}
		}
	}()
	one := func(c vcfg, s []byte, cuts []int, p bool) {
		cases++
		if r := runChunks(c, s, cuts, p); r != "" && nf < 10 {
			nf++
			fmt.Printf("VERIF-FAIL %+v stream %x cuts %v: %s\n", c, head(s), cuts, r)
			t.Fail()
		}
		atomic.StoreInt64(&curStart, 0)
	}
	rounds := 60
	if os.Getenv("VERIF_TIER") == "thorough" {
		rounds = 600
	}
	for r := 0; r < rounds; r++ {
		for _, flen := range []int{1, 2, 3, 4, 8} {
			for _, little := range []bool{false, true} {
				c := vcfg{max: uint64(8 + rnd.Intn(40)), off: rnd.Intn(5), flen: flen, little: little}
				end := c.off + c.flen
				switch rnd.Intn(4) {
				case 0:
					c.adj = -rnd.Intn(end + 1)
				case 1:
					c.adj = rnd.Intn(4)
				}
				if rnd.Intn(2) == 0 {
					c.strip = rnd.Intn(end + 2)
				}
				if rnd.Intn(8) == 0 {
					c.max = 1<<32 + 7
					if rnd.Intn(2) == 0 {
						c.max = ^uint64(0)
					}
				}
				if c.max > 1<<20 {
					cc := c
					cc.max = 48
					s := mkStream(rnd, cc, false)
					one(c, s, nil, true)
					continue
				}
				s := mkStream(rnd, c, bad)
				one(c, s, nil, true)
				var all []int
				for i := 1; i < len(s); i++ {
					all = append(all, i)
				}
				one(c, s, all, false)
				for i := 1; i < len(s); i++ {
					one(c, s, []int{i}, false)
				}
				for k := 0; k < 3; k++ {
					var cu []int
					for i := 1; i < len(s); i++ {
						if rnd.Intn(4) == 0 {
							cu = append(cu, i)
						}
					}
					one(c, s, cu, false)
				}
			}
		}
	}
	fmt.Println("VERIF-CASES", cases)
	fmt.Println("VERIF-DONE")
}
