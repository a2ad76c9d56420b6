package zdecoder

import (
	"bytes"
	"encoding/binary"
	"fmt"
	"math/rand"
	"os"
	"strconv"
	"testing"

	"github.com/aceld/zinx/ziface"
	"github.com/aceld/zinx/zinterceptor"
	"github.com/aceld/zinx/zpack"
)

type c04chain struct {
	msg   ziface.IMessage
	calls int
	m     ziface.IMessage
	resp  ziface.IcReq
	id    uint32
	dl    uint32
	data  []byte
	other int
}

func (c *c04chain) Request() ziface.IcReq         { return nil }
func (c *c04chain) GetIMessage() ziface.IMessage  { return c.msg }
func (c *c04chain) Proceed(ziface.IcReq) ziface.IcResp {
	c.other++
	return "next"
}
func (c *c04chain) ProceedWithIMessage(m ziface.IMessage, r ziface.IcReq) ziface.IcResp {
	c.calls++
	c.m, c.resp = m, r
	if m != nil {
		c.id, c.dl, c.data = m.GetMsgID(), m.GetDataLen(), append([]byte{}, m.GetData()...)
	}
	return "next"
}

func c04crc(p []byte) []byte {
	crc := uint16(0xffff)
	for _, b := range p {
		crc ^= uint16(b)
		for i := 0; i < 8; i++ {
			if crc&1 == 1 {
				crc = crc>>1 ^ 0xa001
			} else {
				crc >>= 1
			}
		}
	}
	return []byte{byte(crc), byte(crc >> 8)}
}

func TestVerifC04(t *testing.T) {
	seed, _ := strconv.Atoi(os.Getenv("VERIF_SEED"))
	rng := rand.New(rand.NewSource(int64(seed) + 4))
	n, nf := 0, 0
	fail := func(f string, a ...interface{}) {
		nf++
		if nf < 10 {
			fmt.Printf("VERIF-FAIL "+f+"\n", a...)
		}
		t.Fail()
	}
	run := func(what string, d ziface.IDecoder, frame []byte) (c *c04chain, r ziface.IcResp, ok bool) {
		n++
		fmt.Printf("VERIF-BEGIN %s frame of %d bytes\n", what, len(frame))
		c = &c04chain{msg: zpack.NewMessage(uint32(len(frame)), append([]byte{}, frame...))}
		defer func() {
			if e := recover(); e != nil {
				fail("%s: Intercept panics (%v) on frame of %d bytes % x", what, e, len(frame), head(frame))
			}
		}()
		r = d.Intercept(c)
		ok = true
		return
	}
	// frames as cut from a stream by the decoder's own length field
	cut := func(what string, d ziface.IDecoder, frames [][]byte) {
		lf := d.GetLengthField()
		fd := zinterceptor.NewFrameDecoder(*lf)
		var s []byte
		for _, f := range frames {
			s = append(s, f...)
		}
		n++
		var got [][]byte
		func() {
			defer func() {
				if e := recover(); e != nil {
					fail("%s: stream of complete frames is rejected: %v", what, e)
				}
			}()
			got = fd.Decode(s)
			if len(got) != len(frames) {
				fail("%s: %d complete frames in, %d out", what, len(frames), len(got))
				return
			}
			for i := range got {
				if !bytes.Equal(got[i], frames[i]) {
					fail("%s: frame %d of the stream comes out as % x, not % x", what, i, head(got[i]), head(frames[i]))
				}
			}
		}()
	}
	sizes := []int{0, 1, 2, 3, 4, 5, 7, 8, 9, 100, 255, 256, 257, 1000, 65535, 65536, 70001}
	for i := 0; i < 40; i++ {
		sizes = append(sizes, rng.Intn(3000))
	}
	var ft, fl [][]byte
	for _, sz := range sizes {
		tag := rng.Uint32()
		if sz%3 == 0 {
			tag = []uint32{0, 1, 0xffffffff, 0x80000000, 0x01020304}[rng.Intn(5)]
		}
		v := make([]byte, sz)
		rng.Read(v)
		f := make([]byte, 8, 8+sz)
		binary.BigEndian.PutUint32(f[0:], tag)
		binary.BigEndian.PutUint32(f[4:], uint32(sz))
		f = append(f, v...)
		ft = append(ft, f)
		if c, r, ok := run("TLV", NewTLVDecoder(), f); ok {
			tv, is := c.resp.(TLVDecoder)
			if c.calls != 1 || c.other != 0 || r != "next" || c.m != c.msg || c.id != tag || c.dl != uint32(sz) || !bytes.Equal(c.data, v) {
				fail("TLV tag %#x len %d: passed on %d times, id %#x len %d data % x", tag, sz, c.calls, c.id, c.dl, head(c.data))
			} else if !is || tv.Tag != tag || tv.Length != uint32(sz) || !bytes.Equal(tv.Value, v) {
				fail("TLV tag %#x len %d: decoded value %T is wrong", tag, sz, c.resp)
			}
		}
		g := make([]byte, 8, 8+sz)
		binary.LittleEndian.PutUint32(g[0:], uint32(sz))
		binary.LittleEndian.PutUint32(g[4:], tag)
		g = append(g, v...)
		fl = append(fl, g)
		if c, r, ok := run("LTV", NewLTV_Little_Decoder(), g); ok {
			tv, is := c.resp.(LTV_Little_Decoder)
			if c.calls != 1 || c.other != 0 || r != "next" || c.m != c.msg || c.id != tag || c.dl != uint32(sz) || !bytes.Equal(c.data, v) {
				fail("LTV tag %#x len %d: passed on %d times, id %#x len %d data % x", tag, sz, c.calls, c.id, c.dl, head(c.data))
			} else if !is || tv.Tag != tag || tv.Length != uint32(sz) || !bytes.Equal(tv.Value, v) {
				fail("LTV tag %#x len %d: decoded value %T is wrong", tag, sz, c.resp)
			}
		}
	}
	cut("TLV", NewTLVDecoder(), ft)
	cut("LTV", NewLTV_Little_Decoder(), fl)
	var fh [][]byte
	for L := 0; L < 256; L++ {
		f := []byte{byte(rng.Intn(256)), byte(rng.Intn(256)), byte(L)}
		b := make([]byte, L)
		rng.Read(b)
		f = append(f, b...)
		f = append(f, c04crc(f)...)
		fh = append(fh, f)
		if c, r, ok := run("HTLV", NewHTLVCRCDecoder(), f); ok {
			h, is := c.resp.(HtlvCrcDecoder)
			if c.calls != 1 || c.other != 0 || r != "next" || c.m != c.msg || c.id != uint32(f[1]) || !bytes.Equal(c.data, f) {
				fail("HTLV body %d: passed on %d times, id %d (function code %d)", L, c.calls, c.id, f[1])
			} else if !is || h.Head != f[0] || h.Funcode != f[1] || h.Length != byte(L) || !bytes.Equal(h.Body, b) || !bytes.Equal(h.Crc, f[L+3:]) || !bytes.Equal(h.Data, f) {
				fail("HTLV body %d: decoded fields %+v", L, h.Length)
			}
		}
		for k := 0; k < 6; k++ {
			g := append([]byte{}, f...)
			switch k {
			case 0, 1:
				p := rng.Intn(len(g))
				for p == 2 {
					p = rng.Intn(len(g))
				}
				g[p] ^= 1 << uint(rng.Intn(8))
			case 2:
				g[len(g)-1]++
			case 3:
				g[len(g)-2]--
			case 4:
				g[len(g)-1], g[len(g)-2] = g[len(g)-2], g[len(g)-1]
				if g[len(g)-1] == g[len(g)-2] {
					continue
				}
			case 5:
				g[0] ^= 0x80
			}
			if c, r, ok := run("HTLV", NewHTLVCRCDecoder(), g); ok {
				if c.calls != 0 || c.other != 0 || r != nil {
					fail("HTLV body %d with a wrong checksum is passed on: % x", L, head(g))
				}
			}
		}
	}
	cut("HTLV", NewHTLVCRCDecoder(), fh)
	for _, d := range []ziface.IDecoder{NewTLVDecoder(), NewLTV_Little_Decoder(), NewHTLVCRCDecoder()} {
		lim := 8
		if _, is := d.(*HtlvCrcDecoder); is {
			lim = 5
		}
		for sz := 0; sz < lim; sz++ {
			f := make([]byte, sz)
			rng.Read(f)
			if c, r, ok := run(fmt.Sprintf("%T short", d), d, f); ok {
				if c.calls != 1 || r != "next" || c.m != c.msg || c.resp != nil || !bytes.Equal(c.data, f) || c.id != 0 {
					fail("%T: short data of %d bytes is not passed on unchanged", d, sz)
				}
			}
		}
		c := &c04chain{}
		if r := d.Intercept(c); c.calls != 1 || r != "next" || c.m != nil || c.resp != nil {
			fail("%T: no message is not passed on unchanged", d)
		}
		n++
	}
	fmt.Printf("VERIF-SAMPLE %d TLV/LTV frames, 256 HTLV bodies with 6 corruptions each\n", len(sizes))
	fmt.Printf("VERIF-CASES %d\nVERIF-DONE\n", n)
}

func head(b []byte) []byte {
	if len(b) > 24 {
		return b[:24]
	}
	return b
}
