package zpack

import (
	"bytes"
	"encoding/binary"
	"fmt"
	"math/rand"
	"os"
	"strconv"
	"testing"

	"github.com/aceld/zinx/zconf"
	"github.com/aceld/zinx/ziface"
)

func TestVerifC01(t *testing.T) {
	cases := 0
	fail := func(f string, a ...interface{}) { fmt.Printf("VERIF-FAIL "+f+"\n", a...); t.Fail() }
	seed, _ := strconv.Atoi(os.Getenv("VERIF_SEED"))
	rnd := rand.New(rand.NewSource(int64(seed)))
	type codec struct {
		name string
		dp   ziface.IDataPack
		enc  func(id, n uint32) []byte
	}
	tlv := func(id, n uint32) []byte {
		b := make([]byte, 8)
		binary.BigEndian.PutUint32(b, id)
		binary.BigEndian.PutUint32(b[4:], n)
		return b
	}
	ltv := func(id, n uint32) []byte {
		b := make([]byte, 8)
		binary.LittleEndian.PutUint32(b, n)
		binary.LittleEndian.PutUint32(b[4:], id)
		return b
	}
	codecs := []codec{
		{"ZinxDataPack", Factory().NewPack(ziface.ZinxDataPack), tlv},
		{"ZinxDataPackOld", Factory().NewPack(ziface.ZinxDataPackOld), ltv},
		{"NewDataPack", NewDataPack(), tlv},
		{"NewDataPackLtv", NewDataPackLtv(), ltv},
	}
	ids := []uint32{0, 1, 2, 127, 128, 255, 256, 65535, 65536, 0x01020304, 0x7fffffff, 0x80000000, 0xfffffffe, 0xffffffff}
	lens := []int{0, 1, 2, 7, 8, 9, 255, 256, 4095, 4096, 4097, 65535, 65536, 70000}
	for i := 0; i < 200; i++ {
		ids = append(ids, rnd.Uint32())
		lens = append(lens, rnd.Intn(300))
	}
	for _, c := range codecs {
		if c.dp == nil {
			fail("%s: no codec", c.name)
			continue
		}
		if c.dp.GetHeadLen() != 8 {
			fail("%s: head length %d", c.name, c.dp.GetHeadLen())
		}
		for i, id := range ids {
			for _, n := range []int{lens[i%len(lens)], lens[(i*7+3)%len(lens)]} {
				cases++
				data := make([]byte, n)
				rnd.Read(data)
				keep := append([]byte{}, data...)
				fmt.Println("VERIF-BEGIN pack", c.name, id, n)
				m := NewMsgPackage(id, data)
				if m.GetMsgID() != id || m.GetDataLen() != uint32(n) || !bytes.Equal(m.GetData(), keep) {
					fail("NewMsgPackage(%d, %d bytes) accessors: id=%d len=%d", id, n, m.GetMsgID(), m.GetDataLen())
				}
				m2 := NewMessage(uint32(n), data)
				if m2.GetDataLen() != uint32(n) || !bytes.Equal(m2.GetData(), keep) || !bytes.Equal(m2.GetRawData(), keep) {
					fail("NewMessage(%d) accessors", n)
				}
				m3 := NewMessageByMsgId(id, uint32(n), data)
				if m3.GetMsgID() != id || m3.GetDataLen() != uint32(n) || !bytes.Equal(m3.GetData(), keep) || !bytes.Equal(m3.GetRawData(), keep) {
					fail("NewMessageByMsgId(%d,%d) accessors", id, n)
				}
				out, err := c.dp.Pack(m)
				if err != nil || !bytes.Equal(out, append(c.enc(id, uint32(n)), keep...)) {
					fail("%s: Pack(id=%d, %d bytes) = %d bytes, err=%v, wrong frame", c.name, id, n, len(out), err)
					continue
				}
				if !bytes.Equal(data, keep) {
					fail("%s: Pack changed the payload", c.name)
				}
				old := zconf.GlobalObject.MaxPacketSize
				for _, lim := range []uint32{0, uint32(n), uint32(n) + 1, uint32(n) / 2, 1} {
					zconf.GlobalObject.MaxPacketSize = lim
					u, err := c.dp.Unpack(out[:8])
					refuse := lim > 0 && uint32(n) > lim
					if (err != nil) != refuse {
						fail("%s: Unpack(id=%d len=%d) with limit %d: err=%v", c.name, id, n, lim, err)
						continue
					}
					if err == nil && (u.GetMsgID() != id || u.GetDataLen() != uint32(n)) {
						fail("%s: Unpack(id=%d len=%d) = id %d len %d", c.name, id, n, u.GetMsgID(), u.GetDataLen())
					}
				}
				// huge declared length in a bare header
				zconf.GlobalObject.MaxPacketSize = 4096
				for _, big := range []uint32{4096, 4097, 0x7fffffff, 0x80000000, 0xffffffff} {
					u, err := c.dp.Unpack(c.enc(id, big))
					if (err != nil) != (big > 4096) {
						fail("%s: Unpack(declared %d) with limit 4096: err=%v", c.name, big, err)
					} else if err == nil && (u.GetDataLen() != big || u.GetMsgID() != id) {
						fail("%s: Unpack(declared %d) gives %d", c.name, big, u.GetDataLen())
					}
				}
				for k := 0; k < 8; k++ {
					if _, err := c.dp.Unpack(out[:k]); err == nil {
						fail("%s: Unpack of a %d-byte header succeeds", c.name, k)
					}
				}
				zconf.GlobalObject.MaxPacketSize = old
			}
		}
	}
	var m Message
	m.SetMsgID(77)
	m.SetDataLen(5)
	m.SetData([]byte("hello"))
	if m.GetMsgID() != 77 || m.GetDataLen() != 5 || string(m.GetData()) != "hello" {
		fail("message setters")
	}
	fmt.Println("VERIF-CASES", cases)
	fmt.Println("VERIF-DONE")
}
