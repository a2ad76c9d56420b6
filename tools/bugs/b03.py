ID, PROP, PKG = "b03-crc-table-entry", "C05", "zdecoder"
EDITS = [("zdecoder/crc.go", "	0x44, 0x84, 0x85, 0x45, 0x87, 0x47, 0x46, 0x86, 0x82, 0x42,", "	0x44, 0x84, 0x85, 0x45, 0x87, 0x47, 0x46, 0x86, 0x42, 0x82,")]
NEEDS = "a byte string whose running register hits table index 248 or 249"
BREAKS = "two neighbouring entries of the low table are swapped, so the checksum of such strings is not CRC-16/MODBUS"
DEMO = '''
package zdecoder

import "testing"

func TestDemo(t *testing.T) {
	b := []byte{0x07, 0x01, 0x02}
	c := uint16(0xFFFF)
	for _, x := range b {
		c ^= uint16(x)
		for k := 0; k < 8; k++ {
			if c&1 == 1 {
				c = c>>1 ^ 0xA001
			} else {
				c >>= 1
			}
		}
	}
	g := GetCrC(b)
	if g[0] != byte(c) || g[1] != byte(c>>8) {
		t.Fatalf("crc %x want %04x", g, c)
	}
}
'''
