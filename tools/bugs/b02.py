ID, PROP, PKG = "b02-limit-signed", "C01", "zpack"
EDITS = [("zpack/datapack_ltv_littleendian.go", "msg.GetDataLen() > zconf.GlobalObject.MaxPacketSize", "int32(msg.GetDataLen()) > int32(zconf.GlobalObject.MaxPacketSize)")]
NEEDS = "a legacy-format header declaring a length of 2^31 or more"
BREAKS = "such lengths count as negative and pass the packet-size limit"
DEMO = '''
package zpack

import (
	"testing"

	"github.com/aceld/zinx/zconf"
)

func TestDemo(t *testing.T) {
	zconf.GlobalObject.MaxPacketSize = 4096
	if m, err := NewDataPackLtv().Unpack([]byte{1, 0, 0, 0x90, 5, 0, 0, 0}); err == nil {
		t.Fatalf("declared length %d accepted", m.GetDataLen())
	}
}
'''
