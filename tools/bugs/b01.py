ID, PROP, PKG = "b01-clock-tolerance", "C16", "zutils"
EDITS = [("zutils/snowflake_uuid.go", "if timestamp < w.lastTimestamp {", "if w.lastTimestamp-timestamp > 5 {")]
NEEDS = "the wall clock stepping back by 1 to 5 ms between two calls"
BREAKS = "a small backwards clock step is tolerated, so an id smaller than (or equal to) an earlier one is handed out"
DEMO = '''
package zutils

import (
	"testing"
	"time"
)

func TestDemo(t *testing.T) {
	for try := 0; try < 50; try++ {
		w, _ := NewIDWorker(3)
		w.lastTimestamp = time.Now().UnixNano()/1000000 + 3
		w.sequence = 9
		last := w.lastTimestamp<<22 | 3<<12 | 9
		id, err := w.NextID()
		if err == nil && id <= last {
			t.Fatalf("id %d after %d", id, last)
		}
	}
}
'''
