package zutils

import (
	"fmt"
	"sync"
	"testing"
	"time"
)

func TestVerifC16(t *testing.T) {
	cases := 0
	fail := func(f string, a ...interface{}) { fmt.Printf("VERIF-FAIL "+f+"\n", a...); t.Fail() }
	for w := int64(-3); w <= 1027; w++ {
		fmt.Println("VERIF-BEGIN NewIDWorker", w)
		cases++
		x, err := NewIDWorker(w)
		if (err == nil) != (w >= 0 && w <= 1023) {
			fail("NewIDWorker(%d): err=%v", w, err)
		}
		if err == nil && (w == 0 || w == 1 || w == 511 || w == 1023) {
			last := int64(-1)
			for i := 0; i < 9000; i++ {
				id, e := x.NextID()
				cases++
				if e != nil {
					continue
				}
				if id <= last {
					fail("worker %d: id %d after %d", w, id, last)
					return
				}
				if (id>>12)&1023 != w {
					fail("worker %d: id %d carries worker %d", w, id, (id>>12)&1023)
					return
				}
				if id>>22 != x.lastTimestamp || id&4095 != x.sequence {
					fail("worker %d: id %d does not encode time %d sequence %d", w, id, x.lastTimestamp, x.sequence)
					return
				}
				last = id
			}
			// clock moved backwards: error, no id, state unchanged
			save := x.lastTimestamp
			x.lastTimestamp += 3600000
			s := x.sequence
			fmt.Println("VERIF-BEGIN NextID with the clock one hour behind the last id")
			id, e := x.NextID()
			if e == nil {
				fail("clock behind by an hour: id %d handed out", id)
			}
			if x.lastTimestamp != save+3600000 || x.sequence != s {
				fail("clock behind: state changed")
			}
		}
	}
	// every clock position relative to the last id, every kind of sequence state
	for _, ahead := range []int64{-1000, -2, -1, 0, 0, 0, 1, 2, 3, 4, 5, 8, 10, 20, 50, 100, 1000, 5000, 60000} {
		for _, seq := range []int64{0, 1, 9, 4094, 4095} {
			for try := 0; try < 5; try++ {
				x, err := NewIDWorker(5)
				if err != nil {
					continue
				}
				cases++
				x.lastTimestamp = time.Now().UnixNano()/1000000 + ahead
				x.sequence = seq
				last := x.lastTimestamp<<22 | 5<<12 | seq
				fmt.Println("VERIF-BEGIN NextID, last id", ahead, "ms ahead of the clock, sequence", seq)
				for k := 0; k < 3; k++ {
					id, e := x.NextID()
					if e == nil && id <= last {
						fail("last id %d ms ahead of the clock, sequence %d: call %d hands out %d after %d", ahead, seq, k, id, last)
						break
					}
					if e == nil {
						last = id
					}
				}
			}
		}
	}
	// concurrent callers
	x, err := NewIDWorker(7)
	if err == nil {
		fmt.Println("VERIF-BEGIN 8 concurrent callers")
		var wg sync.WaitGroup
		out := make([][]int64, 8)
		for g := 0; g < 8; g++ {
			wg.Add(1)
			go func(g int) {
				defer wg.Done()
				for i := 0; i < 20000; i++ {
					if id, e := x.NextID(); e == nil {
						out[g] = append(out[g], id)
					}
				}
			}(g)
		}
		wg.Wait()
		seen := map[int64]bool{}
		for g := range out {
			last := int64(-1)
			for _, id := range out[g] {
				cases++
				if seen[id] {
					fail("id %d handed out twice under concurrency", id)
					return
				}
				if id <= last {
					fail("one caller got %d after %d", id, last)
					return
				}
				last = id
				seen[id] = true
			}
		}
	}
	fmt.Println("VERIF-CASES", cases)
	fmt.Println("VERIF-DONE")
}
