package ztimer

import (
	"fmt"
	"math"
	"math/rand"
	"os"
	"strconv"
	"sync"
	"sync/atomic"
	"testing"
	"time"
)

func c17places(tw *TimeWheel, id uint32) (n int, where *TimeWheel, slot int) {
	for ; tw != nil; tw = tw.nextTimeWheel {
		tw.Lock()
		for i := range tw.timerQueue {
			if _, ok := tw.timerQueue[i][id]; ok {
				n, where, slot = n+1, tw, i
			}
		}
		tw.Unlock()
	}
	return
}

func TestVerifC17(t *testing.T) {
	seed, _ := strconv.Atoi(os.Getenv("VERIF_SEED"))
	rng := rand.New(rand.NewSource(int64(seed) + 17))
	cases := 0
	var nf int32
	fail := func(f string, a ...interface{}) {
		if atomic.AddInt32(&nf, 1) < 10 {
			fmt.Printf("VERIF-FAIL "+f+"\n", a...)
		}
		t.Fail()
	}
	rounds := 60
	if os.Getenv("VERIF_TIER") == "thorough" {
		rounds = 1500
	}
	fmt.Println("VERIF-BEGIN wheels at rest")
	nop := NewDelayFunc(func(...interface{}) {}, nil)
	for r := 0; r < rounds && nf == 0; r++ {
		depth := 1 + rng.Intn(3)
		var top, leaf *TimeWheel
		iv, sc := int64(3600000), 12
		for d := 0; d < depth; d++ {
			w := NewTimeWheel("w", iv, sc, 4)
			w.curIndex = rng.Intn(sc)
			if top == nil {
				top = w
			} else {
				leaf.AddTimeWheel(w)
			}
			leaf = w
			iv, sc = iv/60, 60
		}
		ts := &TimerScheduler{tw: top, IDGen: uint32(rng.Intn(3) * 1000)}
		live := map[uint32]int64{}
		for j := 0; j < 60 && nf == 0; j++ {
			cases++
			switch rng.Intn(5) {
			case 0, 1, 2:
				off := []int64{0, 1, -1, -5000, 50, 99, 100, 999, 1000, 1001, 59999, 60000, 3599999, 3600000, 3600001, 43200000, 50000000, int64(rng.Intn(100000)), int64(rng.Intn(100000000))}[rng.Intn(19)]
				before := UnixMilli()
				var id uint32
				if rng.Intn(2) == 0 {
					id, _ = ts.CreateTimerAfter(nop, time.Duration(off)*time.Millisecond)
				} else {
					id, _ = ts.CreateTimerAt(nop, (before+off)*1e6)
				}
				after := UnixMilli()
				if _, ok := live[id]; ok {
					fail("two timers have the id %d", id)
				}
				n, w, slot := c17places(top, id)
				if n != 1 {
					fail("a new timer (in %d ms, %d wheels) is in %d slots", off, depth, n)
					break
				}
				u := w.timerQueue[slot][id].unixts
				if u < before+off-1 || u > after+off+1 {
					fail("a timer for %d ms from now has the deadline now%+d ms", off, u-before)
				}
				live[id] = u
				// the wheel whose tick is not longer than the delay, and the slot that many ticks ahead
				good := false
				for now := before; now <= after && !good; now++ {
					x := top
					for x.nextTimeWheel != nil && u-now < x.interval {
						x = x.nextTimeWheel
					}
					k := int64(0)
					if u-now >= x.interval {
						k = (u - now) / x.interval
					}
					good = x == w && slot == int((int64(x.curIndex)+k)%int64(x.scales))
					if !good && u-now < x.interval && x.nextTimeWheel == nil {
						good = x == w && slot == x.curIndex
					}
				}
				if !good {
					fail("a timer %d ms ahead is %d slots ahead on the wheel of %d ms", u-after, slot-w.curIndex, w.interval)
				}
			case 3:
				for id := range live {
					ts.CancelTimer(id)
					if n, _, _ := c17places(top, id); n != 0 {
						fail("a cancelled timer is still in %d slots", n)
					}
					delete(live, id)
					break
				}
				ts.CancelTimer(4000000000)
			case 4:
				d := time.Duration(rng.Intn(300)) * time.Millisecond
				cur := map[uint32]int64{}
				for id, x := range leaf.timerQueue[leaf.curIndex] {
					cur[id] = x.unixts
				}
				before := UnixMilli()
				got := top.GetTimerWithIn(d)
				after := UnixMilli()
				for id, u := range cur {
					_, taken := got[id]
					if u-before < int64(d/time.Millisecond) && !taken || u-after >= int64(d/time.Millisecond) && taken {
						fail("taking timers due within %v: one due in %d ms: taken %v", d, u-before, taken)
					}
					if n, _, _ := c17places(top, id); n > 0 == taken {
						fail("a timer is returned: %v, and in %d slots afterwards", taken, n)
					}
				}
				for id := range got {
					if _, ok := cur[id]; !ok {
						fail("a timer that is not in the current slot was taken")
					}
					delete(live, id)
				}
			}
			for id := range live {
				if n, _, _ := c17places(top, id); n != 1 {
					fail("after %d operations a timer is in %d slots", j, n)
					break
				}
			}
		}
	}
	fmt.Println("VERIF-BEGIN turning wheels")
	leaf := NewTimeWheel("leaf", 20, 10, 4)
	mid := NewTimeWheel("mid", 200, 10, 4)
	top := NewTimeWheel("top", 2000, 3, 4)
	mid.AddTimeWheel(leaf)
	top.AddTimeWheel(mid)
	leaf.Run()
	mid.Run()
	top.Run()
	ts := &TimerScheduler{tw: top, triggerChan: make(chan *DelayFunc, MaxChanBuff)}
	ts.Start()
	go func() {
		for df := range ts.GetTriggerChan() {
			go df.Call()
		}
	}()
	type tm struct {
		id        uint32
		fired     int32
		early     int64
		want      int
		deadline  int64
		cancelled bool
	}
	var mu sync.Mutex
	var all []*tm
	ids := map[uint32]bool{}
	var wg sync.WaitGroup
	per := 60
	if os.Getenv("VERIF_TIER") == "thorough" {
		per = 600
	}
	for g := 0; g < 4; g++ {
		wg.Add(1)
		sd := rng.Int63()
		go func() {
			defer wg.Done()
			rng := rand.New(rand.NewSource(sd))
			for i := 0; i < per; i++ {
				x := &tm{want: 1}
				d := time.Duration(rng.Intn(4500)-300) * time.Millisecond
				if rng.Intn(8) == 0 {
					d, x.want = time.Duration(math.MaxInt64-rng.Int63n(1000)), 0
				}
				boom := rng.Intn(5) == 0
				x.deadline = UnixMilli() + int64(d/time.Millisecond)
				df := NewDelayFunc(func(v ...interface{}) {
					if e := x.deadline - UnixMilli(); e > atomic.LoadInt64(&x.early) {
						atomic.StoreInt64(&x.early, e)
					}
					atomic.AddInt32(&x.fired, 1)
					if len(v) != 2 || v[0] != 7 || v[1] != "s" {
						fail("a callback got the arguments %v", v)
					}
					if boom {
						panic("callback")
					}
				}, []interface{}{7, "s"})
				var err error
				x.id, err = ts.CreateTimerAfter(df, d)
				if err != nil {
					fail("a timer could not be created: %v", err)
				}
				time.Sleep(time.Duration(rng.Intn(12)) * time.Millisecond)
				if rng.Intn(4) == 0 {
					ts.CancelTimer(x.id)
					if UnixMilli() < x.deadline-MaxTimeDelay-50 || x.want == 0 {
						x.cancelled, x.want = true, 0
					} else {
						x.want = -1
					}
				}
				mu.Lock()
				if ids[x.id] {
					fail("two timers have the id %d", x.id)
				}
				ids[x.id] = true
				all = append(all, x)
				mu.Unlock()
			}
		}()
	}
	wg.Wait()
	for w := 0; w < 6000; w++ { // counted: at least 60 s before a timer counts as lost
		n := 0
		for _, x := range all {
			if x.want == 1 && atomic.LoadInt32(&x.fired) == 0 {
				n++
			}
		}
		if n == 0 {
			break
		}
		time.Sleep(10 * time.Millisecond)
	}
	time.Sleep(600 * time.Millisecond)
	for _, x := range all {
		cases++
		f := atomic.LoadInt32(&x.fired)
		switch {
		case x.cancelled && f != 0:
			fail("a cancelled timer fired %d times", f)
		case x.want == 0 && f != 0:
			fail("a timer for the far future fired")
		case x.want == 1 && f != 1:
			fail("a timer fired %d times", f)
		case f > 0 && atomic.LoadInt64(&x.early) > MaxTimeDelay+2:
			fail("a timer fired %d ms early", x.early)
		}
		if n, _, _ := c17places(top, x.id); n > 0 && (f > 0 || x.cancelled) {
			fail("a timer that fired or was cancelled is still in %d slots", n)
		}
	}
	fmt.Printf("VERIF-CASES %d\n", cases)
	fmt.Println("VERIF-DONE")
}
