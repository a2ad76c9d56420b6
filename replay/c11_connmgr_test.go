package znet

import (
	"errors"
	"fmt"
	"math/rand"
	"os"
	"sort"
	"strconv"
	"sync"
	"sync/atomic"
	"testing"
	"time"

	"github.com/aceld/zinx/ziface"
)

type c11conn struct {
	ziface.IConnection
	id      uint64
	stopped int32
	mgr     ziface.IConnManager
	remove  bool
}

func (c *c11conn) GetConnID() uint64    { return c.id }
func (c *c11conn) GetConnIdStr() string { return strconv.FormatUint(c.id, 10) }
func (c *c11conn) Stop() {
	atomic.AddInt32(&c.stopped, 1)
	if c.remove {
		c.mgr.Remove(c)
	}
}

func TestVerifC11(t *testing.T) {
	seed, _ := strconv.Atoi(os.Getenv("VERIF_SEED"))
	rng := rand.New(rand.NewSource(int64(seed) + 11))
	cases, nf := 0, 0
	var mu sync.Mutex
	fail := func(f string, a ...interface{}) {
		mu.Lock()
		defer mu.Unlock()
		nf++
		if nf < 10 {
			fmt.Printf("VERIF-FAIL "+f+"\n", a...)
		}
		t.Fail()
	}
	guard := func(what string, fn func()) {
		done := make(chan bool)
		go func() {
			defer func() {
				if e := recover(); e != nil {
					fail("%s panicked: %v", what, e)
				}
				close(done)
			}()
			fn()
		}()
		select {
		case <-done:
		case <-c11after(60 * time.Second):
			fail("%s never returned", what)
		}
	}
	check := func(m ziface.IConnManager, want map[uint64]*c11conn, pool []uint64, h string) {
		if m.Len() != len(want) {
			fail("%s: Len=%d, want %d", h, m.Len(), len(want))
		}
		for _, id := range pool {
			c, err := m.Get(id)
			c2, err2 := m.Get2(strconv.FormatUint(id, 10))
			w, ok := want[id]
			if ok && (err != nil || err2 != nil || c != ziface.IConnection(w) || c2 != ziface.IConnection(w)) {
				fail("%s: connection %d not found by id (%v, %v)", h, id, err, err2)
			}
			if !ok && (err == nil || err2 == nil || c != nil || c2 != nil) {
				fail("%s: id %d found although not registered", h, id)
			}
		}
		var ids []uint64
		for id := range want {
			ids = append(ids, id)
		}
		sort.Slice(ids, func(a, b int) bool { return ids[a] < ids[b] })
		got := append([]uint64(nil), m.GetAllConnID()...)
		sort.Slice(got, func(a, b int) bool { return got[a] < got[b] })
		var gs []uint64
		for _, s := range m.GetAllConnIdStr() {
			n, err := strconv.ParseUint(s, 10, 64)
			if err != nil || strconv.FormatUint(n, 10) != s {
				fail("%s: bad id string %q", h, s)
			}
			gs = append(gs, n)
		}
		sort.Slice(gs, func(a, b int) bool { return gs[a] < gs[b] })
		if fmt.Sprint(got) != fmt.Sprint(ids) || fmt.Sprint(gs) != fmt.Sprint(ids) {
			fail("%s: ids %v / %v, want %v", h, got, gs, ids)
		}
		for mode := 0; mode < 2; mode++ {
			seen := map[uint64]int{}
			arg := &struct{}{}
			ret := func(id uint64) error {
				if id%3 == 0 {
					return errors.New("callback error")
				}
				return nil
			}
			if mode == 0 {
				m.Range(func(id uint64, c ziface.IConnection, a interface{}) error {
					if c != ziface.IConnection(want[id]) || a != interface{}(arg) {
						fail("%s: Range passes (%d, %v)", h, id, c)
					}
					seen[id]++
					return ret(id)
				}, arg)
			} else {
				m.Range2(func(s string, c ziface.IConnection, a interface{}) error {
					id, _ := strconv.ParseUint(s, 10, 64)
					if c != ziface.IConnection(want[id]) || a != interface{}(arg) {
						fail("%s: Range2 passes (%s, %v)", h, s, c)
					}
					seen[id]++
					return ret(id)
				}, arg)
			}
			if len(seen) != len(want) {
				fail("%s: Range%d visited %d of %d connections", h, mode+1, len(seen), len(want))
			}
			for id, n := range seen {
				if n != 1 {
					fail("%s: Range%d visited %d %d times", h, mode+1, id, n)
				}
			}
		}
	}
	fmt.Println("VERIF-BEGIN histories")
	runs := 60
	if os.Getenv("VERIF_TIER") == "thorough" {
		runs = 600
	}
	for it := 0; it < runs && nf == 0; it++ {
		guard(fmt.Sprintf("history %d", it), func() {
			m := newConnManager()
			want := map[uint64]*c11conn{}
			np := []int{2, 12, 200}[it%3]
			pool := []uint64{0, 1, 1<<64 - 1, 1 << 63, 10, 100, 1000}[:rng.Intn(7)+1]
			for len(pool) < np {
				if rng.Intn(2) == 0 {
					pool = append(pool, uint64(len(pool)+100000))
				} else {
					pool = append(pool, rng.Uint64())
				}
			}
			for op := 0; op < 40; op++ {
				id := pool[rng.Intn(len(pool))]
				switch {
				case rng.Intn(3) > 0:
					c := &c11conn{id: id, mgr: m}
					m.Add(c)
					want[id] = c
				default:
					m.Remove(&c11conn{id: id})
					delete(want, id)
				}
				cases++
				if op%8 == 0 || np < 20 {
					check(m, want, pool, fmt.Sprintf("history %d after %d operations", it, op+1))
				}
			}
			check(m, want, pool, fmt.Sprintf("history %d", it))
			rm := it%2 == 0
			for _, c := range want {
				c.remove = rm
			}
			m.ClearConn()
			for id, c := range want {
				if c.stopped != 1 {
					fail("history %d: ClearConn stopped connection %d %d times", it, id, c.stopped)
				}
			}
			if rm && m.Len() != 0 {
				fail("history %d: %d connections left after ClearConn", it, m.Len())
			}
		})
	}
	fmt.Println("VERIF-BEGIN concurrent users of their own ids")
	for it := 0; it < 20 && nf == 0; it++ {
		m := newConnManager()
		var wg sync.WaitGroup
		for g := 0; g < 8; g++ {
			wg.Add(1)
			go func(g int) {
				defer wg.Done()
				for i := 0; i < 60; i++ {
					id := uint64(g + 8*(i%7))
					c := &c11conn{id: id}
					m.Add(c)
					if x, err := m.Get(id); err != nil || x != ziface.IConnection(c) {
						fail("concurrent: connection %d added and not found", id)
					}
					m.Range(func(uint64, ziface.IConnection, interface{}) error { return nil }, nil)
					m.Len()
					if i%7 != 3 {
						m.Remove(c)
						if _, err := m.Get(id); err == nil {
							fail("concurrent: connection %d removed and still found", id)
						}
					}
				}
			}(g)
		}
		wg.Wait()
		cases++
		if m.Len() != 8 {
			fail("concurrent: %d connections left, want 8", m.Len())
		}
	}
	fmt.Printf("VERIF-SAMPLE registry histories over pools of 2, 12 and 200 ids\nVERIF-CASES %d\nVERIF-DONE\n", cases)
}

// c11after counts its waiting in steps, so that a machine that stands still for a while
// is not taken for code that hangs.
func c11after(d time.Duration) <-chan struct{} {
	ch := make(chan struct{})
	go func() {
		for ; d > 0; d -= 500 * time.Millisecond {
			time.Sleep(500 * time.Millisecond)
		}
		close(ch)
	}()
	return ch
}
