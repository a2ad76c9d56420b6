package znotify

import (
	"bytes"
	"errors"
	"fmt"
	"math/rand"
	"os"
	"strconv"
	"sync"
	"testing"
	"time"

	"github.com/aceld/zinx/ziface"
)

type c23sent struct {
	buff bool
	id   uint32
	data []byte
}
type c23conn struct {
	ziface.IConnection
	mu   sync.Mutex
	got  []c23sent
	fail error
}

func (c *c23conn) SendMsg(id uint32, data []byte) error {
	c.mu.Lock()
	defer c.mu.Unlock()
	c.got = append(c.got, c23sent{false, id, append([]byte(nil), data...)})
	return c.fail
}
func (c *c23conn) SendBuffMsg(id uint32, data []byte) error {
	c.mu.Lock()
	defer c.mu.Unlock()
	c.got = append(c.got, c23sent{true, id, append([]byte(nil), data...)})
	return c.fail
}
func (c *c23conn) IsAlive() bool        { return c.fail == nil }
func (c *c23conn) GetConnID() uint64    { return 7 }
func (c *c23conn) GetConnIdStr() string { return "7" }

func TestVerifC23(t *testing.T) {
	seed, _ := strconv.Atoi(os.Getenv("VERIF_SEED"))
	rng := rand.New(rand.NewSource(int64(seed) + 23))
	cases, nf := 0, 0
	var mu sync.Mutex
	fail := func(f string, a ...interface{}) {
		mu.Lock()
		defer mu.Unlock()
		nf++
		if nf < 10 {
			fmt.Printf("VERIF-FAIL "+f+"\n", a...)
		}
		t.Fail()
	}
	runs := 60
	if os.Getenv("VERIF_TIER") == "thorough" {
		runs = 800
	}
	fmt.Println("VERIF-BEGIN histories")
	for it := 0; it < runs && nf == 0; it++ {
		done := make(chan bool)
		go func() {
			defer close(done)
			defer func() {
				if e := recover(); e != nil {
					fail("history %d panicked: %v", it, e)
				}
			}()
			n := NewZNotify()
			want := map[uint64]*c23conn{}
			all := []*c23conn{}
			for i := 0; i < 12; i++ {
				c := &c23conn{}
				if i%3 == 1 {
					c.fail = errors.New("peer gone")
				}
				all = append(all, c)
			}
			pool := []uint64{0, 1, 1<<64 - 1, 1 << 63, 10, 100, 11}
			for len(pool) < []int{8, 60}[it%2] {
				pool = append(pool, rng.Uint64()>>uint(rng.Intn(64)))
			}
			expect := func(what string, w map[*c23conn][]c23sent) {
				for i, c := range all {
					g := c.got
					c.got = nil
					x := w[c]
					ok := len(g) == len(x)
					for j := 0; ok && j < len(g); j++ {
						ok = g[j].buff == x[j].buff && g[j].id == x[j].id && bytes.Equal(g[j].data, x[j].data)
					}
					if !ok {
						fail("history %d: %s: connection %d received %v, want %v", it, what, i, g, x)
					}
				}
			}
			for op := 0; op < 60 && nf == 0; op++ {
				id := pool[rng.Intn(len(pool))]
				msg := rng.Uint32() >> uint(rng.Intn(32))
				data := make([]byte, rng.Intn(20))
				rng.Read(data)
				if rng.Intn(6) == 0 {
					data = nil
				}
				cases++
				switch rng.Intn(8) {
				case 0, 1:
					c := all[rng.Intn(len(all))]
					n.SetNotifyID(id, c)
					want[id] = c
					expect("SetNotifyID", nil)
				case 2:
					n.DelNotifyByID(id)
					delete(want, id)
					expect("DelNotifyByID", nil)
				case 3, 4, 5:
					buff := rng.Intn(2) == 0
					var err error
					what := fmt.Sprintf("notify id %d message %d", id, msg)
					if buff {
						err = n.NotifyBuffToConnByID(id, msg, data)
					} else {
						err = n.NotifyToConnByID(id, msg, data)
					}
					c, ok := want[id]
					if ok {
						expect(what, map[*c23conn][]c23sent{c: {{buff, msg, data}}})
						if (err != nil) != (c.fail != nil) {
							fail("history %d: %s: error %v, send error %v", it, what, err, c.fail)
						}
					} else {
						expect(what+" (unregistered)", nil)
						if err == nil {
							fail("history %d: %s: no error for an unregistered id", it, what)
						}
					}
				default:
					buff := rng.Intn(2) == 0
					if buff {
						n.NotifyBuffAll(msg, data)
					} else {
						n.NotifyAll(msg, data)
					}
					w := map[*c23conn][]c23sent{}
					for _, c := range want {
						w[c] = append(w[c], c23sent{buff, msg, data})
					}
					expect(fmt.Sprintf("broadcast of message %d", msg), w)
				}
				if n.ConnNums() != len(want) {
					fail("history %d: ConnNums=%d, want %d", it, n.ConnNums(), len(want))
				}
				for _, id := range pool {
					c, ok := want[id]
					if n.HasIdConn(id) != ok {
						fail("history %d: HasIdConn(%d)=%v", it, id, !ok)
					}
					g, err := n.GetNotifyByID(id)
					if ok && (err != nil || g != ziface.IConnection(c)) || !ok && (err == nil || g != nil) {
						fail("history %d: GetNotifyByID(%d)=%v,%v", it, id, g, err)
					}
				}
			}
		}()
		select {
		case <-done:
		case <-c23after(60 * time.Second):
			fail("history %d never ended", it)
		}
	}
	fmt.Println("VERIF-BEGIN concurrent users of their own ids")
	for it := 0; it < 15 && nf == 0; it++ {
		n := NewZNotify()
		var wg sync.WaitGroup
		for g := 0; g < 8; g++ {
			wg.Add(1)
			go func(g int) {
				defer wg.Done()
				for i := 0; i < 80; i++ {
					id := uint64(g + 8*(i%9))
					c := &c23conn{}
					n.SetNotifyID(id, c)
					n.NotifyToConnByID(id, 5, []byte{1})
					n.ConnNums()
					c.mu.Lock()
					if len(c.got) < 1 {
						fail("concurrent: id %d registered and not notified", id)
					}
					c.mu.Unlock()
					if i%9 != 4 {
						n.DelNotifyByID(id)
						if n.HasIdConn(id) {
							fail("concurrent: id %d deleted and still there", id)
						}
					}
				}
			}(g)
		}
		wg.Wait()
		cases++
		if n.ConnNums() != 8 {
			fail("concurrent: %d ids left, want 8", n.ConnNums())
		}
	}
	fmt.Printf("VERIF-SAMPLE registrations, deletions, notifications and broadcasts over pools of 8 and 60 ids\nVERIF-CASES %d\nVERIF-DONE\n", cases)
}

// c23after counts its waiting in steps, so that a machine that stands still for a while
// is not taken for code that hangs.
func c23after(d time.Duration) <-chan struct{} {
	ch := make(chan struct{})
	go func() {
		for ; d > 0; d -= 500 * time.Millisecond {
			time.Sleep(500 * time.Millisecond)
		}
		close(ch)
	}()
	return ch
}
