package znet

import (
	"fmt"
	"math/rand"
	"os"
	"strconv"
	"sync"
	"testing"
	"time"
)

type c25conn interface {
	SetProperty(string, interface{})
	GetProperty(string) (interface{}, error)
	RemoveProperty(string)
}

func TestVerifC25(t *testing.T) {
	seed, _ := strconv.Atoi(os.Getenv("VERIF_SEED"))
	rng := rand.New(rand.NewSource(int64(seed) + 25))
	n, nf := 0, 0
	fail := func(f string, a ...interface{}) {
		nf++
		if nf < 10 {
			fmt.Printf("VERIF-FAIL "+f+"\n", a...)
		}
		t.Fail()
	}
	mk := map[string]func() c25conn{
		"TCP": func() c25conn { return &Connection{} }, "WebSocket": func() c25conn { return &WsConnection{} }, "KCP": func() c25conn { return &KcpConnection{} },
	}
	for name, f := range mk {
		for it := 0; it < 400; it++ {
			c := f()
			ref := map[string]interface{}{}
			h := ""
			for j := 0; j < 30; j++ {
				k := []string{"", "a", "b", "A", "key", "键"}[rng.Intn(6)]
				n++
				fmt.Fprintf(os.Stdout, "")
				done := make(chan bool, 1)
				var op string
				go func() {
					switch rng.Intn(3) {
					case 0:
						var v interface{} = rng.Intn(5)
						if rng.Intn(4) == 0 {
							v = nil
						}
						op = fmt.Sprintf("set(%q,%v)", k, v)
						c.SetProperty(k, v)
						ref[k] = v
					case 1:
						op = fmt.Sprintf("remove(%q)", k)
						c.RemoveProperty(k)
						delete(ref, k)
					case 2:
						op = fmt.Sprintf("get(%q)", k)
					}
					for _, q := range []string{"", "a", "b", "A", "key", "键"} {
						v, err := c.GetProperty(q)
						w, ok := ref[q]
						if ok != (err == nil) || (ok && v != w) || (!ok && v != nil) {
							fail("%s after %s %s: get(%q) = %v, %v; want %v, present=%v", name, h, op, q, v, err, w, ok)
						}
					}
					done <- true
				}()
				select {
				case <-done:
				case <-c25after(60 * time.Second):
					fail("%s after %s %s: no answer (locked)", name, h, op)
					fmt.Printf("VERIF-CASES %d\nVERIF-DONE\n", n)
					return
				}
				h += " " + op
			}
		}
		// concurrent users of different keys
		c := f()
		var wg sync.WaitGroup
		var mu sync.Mutex
		for g := 0; g < 8; g++ {
			wg.Add(1)
			go func(g int) {
				defer wg.Done()
				k := fmt.Sprint("k", g)
				for i := 0; i < 3000; i++ {
					c.SetProperty(k, i)
					v, err := c.GetProperty(k)
					bad := err != nil || v != i
					if i%7 == 0 {
						c.RemoveProperty(k)
						_, err = c.GetProperty(k)
						bad = bad || err == nil
					}
					if bad {
						mu.Lock()
						fail("%s: 8 concurrent users of their own keys: user %d reads %v, %v after setting %d", name, g, v, err, i)
						mu.Unlock()
						return
					}
				}
			}(g)
		}
		wg.Wait()
		n += 24000
	}
	fmt.Printf("VERIF-SAMPLE 3 transports x 400 histories of 30 operations, 8 concurrent users\nVERIF-CASES %d\nVERIF-DONE\n", n)
}

// c25after counts its waiting in steps, so that a machine that stands still for a while
// is not taken for code that hangs.
func c25after(d time.Duration) <-chan struct{} {
	ch := make(chan struct{})
	go func() {
		for ; d > 0; d -= 500 * time.Millisecond {
			time.Sleep(500 * time.Millisecond)
		}
		close(ch)
	}()
	return ch
}
