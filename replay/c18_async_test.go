package zasync_op

import (
	"fmt"
	"math"
	"math/rand"
	"os"
	"runtime"
	"strconv"
	"sync"
	"sync/atomic"
	"testing"
	"time"

	"github.com/aceld/zinx/ziface"
	"github.com/aceld/zinx/zlog"
)

type c18nolog struct{ ziface.ILogger }

func (c18nolog) ErrorF(string, ...interface{}) {}
func (c18nolog) InfoF(string, ...interface{})  {}
func (c18nolog) DebugF(string, ...interface{}) {}

type c18handler struct {
	ziface.IMsgHandle
	mu  sync.Mutex
	got []ziface.IRequest
}

func (h *c18handler) SendMsgToTaskQueue(r ziface.IRequest) {
	h.mu.Lock()
	h.got = append(h.got, r)
	h.mu.Unlock()
}

type c18conn struct {
	ziface.IConnection
	h *c18handler
}

func (c *c18conn) GetMsgHandler() ziface.IMsgHandle { return c.h }

func TestVerifC18(t *testing.T) {
	zlog.SetLogger(c18nolog{})
	seed, _ := strconv.Atoi(os.Getenv("VERIF_SEED"))
	rng := rand.New(rand.NewSource(int64(seed) + 18))
	cases, nf := 0, 0
	var mu sync.Mutex
	fail := func(f string, a ...interface{}) {
		mu.Lock()
		defer mu.Unlock()
		nf++
		if nf < 10 {
			fmt.Printf("VERIF-FAIL "+f+"\n", a...)
		}
		t.Fail()
	}
	runs := 20000
	if os.Getenv("VERIF_TIER") == "thorough" {
		runs = 200000
	}
	fmt.Println("VERIF-BEGIN")
	for it := 0; it < runs; it++ {
		cases++
		conn := &c18conn{h: &c18handler{}}
		aor := NewAsyncOpResult(conn)
		ns, nc := rng.Intn(3), rng.Intn(3)
		var seen [4]int32
		var wg sync.WaitGroup
		start := make(chan struct{})
		var early int32
		run := func(f func(), spin int) {
			wg.Add(1)
			go func() {
				defer wg.Done()
				<-start
				for i := 0; i < spin; i++ {
					runtime.Gosched()
				}
				f()
			}()
		}
		serial := rng.Intn(4) == 0
		var todo []func()
		for i := 0; i < ns; i++ {
			i := i
			todo = append(todo, func() { aor.SetReturnedObj(i + 1) })
		}
		for i := 0; i < nc; i++ {
			i := i
			todo = append(todo, func() {
				aor.OnComplete(func() {
					atomic.AddInt32(&seen[i], 1)
					if aor.GetReturnedObj() == nil {
						atomic.AddInt32(&early, 1)
					}
				})
			})
		}
		rng.Shuffle(len(todo), func(i, j int) { todo[i], todo[j] = todo[j], todo[i] })
		var dispatch sync.WaitGroup
		stop := make(chan struct{})
		// the worker: takes callbacks as soon as they are handed over
		dispatch.Add(1)
		go func() {
			defer dispatch.Done()
			done := 0
			for {
				conn.h.mu.Lock()
				q := append([]ziface.IRequest(nil), conn.h.got[done:]...)
				conn.h.mu.Unlock()
				done += len(q)
				for _, r := range q {
					if r.GetConnection() != ziface.IConnection(conn) {
						fail("C18 the callback was handed over for another connection (round %d)", it)
					}
					if f, ok := r.(ziface.IFuncRequest); ok {
						f.CallFunc()
					} else {
						fail("C18 what was handed over is not a callable task: %T", r)
					}
				}
				select {
				case <-stop:
					conn.h.mu.Lock()
					n := len(conn.h.got)
					conn.h.mu.Unlock()
					if n == done {
						return
					}
				default:
					runtime.Gosched()
				}
			}
		}()
		if serial {
			for i, f := range todo {
				f()
				if (ns == 0 || nc == 0) && len(conn.h.got) > 0 {
					fail("C18 a callback was handed over after %d calls although only one side was set", i+1)
				}
			}
		} else {
			for _, f := range todo {
				run(f, rng.Intn(3))
			}
			close(start)
			wg.Wait()
		}
		close(stop)
		dispatch.Wait()
		want := int32(0)
		if ns > 0 && nc > 0 {
			want = 1
		}
		if tot := seen[0] + seen[1] + seen[2]; tot != want {
			fail("C18 %d results and %d callbacks set (serial=%v): callbacks ran %d times, want %d", ns, nc, serial, tot, want)
		}
		if early > 0 {
			fail("C18 %d results and %d callbacks set (serial=%v): the callback ran before the result was there", ns, nc, serial)
		}
		if ns > 0 {
			v := aor.GetReturnedObj()
			aor.SetReturnedObj("late")
			if aor.GetReturnedObj() != v || v == nil {
				fail("C18 a later result replaced %v by %v", v, aor.GetReturnedObj())
			}
		}
	}
	// keyed operations
	keys := []int{0, 1, -1, 2047, 2048, 2049, -2048, -2047, -5000, 5000, math.MaxInt64, math.MinInt64, math.MinInt64 + 1, 77, -77}
	type rec struct {
		key, no int
		gid     *AsyncWorker
	}
	for round := 0; round < runs/4000+1; round++ {
		per := 200
		logs := make([][]int, len(keys))
		var running [15]int32
		var wg sync.WaitGroup
		var panics int32
		for ki, k := range keys {
			ki, k := ki, k
			ops := rng.Perm(per)
			wg.Add(1)
			go func() {
				defer wg.Done()
				var left sync.WaitGroup
				for n := 0; n < per; n++ {
					n := n
					left.Add(1)
					boom := ops[n]%5 == 0
					Process(k, func() {
						defer left.Done()
						if atomic.AddInt32(&running[ki], 1) != 1 {
							fail("C18 two operations of key %d run at the same time", k)
						}
						logs[ki] = append(logs[ki], n)
						if n%50 == 0 {
							runtime.Gosched()
						}
						atomic.AddInt32(&running[ki], -1)
						if boom {
							atomic.AddInt32(&panics, 1)
							panic("operation")
						}
					})
					if n%40 == 0 {
						Process(k, nil)
					}
				}
				ok := make(chan struct{})
				go func() { left.Wait(); close(ok) }()
				select {
				case <-ok:
				case <-c18after(20 * time.Second):
					fail("C18 operations of key %d never ran (a panic stopped the worker?)", k)
				}
			}()
		}
		wg.Wait()
		for ki, l := range logs {
			cases += len(l)
			if len(l) != per {
				fail("C18 key %d: %d operations ran, want %d", keys[ki], len(l), per)
				continue
			}
			for n, x := range l {
				if x != n {
					fail("C18 key %d: operation %d ran in place %d", keys[ki], x, n)
					break
				}
			}
		}
		for _, k := range keys {
			if getCurWorker(k) != getCurWorker(k) || getCurWorker(k) == nil {
				fail("C18 key %d has no fixed worker", k)
			}
		}
	}
	if nf > 0 {
		fmt.Printf("VERIF-FAIL C18 %d failures in all\n", nf)
	}
	fmt.Printf("VERIF-CASES %d\nVERIF-DONE\n", cases)
}

// c18after counts its waiting in steps, so that a machine that stands still for a while
// is not taken for code that hangs.
func c18after(d time.Duration) <-chan struct{} {
	ch := make(chan struct{})
	go func() {
		for ; d > 0; d -= 500 * time.Millisecond {
			time.Sleep(500 * time.Millisecond)
		}
		close(ch)
	}()
	return ch
}
