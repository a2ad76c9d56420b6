package znet

import (
	"bytes"
	"fmt"
	"math/rand"
	"os"
	"strconv"
	"sync"
	"testing"
	"time"

	"github.com/aceld/zinx/zconf"
	"github.com/aceld/zinx/ziface"
	"github.com/aceld/zinx/zpack"
)

type c22conn struct{ ziface.IConnection }
type c22router struct {
	BaseRouter
	ran int
}

func (r *c22router) PreHandle(ziface.IRequest)  { r.ran++ }
func (r *c22router) Handle(ziface.IRequest)     { r.ran++ }
func (r *c22router) PostHandle(ziface.IRequest) { r.ran++ }

func TestVerifC22(t *testing.T) {
	seed, _ := strconv.Atoi(os.Getenv("VERIF_SEED"))
	rng := rand.New(rand.NewSource(int64(seed) + 22))
	cases, nf := 0, 0
	var mu sync.Mutex
	fail := func(f string, a ...interface{}) {
		mu.Lock()
		defer mu.Unlock()
		nf++
		if nf < 10 {
			fmt.Printf("VERIF-FAIL "+f+"\n", a...)
		}
		t.Fail()
	}
	fmt.Println("VERIF-BEGIN requests")
	guard := func(what string, fn func()) {
		done := make(chan bool)
		go func() {
			defer close(done)
			defer func() {
				if e := recover(); e != nil {
					fail("%s panicked: %v", what, e)
				}
			}()
			fn()
		}()
		select {
		case <-done:
		case <-c22after(60 * time.Second):
			fail("%s did not return", what)
		}
	}
	rounds := 3000
	if os.Getenv("VERIF_TIER") == "thorough" {
		rounds = 60000
	}
	// pristine: what a request must expose right after it was obtained
	pristine := func(what string, q ziface.IRequest, conn ziface.IConnection, msg ziface.IMessage) {
		if q.GetConnection() != conn {
			fail("%s: wrong connection", what)
		}
		if q.GetMessage() != msg {
			fail("%s: wrong message", what)
		}
		if q.GetMsgID() != msg.GetMsgID() || !bytes.Equal(q.GetData(), msg.GetData()) {
			fail("%s: wrong id or data", what)
		}
		if q.GetResponse() != nil {
			fail("%s: has a response (%v)", what, q.GetResponse())
		}
		for i := 0; i < 12; i++ {
			if v, ok := q.Get("k" + strconv.Itoa(i)); ok || v != nil {
				fail("%s: context has k%d = %v", what, i, v)
			}
		}
	}
	saved := *zconf.GlobalObject
	defer func() { *zconf.GlobalObject = saved }()
	for r := 0; r < rounds && nf == 0; r++ {
		zconf.GlobalObject.RequestPoolMode = r%3 != 0
		zconf.GlobalObject.RouterSlicesMode = r%2 == 0
		pool := []*Request{}
		if r%2 == 1 { // a recycled request with every kind of leftover, handed back through the pool
			old := GetRequest(&c22conn{}, zpack.NewMsgPackage(9, []byte("old")))
			old.SetResponse("leftover")
			old.BindRouter(&c22router{})
			old.Set("k1", 1)
			old.BindRouterSlices([]ziface.RouterHandler{func(ziface.IRequest) { fail("a handler of the previous use ran") }})
			if rng.Intn(2) == 0 {
				old.Goto(HANDLE)
			}
			if rng.Intn(2) == 0 {
				old.Abort()
			}
			if rng.Intn(2) == 0 {
				q := old.(*Request)
				pool = append(pool, q)
			}
			PutRequest(old)
		}
		cases++
		guard("GetRequest", func() {
			conn := &c22conn{}
			msg := zpack.NewMsgPackage(rng.Uint32(), []byte(fmt.Sprint("raw", r)))
			if rng.Intn(2) == 0 { // decoded messages differ from their raw data
				msg.SetData([]byte(fmt.Sprint("decoded", r)))
				msg.SetDataLen(uint32(len(msg.GetData())))
			}
			q := GetRequest(conn, msg)
			pristine("GetRequest", q, conn, msg)
			if rng.Intn(4) == 0 {
				q = NewRequest(conn, msg)
				pristine("NewRequest", q, conn, msg)
			}
			for _, x := range pool { // Reset on an object in any state
				x.Reset(conn, msg)
				pristine("Reset", x, conn, msg)
				q = x
			}
			// no router, no handlers, first step
			q.Call()
			rt := &c22router{}
			q.BindRouter(rt)
			if rng.Intn(2) == 0 {
				q.Call()
				if rt.ran != 3 {
					fail("a new request ran %d steps", rt.ran)
				}
			}
			q.RouterSlicesNext()
			if rng.Intn(2) == 0 {
				q = GetRequest(conn, msg)
			}
			// context and copies
			want := map[string]interface{}{}
			var cp ziface.IRequest
			var cpWant map[string]interface{}
			var resp interface{}
			check := func(what string, q ziface.IRequest, want map[string]interface{}) {
				for i := 0; i < 12; i++ {
					k := "k" + strconv.Itoa(i)
					v, ok := q.Get(k)
					w, wok := want[k]
					if ok != wok || v != w {
						fail("%s: Get(%s) = %v,%v want %v,%v", what, k, v, ok, w, wok)
					}
				}
			}
			for op := 0; op < 20; op++ {
				k, v := "k"+strconv.Itoa(rng.Intn(10)), interface{}(rng.Intn(1000))
				if rng.Intn(8) == 0 {
					v = nil
				}
				switch rng.Intn(6) {
				case 0, 1:
					q.Set(k, v)
					want[k] = v
				case 2:
					if cp != nil {
						cp.Set(k, v)
						cpWant[k] = v
					}
				case 3:
					resp = rng.Intn(100)
					if rng.Intn(4) == 0 {
						resp = nil
					}
					q.SetResponse(resp)
				case 4:
					cp = q.Copy()
					cpWant = map[string]interface{}{}
					for k, v := range want {
						cpWant[k] = v
					}
					if cp.GetConnection() != nil {
						fail("a copy reaches the connection")
					}
					if cp.GetMsgID() != msg.GetMsgID() || !bytes.Equal(cp.GetData(), msg.GetData()) || cp.GetMessage().GetDataLen() != msg.GetDataLen() {
						fail("copy: id %d data %q len %d, want %d %q %d", cp.GetMsgID(), cp.GetData(), cp.GetMessage().GetDataLen(), msg.GetMsgID(), msg.GetData(), msg.GetDataLen())
					}
					if cp.GetResponse() != resp {
						fail("copy: response %v, want %v", cp.GetResponse(), resp)
					}
					n := rt.ran
					hit := false
					q.BindRouterSlices([]ziface.RouterHandler{func(ziface.IRequest) { hit = true }})
					c2 := q.Copy()
					c2.Call()
					c2.RouterSlicesNext()
					if rt.ran != n || hit {
						fail("a copy ran the handlers of the original")
					}
				}
				check("request", q, want)
				if cp != nil {
					check("copy", cp, cpWant)
				}
				if q.GetResponse() != resp {
					fail("response %v, want %v", q.GetResponse(), resp)
				}
			}
			if rng.Intn(2) == 0 {
				PutRequest(q)
				if cp != nil {
					check("copy after the original was recycled", cp, cpWant)
					if cp.GetMsgID() != msg.GetMsgID() {
						fail("copy changed after the original was recycled")
					}
				}
			}
		})
	}
	// concurrent use of one context
	guard("concurrent context", func() {
		q := NewRequest(&c22conn{}, zpack.NewMsgPackage(1, nil))
		var wg sync.WaitGroup
		for g := 0; g < 8; g++ {
			wg.Add(1)
			go func(g int) {
				defer wg.Done()
				for i := 0; i < 300; i++ {
					k := fmt.Sprint(g, "-", i)
					q.Set(k, i)
					if v, ok := q.Get(k); !ok || v != i {
						fail("Get(%s) = %v,%v", k, v, ok)
					}
					if i%20 == 0 {
						if v, ok := q.Copy().Get(k); !ok || v != i {
							fail("Copy().Get(%s) = %v,%v", k, v, ok)
						}
					}
				}
			}(g)
		}
		wg.Wait()
		cases++
	})
	fmt.Printf("VERIF-CASES %d\n", cases)
	fmt.Println("VERIF-SAMPLE recycled requests with a leftover response, router, handlers, context, jump or abort; copies of decoded messages")
	fmt.Println("VERIF-DONE")
}

// c22after counts its waiting in steps, so that a machine that stands still for a while
// is not taken for code that hangs.
func c22after(d time.Duration) <-chan struct{} {
	ch := make(chan struct{})
	go func() {
		for ; d > 0; d -= 500 * time.Millisecond {
			time.Sleep(500 * time.Millisecond)
		}
		close(ch)
	}()
	return ch
}
