package znet

import (
	"fmt"
	"math/rand"
	"os"
	"strconv"
	"testing"

	"github.com/aceld/zinx/ziface"
	"github.com/aceld/zinx/zinterceptor"
	"github.com/aceld/zinx/zpack"
)

type c06int struct {
	id   int
	beh  int
	log  *[]string
	next ziface.IcReq
}

func (c *c06int) Intercept(ch ziface.IChain) ziface.IcResp {
	r := ch.Request()
	s := fmt.Sprintf("%d(%s)", c.id, c06req(r))
	*c.log = append(*c.log, s)
	switch c.beh {
	case 0:
		x := ch.Proceed(r)
		return fmt.Sprintf("%d<%v", c.id, c06resp(x))
	case 1:
		return fmt.Sprintf("stop%d", c.id)
	case 2:
		x := ch.Proceed(c.next)
		return fmt.Sprintf("%d<%v", c.id, c06resp(x))
	case 3:
		x := ch.ProceedWithIMessage(ch.GetIMessage(), fmt.Sprintf("val%d", c.id))
		return fmt.Sprintf("%d<%v", c.id, c06resp(x))
	case 4:
		x := ch.ProceedWithIMessage(ch.GetIMessage(), nil)
		return fmt.Sprintf("%d<%v", c.id, c06resp(x))
	case 5:
		x := ch.ProceedWithIMessage(nil, "ignored")
		return fmt.Sprintf("%d<%v", c.id, c06resp(x))
	}
	return nil
}

func c06req(r ziface.IcReq) string {
	switch q := r.(type) {
	case *Request:
		return fmt.Sprintf("req%d:%v", q.msg.GetMsgID(), q.icResp)
	case nil:
		return "nil"
	}
	return fmt.Sprint(r)
}

func c06resp(r ziface.IcResp) string {
	if q, ok := r.(*Request); ok {
		return "end-" + c06req(q)
	}
	return fmt.Sprint(r)
}

// reference: what the chain of ids/behaviours does with the request
func c06ref(list []*c06int, k int, req ziface.IcReq, val map[*Request]interface{}, log *[]string) string {
	show := func(r ziface.IcReq) string {
		if q, ok := r.(*Request); ok {
			return fmt.Sprintf("req%d:%v", q.msg.GetMsgID(), val[q])
		}
		return c06req(r)
	}
	if k == len(list) {
		if _, ok := req.(*Request); ok {
			return "end-" + show(req)
		}
		return fmt.Sprint(req)
	}
	c := list[k]
	*log = append(*log, fmt.Sprintf("%d(%s)", c.id, show(req)))
	switch c.beh {
	case 1:
		return fmt.Sprintf("stop%d", c.id)
	case 2:
		req = c.next
	case 3:
		if q, ok := req.(*Request); ok {
			val[q] = fmt.Sprintf("val%d", c.id)
		}
	}
	return fmt.Sprintf("%d<%v", c.id, c06ref(list, k+1, req, val, log))
}

func TestVerifC06(t *testing.T) {
	seed, _ := strconv.Atoi(os.Getenv("VERIF_SEED"))
	rng := rand.New(rand.NewSource(int64(seed) + 6))
	n, nf := 0, 0
	fail := func(f string, a ...interface{}) {
		nf++
		if nf < 10 {
			fmt.Printf("VERIF-FAIL "+f+"\n", a...)
		}
		t.Fail()
	}
	mkreq := func() ziface.IcReq {
		switch rng.Intn(8) {
		case 0:
			return "text"
		}
		q := NewRequest(nil, zpack.NewMsgPackage(uint32(rng.Intn(100)), []byte("x"))).(*Request)
		return q
	}
	for it := 0; it < 3000; it++ {
		var log []string
		nid := 0
		mk := func() *c06int {
			nid++
			b := 0
			if rng.Intn(3) == 0 {
				b = rng.Intn(6)
			}
			return &c06int{id: nid, beh: b, log: &log, next: mkreq()}
		}
		b := newChainBuilder()
		var head, tail *c06int
		var body []*c06int
		for ex := 0; ex < 4; ex++ {
			if rng.Intn(3) == 0 {
				head = mk()
				b.Head(head)
			}
			if rng.Intn(3) == 0 {
				tail = mk()
				b.Tail(tail)
			}
			for k := rng.Intn(4); k > 0; k-- {
				x := mk()
				body = append(body, x)
				b.AddInterceptor(x)
			}
			var list []*c06int
			if head != nil {
				list = append(list, head)
			}
			list = append(list, body...)
			if tail != nil {
				list = append(list, tail)
			}
			reset := func() ziface.IcReq {
				for _, x := range list {
					if q, ok := x.next.(*Request); ok {
						q.icResp = nil
					}
				}
				return mkreq()
			}
			req := reset()
			var want []string
			wr := c06ref(list, 0, req, map[*Request]interface{}{}, &want)
			log = nil
			var got string
			n++
			func() {
				defer func() {
					if e := recover(); e != nil {
						got = fmt.Sprint("panic: ", e)
					}
				}()
				got = c06resp(b.Execute(req))
			}()
			if fmt.Sprint(log) != fmt.Sprint(want) || got != wr {
				fail("chain of %d interceptors (execution %d of its builder): calls %v, want %v; response %s, want %s", len(list), ex+1, log, want, got, wr)
			}
		}
	}
	// the message handler's chain: head, added ones, then the handler itself as the tail
	for it := 0; it < 50; it++ {
		var log []string
		mh := newMsgHandle()
		mh.WorkerPoolSize = 0
		h := &c06int{id: 100, log: &log}
		if it%2 == 0 {
			mh.SetHeadInterceptor(h)
		}
		k := rng.Intn(5)
		want := []string{}
		q := NewRequest(nil, zpack.NewMsgPackage(77, nil))
		if it%2 == 0 {
			want = append(want, "100(req77:<nil>)")
		}
		for i := 0; i < k; i++ {
			mh.AddInterceptor(&c06int{id: i, log: &log})
			want = append(want, fmt.Sprintf("%d(req77:<nil>)", i))
		}
		mh.Execute(q)
		n++
		if fmt.Sprint(log) != fmt.Sprint(want) {
			fail("message handler with %d added interceptors: calls %v, want %v", k, log, want)
		}
		if mh.builder.tail != ziface.IInterceptor(mh) {
			fail("the message handler is not the tail of its chain")
		}
	}
	// a chain that starts in the middle of a list
	for p := 0; p < 5; p++ {
		var log []string
		var l []ziface.IInterceptor
		for i := 0; i < 4; i++ {
			l = append(l, &c06int{id: i, log: &log})
		}
		n++
		zinterceptor.NewChain(l, p, "r").Proceed("r")
		if len(log) != len(l)-p && !(p > 4 && len(log) == 0) {
			fail("chain from position %d of 4: calls %v", p, log)
		}
	}
	fmt.Printf("VERIF-SAMPLE 3000 builders x 4 executions\nVERIF-CASES %d\nVERIF-DONE\n", n)
}
