package znet

import (
	"fmt"
	"math/rand"
	"net"
	"net/http"
	"net/http/httptest"
	"os"
	"strconv"
	"sync"
	"sync/atomic"
	"testing"
	"time"

	"github.com/aceld/zinx/zconf"
	"github.com/aceld/zinx/ziface"
	"github.com/aceld/zinx/zpack"
	"github.com/gorilla/websocket"
	"github.com/xtaci/kcp-go"
)

type c12dec struct {
	started *int32
	early   *int32
}

func (d *c12dec) Decode(b []byte) [][]byte {
	if atomic.LoadInt32(d.started) == 0 {
		atomic.AddInt32(d.early, 1)
	}
	if b[0] == 'P' {
		panic("malformed")
	}
	return nil
}

type c12hc struct{ starts, stops int32 }

func (h *c12hc) SetOnRemoteNotAlive(ziface.OnRemoteNotAlive)      {}
func (h *c12hc) SetHeartbeatMsgFunc(ziface.HeartBeatMsgFunc)      {}
func (h *c12hc) SetHeartbeatFunc(ziface.HeartBeatFunc)            {}
func (h *c12hc) BindRouter(uint32, ziface.IRouter)                {}
func (h *c12hc) BindRouterSlices(uint32, ...ziface.RouterHandler) {}
func (h *c12hc) Start()                                           { atomic.AddInt32(&h.starts, 1) }
func (h *c12hc) Stop()                                            { atomic.AddInt32(&h.stops, 1) }
func (h *c12hc) SendHeartBeatMsg() error                          { return nil }
func (h *c12hc) BindConn(ziface.IConnection)                      {}
func (h *c12hc) Clone() ziface.IHeartbeatChecker                  { return h }
func (h *c12hc) MsgID() uint32                                    { return 1 }
func (h *c12hc) Router() ziface.IRouter                           { return nil }
func (h *c12hc) RouterSlices() []ziface.RouterHandler             { return nil }

type c12net struct {
	net.Conn
	closed int32
}

func (c *c12net) Close() error { atomic.AddInt32(&c.closed, 1); return c.Conn.Close() }

func TestVerifC12(t *testing.T) {
	seed, _ := strconv.Atoi(os.Getenv("VERIF_SEED"))
	rng := rand.New(rand.NewSource(int64(seed) + 12))
	cases := 0
	var nf int32
	fail := func(f string, a ...interface{}) {
		if atomic.AddInt32(&nf, 1) < 10 {
			fmt.Printf("VERIF-FAIL "+f+"\n", a...)
		}
		t.Fail()
	}
	fmt.Println("VERIF-BEGIN connections from start to end")
	saved := *zconf.GlobalObject
	defer func() { *zconf.GlobalObject = saved }()
	zconf.GlobalObject.WorkerMode = zconf.WorkerModeBind
	zconf.GlobalObject.MaxConn = 6
	zconf.GlobalObject.WorkerPoolSize = 6
	zconf.GlobalObject.IOReadBuffSize = 1024
	mh := newMsgHandle()
	mh.StartWorkerPool()
	free := func() int {
		mh.freeWorkerMu.Lock()
		defer mh.freeWorkerMu.Unlock()
		return len(mh.freeWorkers)
	}
	mgr := newConnManager()
	rounds := 300
	if os.Getenv("VERIF_TIER") == "thorough" {
		rounds = 4000
	}
	ends := []string{"peer", "stop", "stop twice", "malformed", "stop from the start hook", "start hook panics", "stop hook panics", "stop before start", "parent manager"}
	for r := 0; r < rounds && nf == 0; r++ {
		cases++
		transport := []string{"tcp", "ws", "tcp", "kcp"}[r%4]
		end := ends[rng.Intn(len(ends))]
		if transport == "kcp" && end == "peer" {
			end = "stop"
		}
		what := fmt.Sprintf("connection %d (%s), ended by %s", r, transport, end)
		var started, early, startHooks, stopHooks, callbacks int32
		hc := &c12hc{}
		withHc, withMgr := rng.Intn(3) > 0, rng.Intn(4) > 0
		order := make(chan string, 20)
		nap := time.Duration(rng.Intn(300)) * time.Microsecond
		onStart := func(c ziface.IConnection) {
			atomic.AddInt32(&startHooks, 1)
			order <- "start"
			if end != "start hook panics" && end != "stop from the start hook" {
				time.Sleep(nap)
			}
			atomic.StoreInt32(&started, 1)
			if end == "start hook panics" {
				panic("hook")
			}
			if end == "stop from the start hook" {
				c.Stop()
			}
		}
		onStop := func(c ziface.IConnection) {
			atomic.AddInt32(&stopHooks, 1)
			order <- "stop"
			if end == "stop hook panics" {
				panic("hook")
			}
		}
		dec := &c12dec{&started, &early}
		id := uint64(r)
		var conn ziface.IConnection
		var write func([]byte)
		var peer func()
		var isclosed func() bool
		switch transport {
		case "tcp":
			a, b := net.Pipe()
			w := &c12net{Conn: a}
			c := &Connection{conn: w, connID: id, connIdStr: strconv.Itoa(r), msgHandler: mh, frameDecoder: dec, packet: zpack.NewDataPack(), onConnStart: onStart, onConnStop: onStop}
			if withHc {
				c.hc = hc
			}
			if withMgr {
				c.connManager = mgr
			}
			conn, write, peer = c, func(x []byte) { b.Write(x) }, func() { b.Close() }
			isclosed = func() bool { return atomic.LoadInt32(&w.closed) > 0 && c.isClosed() }
		case "ws":
			got := make(chan *websocket.Conn, 1)
			srv := httptest.NewServer(http.HandlerFunc(func(w http.ResponseWriter, q *http.Request) {
				if c, err := (&websocket.Upgrader{}).Upgrade(w, q, nil); err == nil {
					got <- c
				}
			}))
			cl, _, err := websocket.DefaultDialer.Dial("ws"+srv.URL[4:], nil)
			if err != nil {
				fmt.Println("VERIF-SAMPLE websocket unavailable:", err)
				continue
			}
			c := &WsConnection{conn: <-got, connID: id, connIdStr: strconv.Itoa(r), msgHandler: mh, frameDecoder: dec, packet: zpack.NewDataPack(), onConnStart: onStart, onConnStop: onStop}
			if withHc {
				c.hc = hc
			}
			if withMgr {
				c.connManager = mgr
			}
			var wmu sync.Mutex
			conn, write = c, func(x []byte) {
				wmu.Lock()
				defer wmu.Unlock()
				cl.WriteMessage(websocket.BinaryMessage, x)
			}
			var once sync.Once
			peer = func() { once.Do(func() { cl.Close(); srv.Close() }) }
			isclosed = func() bool {
				c.msgLock.Lock()
				defer c.msgLock.Unlock()
				return c.isClosed && c.conn.WriteMessage(websocket.BinaryMessage, []byte("x")) != nil
			}
		case "kcp":
			l, err := kcp.ListenWithOptions("127.0.0.1:0", nil, 0, 0)
			if err != nil {
				fmt.Println("VERIF-SAMPLE kcp unavailable:", err)
				continue
			}
			s, err := kcp.DialWithOptions(l.Addr().String(), nil, 0, 0)
			if err != nil {
				fmt.Println("VERIF-SAMPLE kcp unavailable:", err)
				l.Close()
				continue
			}
			s.SetNoDelay(1, 10, 2, 1)
			c := &KcpConnection{conn: s, connID: id, connIdStr: strconv.Itoa(r), msgHandler: mh, frameDecoder: dec, packet: zpack.NewDataPack(), onConnStart: onStart, onConnStop: onStop}
			if withHc {
				c.hc = hc
			}
			if withMgr {
				c.connManager = mgr
			}
			conn = c
			write = func(x []byte) {
				s.Write([]byte("hello"))
				if p, err := l.AcceptKCP(); err == nil {
					p.SetNoDelay(1, 10, 2, 1)
					p.Write(x)
				}
			}
			peer = func() { l.Close() }
			isclosed = func() bool { _, err := s.Write([]byte("x")); return err != nil && c.isClosed() }
		}
		if withMgr {
			mgr.Add(conn)
		}
		base := free()
		if end == "stop before start" {
			if p := func() (p interface{}) {
				defer func() { p = recover() }()
				conn.Stop()
				return nil
			}(); p != nil {
				fail("%s: Stop panicked: %v", what, p)
				break
			}
		}
		done := make(chan interface{}, 1)
		go func() {
			defer func() { done <- recover() }()
			conn.Start()
		}()
		if end != "start hook panics" && end != "stop from the start hook" && end != "stop before start" {
			if transport == "tcp" || rng.Intn(2) == 0 {
				// data that arrives while the connection starts is read after the hook
				if transport != "kcp" {
					go write([]byte("a"))
				}
			}
			for atomic.LoadInt32(&started) == 0 {
				time.Sleep(20 * time.Microsecond)
			}
			conn.AddCloseCallback(1, "a", func() { atomic.AddInt32(&callbacks, 1) })
			conn.AddCloseCallback(1, "b", func() { atomic.AddInt32(&callbacks, 1) })
			switch end {
			case "peer":
				peer()
			case "malformed":
				write([]byte("P"))
			case "parent manager":
				if withMgr {
					mgr.ClearConn()
				} else {
					conn.Stop()
				}
			case "stop twice":
				conn.Stop()
				conn.Stop()
			default:
				conn.Stop()
			}
		} else {
			callbacks = 2
		}
		select {
		case p := <-done:
			if p != nil {
				fail("%s: Start panicked: %v", what, p)
			}
		case <-c12after(60 * time.Second):
			fail("%s: not torn down within 60 s", what)
			continue
		}
		conn.Stop()
		for w := 0; w < 5000 && atomic.LoadInt32(&callbacks) != 2; w++ {
			time.Sleep(time.Millisecond)
		}
		if a, b := atomic.LoadInt32(&startHooks), atomic.LoadInt32(&stopHooks); a != 1 || b != 1 || <-order != "start" {
			fail("%s: start hook ran %d times, stop hook %d times", what, a, b)
		}
		if a := atomic.LoadInt32(&callbacks); a != 2 {
			fail("%s: %d of 2 close callbacks ran", what, a)
		}
		if a := atomic.LoadInt32(&early); a != 0 {
			fail("%s: data was read before the start hook had run", what)
		}
		if a, b := atomic.LoadInt32(&hc.starts), atomic.LoadInt32(&hc.stops); withHc && (a != 1 || b != 1) {
			fail("%s: heartbeat started %d times, stopped %d times", what, a, b)
		}
		if _, err := mgr.Get(id); err == nil {
			fail("%s: still in the connection manager", what)
		}
		if x := free(); x != base {
			fail("%s: %d of %d workers are free afterwards", what, x, base)
		}
		if !isclosed() || conn.IsAlive() {
			fail("%s: the connection or its socket is not closed afterwards", what)
		}
		peer()
	}
	fmt.Printf("VERIF-CASES %d\n", cases)
	fmt.Println("VERIF-DONE")
}

// c12after counts its waiting in steps, so that a machine that stands still for a while
// is not taken for code that hangs.
func c12after(d time.Duration) <-chan struct{} {
	ch := make(chan struct{})
	go func() {
		for ; d > 0; d -= 500 * time.Millisecond {
			time.Sleep(500 * time.Millisecond)
		}
		close(ch)
	}()
	return ch
}
