package znet

import (
	"errors"
	"fmt"
	"math/rand"
	"net"
	"net/http"
	"net/http/httptest"
	"os"
	"strconv"
	"sync/atomic"
	"testing"
	"time"

	"github.com/aceld/zinx/zconf"
	"github.com/aceld/zinx/ziface"
	"github.com/aceld/zinx/zpack"
	"github.com/gorilla/websocket"
)

type c14conn struct {
	ziface.IConnection
	alive   bool
	log     []string
	hc      ziface.IHeartbeatChecker
	started bool
	err     error
	mh      ziface.IMsgHandle
}

func (c *c14conn) IsAlive() bool                            { return c.alive }
func (c *c14conn) GetConnID() uint64                        { return 1 }
func (c *c14conn) Stop()                                    { c.log = append(c.log, "stop") }
func (c *c14conn) Start()                                   { c.started = true }
func (c *c14conn) LocalAddr() net.Addr                      { return &net.TCPAddr{} }
func (c *c14conn) RemoteAddr() net.Addr                     { return &net.TCPAddr{} }
func (c *c14conn) SetHeartBeat(h ziface.IHeartbeatChecker)  { c.hc = h }
func (c *c14conn) SendMsg(id uint32, d []byte) error {
	c.log = append(c.log, fmt.Sprintf("send %d %s", id, d))
	return c.err
}

func TestVerifC14(t *testing.T) {
	seed, _ := strconv.Atoi(os.Getenv("VERIF_SEED"))
	rng := rand.New(rand.NewSource(int64(seed) + 14))
	cases := 0
	var nf int32
	fail := func(f string, a ...interface{}) {
		if atomic.AddInt32(&nf, 1) < 10 {
			fmt.Printf("VERIF-FAIL "+f+"\n", a...)
		}
		t.Fail()
	}
	fmt.Println("VERIF-BEGIN heartbeats")
	saved := *zconf.GlobalObject
	defer func() { *zconf.GlobalObject = saved }()
	// settings reach the checker of every connection, and a check does exactly one thing
	for r := 0; r < 4000 && nf == 0; r++ {
		cases++
		slices := rng.Intn(2) == 0
		s := &Server{msgHandler: newMsgHandle(), RouterSlicesMode: slices}
		var log []string
		interval := time.Duration(1+rng.Intn(1000)) * time.Hour
		id := uint32(ziface.HeartBeatDefaultMsgID)
		wid := id
		opt := &ziface.HeartBeatOption{HeartBeatMsgID: id}
		if rng.Intn(3) > 0 {
			opt.HeartBeatMsgID = uint32(rng.Intn(1000))
		}
		text, dead := "", "stop"
		if rng.Intn(2) == 0 {
			text = fmt.Sprint("t", rng.Intn(100))
			x := text
			opt.MakeMsg = func(ziface.IConnection) []byte { return []byte(x) }
		}
		if rng.Intn(2) == 0 {
			dead = fmt.Sprint("dead", rng.Intn(100))
			x := dead
			opt.OnRemoteNotAlive = func(c ziface.IConnection) { log = append(log, x) }
		}
		var handler ziface.IRouter
		nh := rng.Intn(3)
		if slices {
			for i := 0; i < nh; i++ {
				opt.RouterSlices = append(opt.RouterSlices, func(ziface.IRequest) {})
			}
			if nh > 0 && opt.HeartBeatMsgID != id {
				wid = opt.HeartBeatMsgID
			}
		} else if rng.Intn(2) == 0 {
			opt.Router = &c09like{}
			if opt.HeartBeatMsgID != id {
				wid, handler = opt.HeartBeatMsgID, opt.Router
			}
		}
		plain := rng.Intn(5) == 0
		if plain {
			text, dead, wid, handler = "", "stop", id, nil
			s.StartHeartBeat(interval)
		} else {
			s.StartHeartBeatWithOption(interval, opt)
		}
		mh := s.msgHandler.(*MsgHandle)
		what := fmt.Sprintf("slices %v, plain %v, id %d, text %q, action %q, handlers %d", slices, plain, opt.HeartBeatMsgID, text, dead, nh)
		if slices {
			if _, ok := mh.RouterSlices.Apis[wid]; !ok {
				fail("%s: no handlers for heartbeat id %d", what, wid)
			}
		} else if got, ok := mh.Apis[wid]; !ok || (handler != nil && got != handler) {
			fail("%s: router of heartbeat id %d is %v", what, wid, got)
		}
		var beat int
		own := rng.Intn(3) == 0
		if own {
			s.hc.SetHeartbeatFunc(func(ziface.IConnection) error { beat++; return nil })
		}
		var before *HeartbeatChecker
		for k := 0; k < 2; k++ {
			c := &c14conn{alive: rng.Intn(2) == 0}
			if rng.Intn(4) == 0 {
				c.err = errors.New("x")
			}
			s.StartConn(c)
			h, ok := c.hc.(*HeartbeatChecker)
			if !ok || !c.started || h == s.hc || h == before || h.conn != ziface.IConnection(c) || h.interval != interval {
				fail("%s: connection started %v with checker %+v of server %+v", what, c.started, c.hc, s.hc)
				break
			}
			before = h
			for n := 0; n < 3; n++ {
				log, c.log, beat = nil, nil, 0
				h.check()
				all := append(append([]string{}, log...), c.log...)
				ok := false
				switch {
				case !c.alive:
					ok = len(all) == 1 && all[0] == dead && beat == 0
				case own:
					ok = len(all) == 0 && beat == 1
				case text != "":
					ok = len(all) == 1 && all[0] == fmt.Sprintf("send %d %s", wid, text) && beat == 0
				default:
					ok = len(all) == 1 && len(all[0]) > 6 && all[0][:6] == fmt.Sprintf("send %d", wid)[:6] && beat == 0
				}
				if !ok {
					fail("%s: alive %v, own function %v: a check did %q, own %d times", what, c.alive, own, all, beat)
				}
			}
		}
	}
	// activity: how long after the last data a connection counts as alive
	zconf.GlobalObject.WorkerMode = ""
	zconf.GlobalObject.WorkerPoolSize = 1
	for r := 0; r < 300 && nf == 0; r++ {
		cases++
		zconf.GlobalObject.HeartbeatMax = 1 + rng.Intn(100)
		ago := time.Duration(rng.Int63n(int64(200 * time.Second)))
		if d := ago - zconf.GlobalObject.HeartbeatMaxDuration(); d > -5*time.Second && d <= 0 {
			ago += 6 * time.Second
		}
		want := ago < zconf.GlobalObject.HeartbeatMaxDuration()
		last := time.Now().Add(-ago)
		a, b := net.Pipe()
		ct := &Connection{conn: a, msgHandler: newMsgHandle()}
		go ct.Start()
		for ct.Context() == nil {
			time.Sleep(time.Millisecond)
		}
		for _, x := range []struct {
			n string
			f func() bool
		}{
			{"tcp", func() bool { ct.lastActivityTime = last; return ct.IsAlive() }},
			{"ws", func() bool { return (&WsConnection{lastActivityTime: last}).IsAlive() }},
			{"kcp", func() bool { return (&KcpConnection{lastActivityTime: last}).IsAlive() }},
		} {
			if got := x.f(); got != want {
				fail("%s: silent for %v with a maximum of %d s: alive %v", x.n, ago, zconf.GlobalObject.HeartbeatMax, got)
			}
		}
		if (&WsConnection{lastActivityTime: time.Now(), isClosed: true}).IsAlive() || (&KcpConnection{lastActivityTime: time.Now(), closed: 1}).IsAlive() {
			fail("a closed connection is reported alive")
		}
		b.Close()
	}
	// running: a fresh connection is not reported, data keeps it alive, closing ends in time
	zconf.GlobalObject.HeartbeatMax = 3600
	zconf.GlobalObject.IOReadBuffSize = 1024
	for r := 0; r < 120 && nf == 0; r++ {
		cases++
		mh := newMsgHandle()
		mh.StartWorkerPool()
		var reported int32
		stopped := make(chan bool, 10)
		tmpl := NewHeartbeatChecker(time.Duration(1+rng.Intn(50)) * time.Microsecond)
		tmpl.SetOnRemoteNotAlive(func(c ziface.IConnection) { atomic.AddInt32(&reported, 1); c.Stop() })
		h := tmpl.Clone()
		var conn ziface.IConnection
		var stop func()
		hook := func(ziface.IConnection) { stopped <- true }
		if r%2 == 0 {
			a, b := net.Pipe()
			conn = &Connection{conn: a, msgHandler: mh, packet: zpack.NewDataPack(), onConnStop: hook}
			go func() {
				buf := make([]byte, 4096)
				for {
					if _, err := b.Read(buf); err != nil {
						return
					}
				}
			}()
			stop = func() { b.Close() }
		} else {
			got := make(chan *websocket.Conn, 1)
			srv := httptest.NewServer(http.HandlerFunc(func(w http.ResponseWriter, q *http.Request) {
				c, err := (&websocket.Upgrader{}).Upgrade(w, q, nil)
				if err == nil {
					got <- c
				}
			}))
			cl, _, err := websocket.DefaultDialer.Dial("ws"+srv.URL[4:], nil)
			if err != nil {
				continue
			}
			conn = &WsConnection{conn: <-got, msgHandler: mh, packet: zpack.NewDataPack(), onConnStop: hook}
			go func() {
				for {
					if _, _, err := cl.ReadMessage(); err != nil {
						return
					}
				}
			}()
			stop = func() { cl.Close(); srv.Close() }
		}
		h.BindConn(conn)
		done := make(chan bool)
		go func() { conn.Start(); close(done) }()
		time.Sleep(time.Duration(rng.Intn(4000)) * time.Microsecond)
		if atomic.LoadInt32(&reported) != 0 {
			fail("connection %d: reported as silent right after it was started", r)
		}
		if rng.Intn(2) == 0 {
			for conn.Context() == nil {
				time.Sleep(time.Millisecond)
			}
			conn.Stop()
		} else {
			stop()
		}
		select {
		case <-done:
		case <-c14after(60 * time.Second):
			fail("connection %d (%T) with a heartbeat was not torn down within 60 s", r, conn)
		}
		stop()
	}
	fmt.Printf("VERIF-CASES %d\n", cases)
	fmt.Println("VERIF-DONE")
}

type c09like struct{ BaseRouter }

// c14after counts its waiting in steps, so that a machine that stands still for a while
// is not taken for code that hangs.
func c14after(d time.Duration) <-chan struct{} {
	ch := make(chan struct{})
	go func() {
		for ; d > 0; d -= 500 * time.Millisecond {
			time.Sleep(500 * time.Millisecond)
		}
		close(ch)
	}()
	return ch
}
