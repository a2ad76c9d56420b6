package znet

import (
	"bytes"
	"encoding/binary"
	"errors"
	"fmt"
	"math/rand"
	"net"
	"net/http"
	"net/http/httptest"
	"os"
	"strconv"
	"sync"
	"sync/atomic"
	"testing"
	"time"

	"github.com/aceld/zinx/zconf"
	"github.com/aceld/zinx/ziface"
	"github.com/aceld/zinx/zpack"
	"github.com/gorilla/websocket"
	"github.com/xtaci/kcp-go"
)

// a socket that records every write and never has anything to read
type c13net struct {
	mu     sync.Mutex
	writes [][]byte
	err    error
	gone   chan bool
	once   sync.Once
}

func (c *c13net) Read(b []byte) (int, error) { <-c.gone; return 0, errors.New("closed") }
func (c *c13net) Write(b []byte) (int, error) {
	c.mu.Lock()
	defer c.mu.Unlock()
	if c.err != nil {
		return 0, c.err
	}
	c.writes = append(c.writes, append([]byte{}, b...))
	return len(b), nil
}
func (c *c13net) Close() error                       { c.once.Do(func() { close(c.gone) }); return nil }
func (c *c13net) LocalAddr() net.Addr                { return &net.TCPAddr{} }
func (c *c13net) RemoteAddr() net.Addr               { return &net.TCPAddr{} }
func (c *c13net) SetDeadline(t time.Time) error      { return nil }
func (c *c13net) SetReadDeadline(t time.Time) error  { return nil }
func (c *c13net) SetWriteDeadline(t time.Time) error { return nil }
func (c *c13net) stream() []byte {
	c.mu.Lock()
	defer c.mu.Unlock()
	return bytes.Join(c.writes, nil)
}

func c13frame(id uint32, d []byte) []byte {
	f := make([]byte, 8+len(d))
	binary.BigEndian.PutUint32(f, id)
	binary.BigEndian.PutUint32(f[4:], uint32(len(d)))
	copy(f[8:], d)
	return f
}

type c13dec struct{}

func (c13dec) Decode([]byte) [][]byte { return nil }

func TestVerifC13(t *testing.T) {
	seed, _ := strconv.Atoi(os.Getenv("VERIF_SEED"))
	rng := rand.New(rand.NewSource(int64(seed) + 13))
	cases := 0
	var nf int32
	fail := func(f string, a ...interface{}) {
		if atomic.AddInt32(&nf, 1) < 10 {
			fmt.Printf("VERIF-FAIL "+f+"\n", a...)
		}
		t.Fail()
	}
	fmt.Println("VERIF-BEGIN messages sent")
	saved := *zconf.GlobalObject
	defer func() { *zconf.GlobalObject = saved }()
	zconf.GlobalObject.WorkerMode = zconf.WorkerModeHash
	zconf.GlobalObject.WorkerPoolSize = 1
	zconf.GlobalObject.MaxMsgChanLen = 4096
	mh := newMsgHandle()
	rounds := 80
	if os.Getenv("VERIF_TIER") == "thorough" {
		rounds = 1500
	}
	for r := 0; r < rounds && nf == 0; r++ {
		transport := []string{"tcp", "tcp", "ws", "kcp"}[r%4]
		var conn ziface.IConnection
		var received func() []byte // all bytes the peer has
		var breakit func()
		cleanup := func() {}
		whole := func() [][]byte { return nil }
		switch transport {
		case "tcp":
			s := &c13net{gone: make(chan bool)}
			mh2, srvpack := mh, zpack.NewDataPack()
			c := newServerConn(&c13server{mh: mh2, p: srvpack}, s, uint64(r)).(*Connection)
			c.frameDecoder = nil
			conn, received = c, s.stream
			breakit = func() { s.mu.Lock(); s.err = errors.New("broken"); s.mu.Unlock() }
			whole = func() [][]byte { s.mu.Lock(); defer s.mu.Unlock(); return append([][]byte{}, s.writes...) }
		case "ws":
			got := make(chan *websocket.Conn, 1)
			srv := httptest.NewServer(http.HandlerFunc(func(w http.ResponseWriter, q *http.Request) {
				if c, err := (&websocket.Upgrader{}).Upgrade(w, q, nil); err == nil {
					got <- c
				}
			}))
			cl, _, err := websocket.DefaultDialer.Dial("ws"+srv.URL[4:], nil)
			if err != nil {
				continue
			}
			w := <-got
			conn = &WsConnection{conn: w, msgHandler: mh, packet: zpack.NewDataPack(), frameDecoder: c13dec{}}
			var mu sync.Mutex
			var all [][]byte
			go func() {
				for {
					k, b, err := cl.ReadMessage()
					if err != nil {
						return
					}
					if k != websocket.BinaryMessage {
						fail("websocket message of type %d", k)
					}
					mu.Lock()
					all = append(all, b)
					mu.Unlock()
				}
			}()
			received = func() []byte { mu.Lock(); defer mu.Unlock(); return bytes.Join(all, nil) }
			whole = func() [][]byte { mu.Lock(); defer mu.Unlock(); return append([][]byte{}, all...) }
			breakit = func() { w.UnderlyingConn().Close() }
			cleanup = func() { cl.Close(); srv.Close() }
		case "kcp":
			l, err := kcp.ListenWithOptions("127.0.0.1:0", nil, 0, 0)
			if err != nil {
				continue
			}
			s, err := kcp.DialWithOptions(l.Addr().String(), nil, 0, 0)
			if err != nil {
				l.Close()
				continue
			}
			s.SetNoDelay(1, 10, 2, 1)
			s.SetWindowSize(1024, 1024)
			conn = &KcpConnection{conn: s, msgHandler: mh, packet: zpack.NewDataPack(), frameDecoder: c13dec{}}
			var mu sync.Mutex
			var all []byte
			go func() {
				p, err := l.AcceptKCP()
				if err != nil {
					return
				}
				p.SetNoDelay(1, 10, 2, 1)
				p.SetWindowSize(1024, 1024)
				buf := make([]byte, 65536)
				for {
					n, err := p.Read(buf)
					if err != nil {
						return
					}
					mu.Lock()
					all = append(all, buf[:n]...)
					mu.Unlock()
				}
			}()
			received = func() []byte { mu.Lock(); defer mu.Unlock(); return append([]byte{}, all...) }
			breakit = func() { s.Close() }
			cleanup = func() { l.Close() }
		}
		what := fmt.Sprintf("connection %d (%s)", r, transport)
		guard := func(n string, f func()) {
			if p := func() (p interface{}) { defer func() { p = recover() }(); f(); return nil }(); p != nil {
				fail("%s: %s panicked: %v", what, n, p)
			}
		}
		guard("SendBuffMsg before Start", func() {
			if conn.SendBuffMsg(1, []byte("x")) == nil {
				fail("%s: a buffered send was accepted before Start", what)
			}
			if transport == "tcp" && conn.SendMsg(1, []byte("x")) == nil {
				fail("%s: a send was accepted before Start", what)
			}
		})
		done := make(chan bool)
		go func() { conn.Start(); close(done) }()
		for conn.Context() == nil {
			time.Sleep(50 * time.Microsecond)
		}
		time.Sleep(time.Duration(rng.Intn(300)) * time.Microsecond)
		// several senders, direct and buffered, each with its own message ids; first sends at the same time
		users := 1 + rng.Intn(4)
		type res struct{ direct, queued, maybe [][]byte }
		out := make([]res, users)
		big := transport == "tcp" && rng.Intn(2) == 0
		var wg sync.WaitGroup
		begin := make(chan bool)
		for u := 0; u < users; u++ {
			u := u
			rg := rand.New(rand.NewSource(int64(rng.Int31())))
			wg.Add(1)
			go func() {
				defer wg.Done()
				<-begin
				n := 10 + rg.Intn(20)
				for i := 0; i < n; i++ {
					d := make([]byte, rg.Intn(60))
					if big && rg.Intn(4) == 0 {
						d = make([]byte, 3000+rg.Intn(20000))
					}
					rg.Read(d)
					id := uint32(u<<16 | i)
					f := c13frame(id, d)
					var err error
					switch rg.Intn(4) {
					case 0:
						if err = conn.SendMsg(id, d); err == nil {
							out[u].direct = append(out[u].direct, f)
						}
					case 1:
						if err = conn.Send(f); err == nil {
							out[u].direct = append(out[u].direct, f)
						}
					case 2:
						if err = conn.SendBuffMsg(id, d); err == nil {
							out[u].queued = append(out[u].queued, f)
						}
					default:
						if err = conn.SendToQueue(f); err == nil {
							out[u].queued = append(out[u].queued, f)
						}
					}
				}
			}()
		}
		close(begin)
		wg.Wait()
		total := 0
		for u := range out {
			for _, f := range append(append([][]byte{}, out[u].direct...), out[u].queued...) {
				total += len(f)
				cases++
			}
		}
		for w := 0; w < 4000 && len(received()) < total; w++ {
			time.Sleep(2 * time.Millisecond)
		}
		time.Sleep(12 * time.Millisecond)
		// parse what arrived
		got := received()
		type key struct{ u, q int }
		next := map[key]int{}
		if len(got) != total {
			fail("%s: frames of %d bytes sent, %d bytes arrived", what, total, len(got))
		}
		for rest := got; len(rest) > 0 && nf == 0; {
			if len(rest) < 8 {
				fail("%s: %d stray bytes at the end", what, len(rest))
				break
			}
			id, n := binary.BigEndian.Uint32(rest), binary.BigEndian.Uint32(rest[4:])
			u := int(id >> 16)
			if u >= users || int(n)+8 > len(rest) {
				fail("%s: a frame with id %d and length %d arrived", what, id, n)
				break
			}
			f := rest[:8+n]
			rest = rest[8+n:]
			ok := false
			for q, list := range [][][]byte{out[u].direct, out[u].queued} {
				k := key{u, q}
				if i := next[k]; i < len(list) && bytes.Equal(list[i], f) {
					next[k]++
					ok = true
					break
				}
			}
			if !ok {
				fail("%s: frame %d of sender %d arrived changed, twice or out of order", what, id&0xffff, u)
			}
		}
		if transport == "ws" {
			for _, m := range whole() {
				if len(m) < 8 || int(binary.BigEndian.Uint32(m[4:]))+8 != len(m) {
					fail("%s: a websocket message of %d bytes is not one frame", what, len(m))
				}
			}
		}
		// errors of the transport are reported
		if r%3 == 0 && transport != "kcp" && nf == 0 {
			breakit()
			time.Sleep(2 * time.Millisecond)
			if conn.SendMsg(5, []byte("x")) == nil || conn.Send([]byte("x")) == nil {
				fail("%s: a failed write was reported as success", what)
			}
		}
		conn.Stop()
		<-done
		before := len(received())
		guard("sending after Stop", func() {
			var wg sync.WaitGroup
			for k := 0; k < 3; k++ {
				wg.Add(1)
				go func() {
					defer wg.Done()
					defer func() {
						if p := recover(); p != nil {
							fail("%s: sending after Stop panicked: %v", what, p)
						}
					}()
					if conn.SendMsg(1, []byte("x")) == nil || conn.Send([]byte("x")) == nil || conn.SendBuffMsg(1, []byte("x")) == nil || conn.SendToQueue([]byte("x")) == nil {
						fail("%s: a send was accepted after Stop", what)
					}
				}()
			}
			wg.Wait()
		})
		time.Sleep(time.Millisecond)
		if len(received()) != before {
			fail("%s: something was written after Stop", what)
		}
		cleanup()
	}
	fmt.Printf("VERIF-CASES %d\n", cases)
	fmt.Println("VERIF-DONE")
}

type c13server struct {
	Server
	mh ziface.IMsgHandle
	p  ziface.IDataPack
}

func (s *c13server) GetLengthField() *ziface.LengthField { return nil }
func (s *c13server) GetPacket() ziface.IDataPack         { return s.p }
func (s *c13server) GetMsgHandler() ziface.IMsgHandle    { return s.mh }
func (s *c13server) GetConnMgr() ziface.IConnManager     { return newConnManager() }
