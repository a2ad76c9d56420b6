package znet

import (
	"bytes"
	"encoding/binary"
	"fmt"
	"math/rand"
	"net"
	"net/http"
	"net/http/httptest"
	"os"
	"sort"
	"strconv"
	"sync"
	"sync/atomic"
	"testing"
	"time"

	"github.com/aceld/zinx/zconf"
	"github.com/aceld/zinx/ziface"
	"github.com/aceld/zinx/zinterceptor"
	"github.com/gorilla/websocket"
	"github.com/xtaci/kcp-go"
)

type c09rec struct {
	mu    sync.Mutex
	seq   [][]byte
	wrong int
	want  ziface.IConnection
}

type c09router struct {
	BaseRouter
	h func(q ziface.IRequest)
}

func (r *c09router) Handle(q ziface.IRequest) { r.h(q) }

func (r *c09rec) handle(q ziface.IRequest) {
	first := append([]byte{}, q.GetData()...)
	if len(first) > 2 && first[2]%7 == 0 {
		time.Sleep(200 * time.Microsecond) // the next read happens meanwhile
	}
	second := append([]byte{}, q.GetData()...)
	r.mu.Lock()
	if !bytes.Equal(first, second) || q.GetConnection() != r.want {
		r.wrong++
	}
	r.seq = append(r.seq, second)
	r.mu.Unlock()
	if len(first) > 2 && first[2]%11 == 3 {
		panic("handler")
	}
}

func (r *c09rec) size() (n int, b int) {
	r.mu.Lock()
	defer r.mu.Unlock()
	for _, x := range r.seq {
		b += len(x)
	}
	return len(r.seq), b
}

func TestVerifC09(t *testing.T) {
	seed, _ := strconv.Atoi(os.Getenv("VERIF_SEED"))
	rng := rand.New(rand.NewSource(int64(seed) + 9))
	cases := 0
	var nf int32
	fail := func(f string, a ...interface{}) {
		if atomic.AddInt32(&nf, 1) < 10 {
			fmt.Printf("VERIF-FAIL "+f+"\n", a...)
		}
		t.Fail()
	}
	fmt.Println("VERIF-BEGIN messages, queues and workers")
	saved := *zconf.GlobalObject
	defer func() { *zconf.GlobalObject = saved }()
	rounds := 48
	if os.Getenv("VERIF_TIER") == "thorough" {
		rounds = 600
	}
	for r := 0; r < rounds && nf == 0; r++ {
		transport := []string{"tcp", "tcp", "ws", "kcp"}[r%4]
		pool := r/4%4 != 3
		decode := r/2%3 != 2
		slices := rng.Intn(2) == 0
		zconf.GlobalObject.WorkerMode = zconf.WorkerModeHash
		zconf.GlobalObject.WorkerPoolSize = 0
		if pool {
			zconf.GlobalObject.WorkerPoolSize = uint32(1 + rng.Intn(3))
		}
		zconf.GlobalObject.MaxConn = 10
		zconf.GlobalObject.MaxWorkerTaskLen = uint32(1 + rng.Intn(8))
		zconf.GlobalObject.RouterSlicesMode = slices
		zconf.GlobalObject.RequestPoolMode = rng.Intn(2) == 0
		zconf.GlobalObject.IOReadBuffSize = uint32(64 + rng.Intn(2000))
		if transport == "kcp" {
			zconf.GlobalObject.IOReadBuffSize = 4096
		}
		what := fmt.Sprintf("%s, workers %d, decoder %v, slices %v, request pool %v", transport, zconf.GlobalObject.WorkerPoolSize, decode, slices, zconf.GlobalObject.RequestPoolMode)
		mh := newMsgHandle()
		rec := &c09rec{}
		if slices {
			mh.AddRouterSlices(0, rec.handle)
		} else {
			mh.AddRouter(0, &c09router{h: rec.handle})
		}
		mh.StartWorkerPool()
		var dec ziface.IFrameDecoder
		if decode {
			dec = zinterceptor.NewFrameDecoder(ziface.LengthField{MaxFrameLength: 1 << 16, LengthFieldLength: 2})
		}
		id := uint64(rng.Intn(100))
		var conn ziface.IConnection
		var write func(b []byte)
		var stop func()
		switch transport {
		case "tcp":
			a, b := net.Pipe()
			conn = &Connection{conn: a, connID: id, msgHandler: mh, frameDecoder: dec}
			write = func(x []byte) { b.Write(x) }
			stop = func() { b.Close() }
		case "ws":
			got := make(chan *websocket.Conn, 1)
			srv := httptest.NewServer(http.HandlerFunc(func(w http.ResponseWriter, q *http.Request) {
				c, err := (&websocket.Upgrader{}).Upgrade(w, q, nil)
				if err == nil {
					got <- c
				}
			}))
			cl, _, err := websocket.DefaultDialer.Dial("ws"+srv.URL[4:], nil)
			if err != nil {
				fmt.Println("VERIF-SAMPLE websocket unavailable:", err)
				continue
			}
			conn = &WsConnection{conn: <-got, connID: id, msgHandler: mh, frameDecoder: dec}
			write = func(x []byte) { cl.WriteMessage(websocket.BinaryMessage, x) }
			stop = func() { cl.Close(); srv.Close() }
		case "kcp":
			l, err := kcp.ListenWithOptions("127.0.0.1:0", nil, 0, 0)
			if err != nil {
				fmt.Println("VERIF-SAMPLE kcp unavailable:", err)
				continue
			}
			cl, err := kcp.DialWithOptions(l.Addr().String(), nil, 0, 0)
			if err != nil {
				fmt.Println("VERIF-SAMPLE kcp unavailable:", err)
				continue
			}
			cl.SetNoDelay(1, 10, 2, 1)
			write = func(x []byte) { cl.Write(x) }
			stop = func() { cl.Close(); l.Close() }
			conn = &KcpConnection{connID: id, msgHandler: mh, frameDecoder: dec}
			// the session is accepted with the first data
			go func() {
				if s, err := l.AcceptKCP(); err == nil {
					s.SetNoDelay(1, 10, 2, 1)
					conn.(*KcpConnection).conn = s
					conn.Start()
				}
			}()
		}
		rec.want = conn
		if transport != "kcp" {
			go conn.Start()
		}
		// send
		var frames [][]byte
		var chunks [][]byte
		n := 20 + rng.Intn(60)
		var stream []byte
		for i := 0; i < n; i++ {
			f := make([]byte, 3+rng.Intn(60))
			rng.Read(f)
			binary.BigEndian.PutUint16(f, uint16(len(f)-2))
			frames = append(frames, f)
			stream = append(stream, f...)
		}
		for rest := stream; len(rest) > 0; {
			k := 1 + rng.Intn(80)
			if k > len(rest) {
				k = len(rest)
			}
			chunks = append(chunks, rest[:k])
			rest = rest[k:]
		}
		for _, c := range chunks {
			write(c)
			cases++
		}
		for w := 0; w < 2000; w++ {
			a, b := rec.size()
			if (decode && a >= len(frames)) || b >= len(stream) {
				break
			}
			time.Sleep(5 * time.Millisecond)
		}
		time.Sleep(2 * time.Millisecond)
		rec.mu.Lock()
		seq, wrong := rec.seq, rec.wrong
		rec.mu.Unlock()
		if wrong != 0 {
			fail("%s: %d messages changed while being handled, or belong to another connection", what, wrong)
		}
		if decode {
			want := frames
			if !pool { // unordered
				want = append([][]byte{}, frames...)
				seq = append([][]byte{}, seq...)
				for _, x := range [][][]byte{want, seq} {
					x := x
					sort.Slice(x, func(i, j int) bool { return bytes.Compare(x[i], x[j]) < 0 })
				}
			}
			if len(seq) != len(want) {
				fail("%s: %d frames sent, %d handled", what, len(want), len(seq))
			}
			for i := 0; i < len(seq) && i < len(want); i++ {
				if !bytes.Equal(seq[i], want[i]) {
					fail("%s: message %d is %x, sent %x", what, i, seq[i], want[i])
					break
				}
			}
		} else if pool {
			if got := bytes.Join(seq, nil); !bytes.Equal(got, stream) {
				fail("%s: handled bytes %x, sent %x", what, got, stream)
			}
		} else if _, b := rec.size(); b != len(stream) {
			fail("%s: %d bytes handled, %d sent", what, b, len(stream))
		}
		// function tasks on the worker of the connection
		if pool && nf == 0 {
			var order []int
			var mu sync.Mutex
			done := make(chan bool)
			for i := 0; i < 20; i++ {
				i := i
				cases++
				mh.SendMsgToTaskQueue(NewFuncRequest(conn, func() {
					mu.Lock()
					order = append(order, i)
					mu.Unlock()
					if i == 19 {
						close(done)
					}
					if i%3 == 0 {
						panic("task")
					}
				}))
			}
			select {
			case <-done:
			case <-c09after(60 * time.Second):
				fail("%s: function tasks not run within 60 s", what)
			}
			mu.Lock()
			if fmt.Sprint(order) != "[0 1 2 3 4 5 6 7 8 9 10 11 12 13 14 15 16 17 18 19]" {
				fail("%s: 20 function tasks ran as %v", what, order)
			}
			mu.Unlock()
		}
		stop()
		if transport == "ws" || transport == "tcp" {
			for w := 0; w < 2000 && conn.IsAlive(); w++ {
				time.Sleep(time.Millisecond)
			}
		}
	}
	fmt.Printf("VERIF-CASES %d\n", cases)
	fmt.Println("VERIF-DONE")
}

// c09after counts its waiting in steps, so that a machine that stands still for a while
// is not taken for code that hangs.
func c09after(d time.Duration) <-chan struct{} {
	ch := make(chan struct{})
	go func() {
		for ; d > 0; d -= 500 * time.Millisecond {
			time.Sleep(500 * time.Millisecond)
		}
		close(ch)
	}()
	return ch
}
