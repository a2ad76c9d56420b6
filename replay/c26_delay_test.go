package znet

import (
	"fmt"
	"math/rand"
	"errors"
	"net"
	"net/http"
	"os"
	"strconv"
	"testing"
	"time"

	"github.com/gorilla/websocket"
	"github.com/xtaci/kcp-go"

	"github.com/aceld/zinx/zconf"
)

func c26wait(k int) time.Duration {
	if k == 0 {
		return 0
	}
	d := 5 * time.Millisecond
	for i := 1; i < k; i++ {
		d *= 2
		if d > time.Second {
			return time.Second
		}
	}
	return d
}

func TestVerifC26(t *testing.T) {
	seed, _ := strconv.Atoi(os.Getenv("VERIF_SEED"))
	rng := rand.New(rand.NewSource(int64(seed) + 26))
	n, nf := 0, 0
	fail := func(f string, a ...interface{}) {
		nf++
		if nf < 10 {
			fmt.Printf("VERIF-FAIL "+f+"\n", a...)
		}
		t.Fail()
	}
	if AcceptDelay == nil || AcceptDelay.duration != 0 {
		fail("the accept delay does not start at zero")
	}
	for it := 0; it < 2000; it++ {
		d := &acceptDelay{}
		k := 0
		h := ""
		for j := 0; j < 40; j++ {
			if rng.Intn(15) == 0 {
				d.Reset()
				k = 0
				h += "R"
			} else {
				d.Up()
				k++
				h += "F"
			}
			n++
			if d.duration != c26wait(k) {
				fail("after %s the wait is %v, not %v", h, d.duration, c26wait(k))
				break
			}
		}
	}
	d := &acceptDelay{}
	for k := 1; k < 6; k++ {
		t0 := time.Now()
		d.Delay()
		n++
		if el := time.Since(t0); el < c26wait(k) {
			fail("failure %d: Delay waited %v, less than %v", k, el, c26wait(k))
		}
		if d.duration != c26wait(k) {
			fail("failure %d: the wait is %v, not %v", k, d.duration, c26wait(k))
		}
	}
	// the TCP accept loop: refusing connections increases the delay, an accepted connection resets it
	fmt.Println("VERIF-BEGIN accept loop")
	max := zconf.GlobalObject.MaxConn
	l, err := net.Listen("tcp", "127.0.0.1:0")
	if err == nil {
		port := l.Addr().(*net.TCPAddr).Port
		l.Close()
		s := newServerWithConfig(zconf.GlobalObject, "tcp4").(*Server)
		s.IP, s.Port = "127.0.0.1", port
		s.exitChan = make(chan struct{})
		zconf.GlobalObject.MaxConn = 0
		AcceptDelay.Reset()
		s.msgHandler.StartWorkerPool()
		go s.ListenTcpConn()
		time.Sleep(200 * time.Millisecond)
		for i := 0; i < 500 && AcceptDelay.duration < 10*time.Millisecond; i++ {
			time.Sleep(20 * time.Millisecond)
		}
		n++
		if w := AcceptDelay.duration; w < 10*time.Millisecond || w > time.Second {
			fail("a server at its connection limit for a while waits %v between attempts", w)
		}
		zconf.GlobalObject.MaxConn = 100
		ok := false
		for i := 0; i < 200 && !ok; i++ {
			time.Sleep(20 * time.Millisecond)
			c, err := net.Dial("tcp4", fmt.Sprintf("127.0.0.1:%d", port))
			if err != nil {
				continue
			}
			for j := 0; j < 100 && !ok; j++ {
				time.Sleep(20 * time.Millisecond)
				ok = s.ConnMgr.Len() > 0
			}
			c.Close()
		}
		n++
		if !ok {
			fail("no connection is accepted below the limit")
		} else if AcceptDelay.duration != 0 {
			fail("an accepted connection leaves the wait at %v", AcceptDelay.duration)
		}
		zconf.GlobalObject.MaxConn = max
		s.exitChan <- struct{}{}
	}
	c26ws(&n, fail)
	c26kcp(&n, fail)
	zconf.GlobalObject.MaxConn = max
	fmt.Printf("VERIF-SAMPLE 2000 random histories of 40 steps; accept loop at and below its limit\nVERIF-CASES %d\nVERIF-DONE\n", n)
}

func c26port() int {
	l, err := net.Listen("tcp", "127.0.0.1:0")
	if err != nil {
		return 0
	}
	defer l.Close()
	return l.Addr().(*net.TCPAddr).Port
}

// the websocket handler: refused, unauthorised and failed requests each double the wait, an accepted one resets it
func c26ws(n *int, fail func(string, ...interface{})) {
	fmt.Println("VERIF-BEGIN websocket")
	s := newServerWithConfig(zconf.GlobalObject, "tcp4").(*Server)
	s.IP, s.WsPort, s.WsPath = "127.0.0.1", c26port(), "/c26"
	if s.WsPort == 0 {
		return
	}
	s.msgHandler.StartWorkerPool()
	deny := false
	s.websocketAuth = func(*http.Request) error {
		if deny {
			return errors.New("denied")
		}
		return nil
	}
	zconf.GlobalObject.MaxConn = 100
	go s.ListenWebsocketConn()
	url := fmt.Sprintf("127.0.0.1:%d/c26", s.WsPort)
	up := false
	for i := 0; i < 300 && !up; i++ {
		time.Sleep(10 * time.Millisecond)
		if c, err := net.Dial("tcp4", fmt.Sprintf("127.0.0.1:%d", s.WsPort)); err == nil {
			c.Close()
			up = true
		}
	}
	if !up {
		return
	}
	dial := func() error {
		c, r, err := websocket.DefaultDialer.Dial("ws://"+url, nil)
		if r != nil && r.Body != nil {
			r.Body.Close()
		}
		if err == nil {
			defer c.Close()
		}
		return err
	}
	settle := func(w time.Duration) time.Duration { // the client may be answered before the handler has finished
		for i := 0; i < 300 && AcceptDelay.duration != w; i++ {
			time.Sleep(5 * time.Millisecond)
		}
		return AcceptDelay.duration
	}
	for round := 0; round < 4; round++ {
		AcceptDelay.Reset()
		h := ""
		for k, what := range []string{"LAUL", "UUAL", "ALU", "LUA"}[round] {
			*n++
			h += string(what)
			switch what {
			case 'L':
				zconf.GlobalObject.MaxConn = 0
				dial()
				zconf.GlobalObject.MaxConn = 100
			case 'A':
				deny = true
				if dial() == nil {
					fail("an unauthorised websocket connection was accepted")
				}
				deny = false
			case 'U':
				if r, err := http.Get("http://" + url); err == nil {
					r.Body.Close()
				}
			}
			if w := settle(c26wait(k + 1)); w != c26wait(k+1) {
				fail("after the websocket requests %s (L at the limit, A unauthorised, U not upgradable) the wait is %v, not %v", h, w, c26wait(k+1))
				break
			}
		}
		*n++
		if err := dial(); err != nil {
			fail("a websocket connection below the limit is refused after %s: %v", h, err)
		} else if w := settle(0); w != 0 {
			fail("an accepted websocket connection after %s leaves the wait at %v", h, w)
		}
	}
}

// the KCP accept loop at and below its limit
func c26kcp(n *int, fail func(string, ...interface{})) {
	fmt.Println("VERIF-BEGIN kcp")
	s := newServerWithConfig(zconf.GlobalObject, "tcp4").(*Server)
	s.IP, s.KcpPort = "127.0.0.1", c26port()
	if s.KcpPort == 0 {
		return
	}
	s.exitChan = make(chan struct{})
	zconf.GlobalObject.MaxConn = 0
	AcceptDelay.Reset()
	s.msgHandler.StartWorkerPool()
	go s.ListenKcpConn()
	for i := 0; i < 500 && AcceptDelay.duration < 10*time.Millisecond; i++ {
		time.Sleep(20 * time.Millisecond)
	}
	*n++
	if w := AcceptDelay.duration; w < 10*time.Millisecond || w > time.Second {
		fail("a KCP server at its connection limit for a while waits %v between attempts", w)
	}
	zconf.GlobalObject.MaxConn = 100
	c, err := kcp.DialWithOptions(fmt.Sprintf("127.0.0.1:%d", s.KcpPort), nil, s.kcpConfig.KcpFecDataShards, s.kcpConfig.KcpFecParityShards)
	if err != nil {
		return
	}
	defer c.Close()
	ok := false
	for i := 0; i < 300 && !ok; i++ {
		c.Write([]byte{0})
		time.Sleep(20 * time.Millisecond)
		ok = s.ConnMgr.Len() > 0
	}
	*n++
	if !ok {
		fail("no KCP connection is accepted below the limit")
	} else if AcceptDelay.duration != 0 {
		fail("an accepted KCP connection leaves the wait at %v", AcceptDelay.duration)
	}
	select {
	case s.exitChan <- struct{}{}:
	case <-time.After(time.Second):
	}
}
