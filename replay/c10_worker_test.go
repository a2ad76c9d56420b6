package znet

import (
	"fmt"
	"math/rand"
	"os"
	"strconv"
	"sync"
	"sync/atomic"
	"testing"
	"time"

	"github.com/aceld/zinx/zconf"
	"github.com/aceld/zinx/ziface"
)

type c10conn struct {
	ziface.IConnection
	id uint64
	w  uint32
	mh ziface.IMsgHandle
}

func (c *c10conn) GetConnID() uint64                { return c.id }
func (c *c10conn) GetWorkerID() uint32              { return c.w }
func (c *c10conn) GetMsgHandler() ziface.IMsgHandle { return c.mh }

type c10func struct {
	ziface.BaseRequest
	f func()
}

func (r *c10func) CallFunc() { r.f() }

func TestVerifC10(t *testing.T) {
	seed, _ := strconv.Atoi(os.Getenv("VERIF_SEED"))
	rng := rand.New(rand.NewSource(int64(seed) + 10))
	cases := 0
	var nf int32
	fail := func(f string, a ...interface{}) {
		if atomic.AddInt32(&nf, 1) < 10 {
			fmt.Printf("VERIF-FAIL "+f+"\n", a...)
		}
		t.Fail()
	}
	fmt.Println("VERIF-BEGIN worker assignment")
	saved := *zconf.GlobalObject
	defer func() { *zconf.GlobalObject = saved }()
	rounds := 150
	if os.Getenv("VERIF_TIER") == "thorough" {
		rounds = 3000
	}
	// alive: does a worker serve the queue of worker w?
	alive := func(mh *MsgHandle, w uint32) (ok bool) {
		defer func() {
			if recover() != nil {
				ok = false
			}
		}()
		done := make(chan bool, 1)
		if mh.TaskQueue[w] == nil {
			return false
		}
		select {
		case mh.TaskQueue[w] <- &c10func{f: func() { done <- true }}:
		case <-c10after(30 * time.Second):
			return false
		}
		select {
		case <-done:
			return true
		case <-c10after(30 * time.Second):
			return false
		}
	}
	for r := 0; r < rounds && nf == 0; r++ {
		mode := []string{zconf.WorkerModeHash, zconf.WorkerModeBind, zconf.WorkerModeDynamicBind}[r%3]
		zconf.GlobalObject.WorkerMode = mode
		zconf.GlobalObject.MaxConn = 1 + rng.Intn(7)
		zconf.GlobalObject.WorkerPoolSize = uint32(1 + rng.Intn(zconf.GlobalObject.MaxConn))
		zconf.GlobalObject.MaxWorkerTaskLen = uint32(1 + rng.Intn(4))
		maxc := zconf.GlobalObject.MaxConn
		mh := newMsgHandle()
		if mode == zconf.WorkerModeBind && mh.WorkerPoolSize != uint32(maxc) {
			fail("bind mode: pool of %d workers for %d connections", mh.WorkerPoolSize, maxc)
		}
		mh.StartWorkerPool()
		var open []*c10conn
		hist := ""
		extra := map[uint32]chan ziface.IRequest{}
		for op := 0; op < 40 && nf == 0; op++ {
			cases++
			if len(open) < maxc && (len(open) == 0 || rng.Intn(2) == 0) {
				c := &c10conn{id: uint64(rng.Intn(1000)), mh: mh}
				if rng.Intn(10) == 0 {
					c.id = 1<<64 - 1 - uint64(rng.Intn(5))
				}
				c.w = useWorker(c)
				hist += fmt.Sprintf(" +%d:%d", c.id, c.w)
				if int(c.w) >= len(mh.TaskQueue) {
					fail("%s pool %d max %d:%s: worker %d out of range", mode, mh.WorkerPoolSize, maxc, hist, c.w)
					break
				}
				if mode == zconf.WorkerModeHash {
					if uint64(c.w) != c.id%uint64(mh.WorkerPoolSize) {
						fail("hash mode, pool %d: connection %d got worker %d", mh.WorkerPoolSize, c.id, c.w)
					}
				} else {
					for _, o := range open {
						if o.w == c.w {
							fail("%s pool %d max %d:%s: two open connections share worker %d", mode, mh.WorkerPoolSize, maxc, hist, c.w)
						}
					}
				}
				open = append(open, c)
				if c.w >= mh.WorkerPoolSize {
					extra[c.w] = mh.TaskQueue[c.w]
				}
				if nf == 0 && !alive(mh, c.w) {
					fail("%s pool %d max %d:%s: worker %d does not serve its queue", mode, mh.WorkerPoolSize, maxc, hist, c.w)
				}
			} else {
				i := rng.Intn(len(open))
				c := open[i]
				open = append(open[:i], open[i+1:]...)
				hist += fmt.Sprintf(" -%d:%d", c.id, c.w)
				func() {
					defer func() {
						if e := recover(); e != nil {
							fail("%s pool %d max %d:%s: freeWorker panicked: %v", mode, mh.WorkerPoolSize, maxc, hist, e)
						}
					}()
					freeWorker(c)
				}()
				if q := extra[c.w]; q != nil && c.w >= mh.WorkerPoolSize {
					select {
					case _, ok := <-q:
						if ok {
							fail("extra worker %d: unexpected task", c.w)
						}
					case <-c10after(30 * time.Second):
						fail("%s pool %d max %d:%s: extra worker %d was not stopped", mode, mh.WorkerPoolSize, maxc, hist, c.w)
					}
				}
			}
			for _, o := range open {
				if nf == 0 && !alive(mh, o.w) {
					fail("%s pool %d max %d:%s: worker %d of an open connection was stopped", mode, mh.WorkerPoolSize, maxc, hist, o.w)
				}
			}
		}
	}
	// concurrent connections
	for r := 0; r < 6 && nf == 0; r++ {
		mode := []string{zconf.WorkerModeBind, zconf.WorkerModeDynamicBind}[r%2]
		zconf.GlobalObject.WorkerMode = mode
		zconf.GlobalObject.MaxConn = 8
		zconf.GlobalObject.WorkerPoolSize = 3
		mh := newMsgHandle()
		mh.StartWorkerPool()
		var used [8]int32
		var wg sync.WaitGroup
		for g := 0; g < 8; g++ {
			wg.Add(1)
			go func(g int) {
				defer wg.Done()
				defer func() {
					if e := recover(); e != nil {
						fail("%s: panic with concurrent connections: %v", mode, e)
					}
				}()
				for i := 0; i < 400; i++ {
					c := &c10conn{id: uint64(g), mh: mh}
					c.w = useWorker(c)
					if atomic.AddInt32(&used[c.w], 1) != 1 {
						fail("%s: worker %d given to two connections at the same time", mode, c.w)
					}
					atomic.AddInt32(&used[c.w], -1)
					freeWorker(c)
				}
			}(g)
		}
		wg.Wait()
		cases++
	}
	fmt.Printf("VERIF-CASES %d\n", cases)
	fmt.Println("VERIF-SAMPLE 40 openings/closings of up to 7 connections in hash, bind and dynamic mode; every worker probed with a task")
	fmt.Println("VERIF-DONE")
}

// c10after counts its waiting in steps, so that a machine that stands still for a while
// is not taken for code that hangs.
func c10after(d time.Duration) <-chan struct{} {
	ch := make(chan struct{})
	go func() {
		for ; d > 0; d -= 500 * time.Millisecond {
			time.Sleep(500 * time.Millisecond)
		}
		close(ch)
	}()
	return ch
}
