package znet

import (
	"fmt"
	"math/rand"
	"os"
	"strconv"
	"testing"

	"github.com/aceld/zinx/zconf"
	"github.com/aceld/zinx/ziface"
	"github.com/aceld/zinx/zpack"
)

type c08conn struct{ ziface.IConnection }

func TestVerifC08(t *testing.T) {
	seed, _ := strconv.Atoi(os.Getenv("VERIF_SEED"))
	rng := rand.New(rand.NewSource(int64(seed) + 8))
	cases, nf := 0, 0
	fail := func(f string, a ...interface{}) {
		nf++
		if nf < 10 {
			fmt.Printf("VERIF-FAIL "+f+"\n", a...)
		}
		t.Fail()
	}
	fmt.Println("VERIF-BEGIN function routes")
	saved := *zconf.GlobalObject
	defer func() { *zconf.GlobalObject = saved }()
	zconf.GlobalObject.RouterSlicesMode = true
	rounds := 1500
	if os.Getenv("VERIF_TIER") == "thorough" {
		rounds = 30000
	}
	for r := 0; r < rounds && nf < 5; r++ {
		zconf.GlobalObject.RequestPoolMode = r%2 == 0
		mh := newMsgHandle()
		var log []int
		var cur ziface.IRequest
		// handler n behaves as act[n]: 0 return, 1 next, 2 abort, 3 panic, 4 next twice, 5 abort then next, 6 next then abort
		var act []int
		mk := func(n int) []ziface.RouterHandler {
			var hs []ziface.RouterHandler
			for i := 0; i < n; i++ {
				k := len(act)
				a := 0
				if rng.Intn(3) == 0 {
					a = rng.Intn(7)
				}
				act = append(act, a)
				hs = append(hs, func(q ziface.IRequest) {
					log = append(log, k)
					if q != cur {
						fail("another request was passed to the handler")
					}
					switch act[k] {
					case 1:
						q.RouterSlicesNext()
					case 2:
						q.Abort()
					case 3:
						panic("boom")
					case 4:
						q.RouterSlicesNext()
						q.RouterSlicesNext()
					case 5:
						q.Abort()
						q.RouterSlicesNext()
					case 6:
						q.RouterSlicesNext()
						q.Abort()
					}
				})
			}
			return hs
		}
		seqOf := func(hs []ziface.RouterHandler, first int) []int {
			var o []int
			for i := range hs {
				o = append(o, first+i)
			}
			return o
		}
		var global []int
		type grp struct {
			g          ziface.IGroupRouterSlices
			start, end uint32
			hs         []int
		}
		var groups []*grp
		routes := map[uint32][]int{}
		for op := 0; op < 14; op++ {
			n := rng.Intn(4)
			if rng.Intn(60) == 0 {
				n = 130
			}
			first := len(act)
			hs := mk(n)
			own := seqOf(hs, first)
			switch rng.Intn(6) {
			case 0:
				mh.Use(hs...)
				global = append(global, own...)
			case 1:
				s := uint32(rng.Intn(6))
				e := s + uint32(rng.Intn(6))
				g := &grp{start: s, end: e, hs: own}
				if rng.Intn(2) == 0 {
					g.g = mh.Group(s, e, hs...)
				} else {
					g.g = mh.RouterSlices.Group(s, e, hs...)
				}
				for i := range hs { // the caller's slice is not the group's
					hs[i] = func(ziface.IRequest) { fail("a handler that was never registered ran") }
				}
				groups = append(groups, g)
			case 2:
				if len(groups) > 0 {
					g := groups[rng.Intn(len(groups))]
					g.g.Use(hs...)
					g.hs = append(append([]int{}, g.hs...), own...)
				}
			default:
				id := uint32(rng.Intn(12))
				var g *grp
				if len(groups) > 0 && rng.Intn(2) == 0 {
					g = groups[rng.Intn(len(groups))]
				}
				refused := func() (p bool) {
					defer func() { p = recover() != nil }()
					if g != nil {
						g.g.AddHandler(id, hs...)
					} else {
						mh.AddRouterSlices(id, hs...)
					}
					return
				}()
				_, dup := routes[id]
				want := dup || (g != nil && (id < g.start || id > g.end))
				if refused != want {
					fail("adding route %d: refused=%v, want %v", id, refused, want)
				}
				if !want {
					l := append([]int{}, global...)
					if g != nil {
						l = append(l, g.hs...)
					}
					routes[id] = append(l, own...)
				}
				if len(hs) > 0 && rng.Intn(2) == 0 {
					hs[0] = func(ziface.IRequest) { fail("a handler that was never registered ran") }
				}
			}
			// run a random id after every registration
			cases++
			id := uint32(rng.Intn(12))
			list := routes[id]
			var exp []int
			idx, ok := -1, true
			var next func() bool
			next = func() bool {
				idx++
				for idx < len(list) {
					k := list[idx]
					exp = append(exp, k)
					switch act[k] {
					case 1:
						if !next() {
							return false
						}
					case 2:
						idx = len(list)
					case 3:
						return false
					case 4:
						if !next() || !next() {
							return false
						}
					case 5:
						idx = len(list)
						if !next() {
							return false
						}
					case 6:
						if !next() {
							return false
						}
						idx = len(list)
					}
					idx++
				}
				return true
			}
			next()
			log = nil
			cur = GetRequest(&c08conn{}, zpack.NewMsgPackage(id, nil))
			func() {
				defer func() {
					if e := recover(); e != nil {
						ok = false
						fail("a panic of a handler escaped the dispatcher: %v", e)
					}
				}()
				mh.doMsgHandlerSlices(cur, 1)
			}()
			if ok && fmt.Sprint(log) != fmt.Sprint(exp) {
				fail("route %d with handlers %v (behaviours %v): ran %v, want %v", id, list, act, log, exp)
			}
		}
	}
	fmt.Printf("VERIF-CASES %d\n", cases)
	fmt.Println("VERIF-SAMPLE global/group/own handlers added in any order, up to 130 at once; handlers that call next, abort, panic")
	fmt.Println("VERIF-DONE")
}
