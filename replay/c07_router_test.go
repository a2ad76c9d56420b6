package znet

import (
	"fmt"
	"math/rand"
	"os"
	"strconv"
	"testing"

	"github.com/aceld/zinx/zconf"
	"github.com/aceld/zinx/ziface"
	"github.com/aceld/zinx/zpack"
)

type c07conn struct{ ziface.IConnection }

// what a step does: 0 nothing, 1 abort, 2..5 Goto(0..3), 6 panic, 7 goto then abort, 8 abort then goto(1)
type c07router struct {
	id    int
	plan  func(step int) int
	log   *[]string
	owner *ziface.IRequest
	bad   func(string)
}

func (r *c07router) step(k int, q ziface.IRequest) {
	*r.log = append(*r.log, fmt.Sprint(r.id, ":", k))
	if q != *r.owner {
		r.bad("another request was passed to the router")
	}
	switch p := r.plan(k); p {
	case 1:
		q.Abort()
	case 2, 3, 4, 5:
		q.Goto(ziface.HandleStep(p - 2))
	case 6:
		panic("boom")
	case 7:
		q.Goto(0)
		q.Abort()
	case 8:
		q.Abort()
		q.Goto(1)
	}
}
func (r *c07router) PreHandle(q ziface.IRequest)  { r.step(0, q) }
func (r *c07router) Handle(q ziface.IRequest)     { r.step(1, q) }
func (r *c07router) PostHandle(q ziface.IRequest) { r.step(2, q) }

func TestVerifC07(t *testing.T) {
	seed, _ := strconv.Atoi(os.Getenv("VERIF_SEED"))
	rng := rand.New(rand.NewSource(int64(seed) + 7))
	cases, nf := 0, 0
	fail := func(f string, a ...interface{}) {
		nf++
		if nf < 10 {
			fmt.Printf("VERIF-FAIL "+f+"\n", a...)
		}
		t.Fail()
	}
	fmt.Println("VERIF-BEGIN routers")
	saved := *zconf.GlobalObject
	defer func() { *zconf.GlobalObject = saved }()
	zconf.GlobalObject.RouterSlicesMode = false
	rounds := 4000
	if os.Getenv("VERIF_TIER") == "thorough" {
		rounds = 80000
	}
	for r := 0; r < rounds && nf < 5; r++ {
		zconf.GlobalObject.RequestPoolMode = r%2 == 0
		mh := newMsgHandle()
		var log []string
		var cur ziface.IRequest
		ids := []uint32{0, 1, 7, 1 << 16, 1<<32 - 1}
		plans := map[uint32][]int{} // per id: actions in the order its steps run
		pos := map[uint32]*int{}
		regs := map[uint32]bool{}
		for i := 0; i < 7; i++ {
			id := ids[rng.Intn(len(ids))]
			var plan []int
			for j := 0; j < 8; j++ {
				p := 0
				if rng.Intn(2) == 0 {
					p = rng.Intn(9)
				}
				plan = append(plan, p)
			}
			plan = append(plan, 0, 0, 0, 0)
			n := new(int)
			rt := &c07router{id: i, log: &log, owner: &cur, bad: func(s string) { fail("%s", s) }}
			rt.plan = func(int) int {
				*n++
				if *n > len(plan) {
					return 1
				}
				return plan[*n-1]
			}
			refused := func() (p bool) {
				defer func() { p = recover() != nil }()
				mh.AddRouter(id, rt)
				return
			}()
			if refused != regs[id] {
				fail("AddRouter(%d): refused=%v although registered=%v", id, refused, regs[id])
			}
			if !regs[id] {
				regs[id] = true
				plans[id] = append([]int{i}, plan...)
				pos[id] = n
			}
		}
		for k := 0; k < 6; k++ {
			cases++
			id := ids[rng.Intn(len(ids))]
			cur = GetRequest(&c07conn{}, zpack.NewMsgPackage(id, []byte("x")))
			log = nil
			var want []string
			if regs[id] {
				p, n := plans[id], *pos[id]
				step := 0
				for step < 3 {
					want = append(want, fmt.Sprint(p[0], ":", step))
					a := 1
					if n < len(p)-1 {
						a = p[1+n]
					}
					n++
					switch a {
					case 0:
						step++
					case 1, 6, 7:
						step = 9
					case 2, 3, 4, 5:
						step = a - 2
					case 8:
						step = 1
					}
				}
			}
			func() {
				defer func() {
					if e := recover(); e != nil {
						fail("a panic of a handler escaped the dispatcher: %v", e)
					}
				}()
				mh.doMsgHandler(cur, 3)
			}()
			if fmt.Sprint(log) != fmt.Sprint(want) {
				fail("message %d (registered %v, plan %v): steps run %v, want %v", id, regs[id], plans[id], log, want)
			}
		}
	}
	fmt.Printf("VERIF-CASES %d\n", cases)
	fmt.Println("VERIF-SAMPLE routers whose steps return, jump to any step, abort, panic, or combine these; unknown and doubly registered ids")
	fmt.Println("VERIF-DONE")
}
