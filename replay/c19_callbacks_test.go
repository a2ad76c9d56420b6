package znet

import (
	"context"
	"fmt"
	"math/rand"
	"os"
	"strconv"
	"testing"
)

type c19list interface {
	add(h, k interface{}, f func())
	remove(h, k interface{})
	invoke()
	count() int
}

type c19raw struct{ c callbacks }

func (x *c19raw) add(h, k interface{}, f func()) { x.c.Add(h, k, f) }
func (x *c19raw) remove(h, k interface{})        { x.c.Remove(h, k) }
func (x *c19raw) invoke()                        { x.c.Invoke() }
func (x *c19raw) count() int                     { return x.c.Count() }

type c19iface interface {
	AddCloseCallback(handler, key interface{}, f func())
	RemoveCloseCallback(handler, key interface{})
	InvokeCloseCallbacks()
}
type c19conn struct{ c c19iface }

func (x *c19conn) add(h, k interface{}, f func()) { x.c.AddCloseCallback(h, k, f) }
func (x *c19conn) remove(h, k interface{})        { x.c.RemoveCloseCallback(h, k) }
func (x *c19conn) invoke()                        { x.c.InvokeCloseCallbacks() }
func (x *c19conn) count() int                     { return -1 }

func TestVerifC19(t *testing.T) {
	seed, _ := strconv.Atoi(os.Getenv("VERIF_SEED"))
	rng := rand.New(rand.NewSource(int64(seed) + 19))
	n, nf := 0, 0
	fail := func(f string, a ...interface{}) {
		nf++
		if nf < 10 {
			fmt.Printf("VERIF-FAIL "+f+"\n", a...)
		}
		t.Fail()
	}
	p1, p2 := new(int), new(int)
	hs := []interface{}{nil, "h", 1, p1, p2}
	ks := []interface{}{nil, "k", 1, int64(1)}
	mk := []struct {
		name string
		f    func() c19list
	}{{"list", func() c19list { return &c19raw{} }},
		{"TCP connection", func() c19list { return &c19conn{&Connection{ctx: context.Background()}} }},
		{"WebSocket connection", func() c19list { return &c19conn{&WsConnection{}} }},
		{"KCP connection", func() c19list { return &c19conn{&KcpConnection{}} }}}
	type item struct {
		h, k interface{}
		id   int
	}
	run := func(name string, l c19list, ops []int, hist *string) bool {
		var ref []item
		var log []int
		id := 0
		for _, op := range ops {
			h, k := hs[rng.Intn(1+op%5)], ks[rng.Intn(1+op%4)]
			switch {
			case op < 12:
				id++
				me := id
				if op == 11 {
					l.add(h, k, nil)
					*hist += fmt.Sprintf(" addnil(%v,%v)", show(h), k)
				} else {
					l.add(h, k, func() { log = append(log, me) })
					ref = append(ref, item{h, k, me})
					*hist += fmt.Sprintf(" add%d(%v,%v)", me, show(h), k)
				}
			case op < 20:
				l.remove(h, k)
				*hist += fmt.Sprintf(" remove(%v,%v)", show(h), k)
				for i, x := range ref {
					if x.h == h && x.k == k {
						ref = append(append([]item{}, ref[:i]...), ref[i+1:]...)
						break
					}
				}
			}
			n++
			log = nil
			l.invoke()
			var want []int
			for _, x := range ref {
				want = append(want, x.id)
			}
			if fmt.Sprint(log) != fmt.Sprint(want) {
				fail("%s after%s: invoking calls %v, registered are %v", name, *hist, log, want)
				return false
			}
			if c := l.count(); c >= 0 && c != len(ref) {
				fail("%s after%s: count is %d, registered are %d", name, *hist, c, len(ref))
				return false
			}
		}
		return true
	}
	for _, m := range mk {
		for it := 0; it < 1500; it++ {
			var ops []int
			for j := 0; j < 14; j++ {
				ops = append(ops, rng.Intn(20))
			}
			h := ""
			fmt.Printf("VERIF-BEGIN %s history %d\n", m.name, it)
			func() {
				defer func() {
					if e := recover(); e != nil {
						fail("%s after%s: panic %v", m.name, h, e)
					}
				}()
				run(m.name, m.f(), ops, &h)
			}()
		}
	}
	fmt.Printf("VERIF-SAMPLE 4 holders x 1500 histories of 14 operations\nVERIF-CASES %d\nVERIF-DONE\n", n)
}

func show(x interface{}) string {
	if p, ok := x.(*int); ok {
		return fmt.Sprintf("p%d", len(fmt.Sprint(p)))
	}
	return fmt.Sprint(x)
}
