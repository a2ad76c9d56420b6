package zutils

import (
	"encoding/json"
	"fmt"
	"math/rand"
	"os"
	"reflect"
	"sort"
	"strconv"
	"sync"
	"sync/atomic"
	"testing"
	"time"
)

type c15const struct{ v uint32 }

func (c c15const) Sum(string) uint32 { return c.v }

type c15len struct{}

func (c15len) Sum(s string) uint32 { return uint32(len(s)) * 2654435761 }

func TestVerifC15(t *testing.T) {
	seed, _ := strconv.Atoi(os.Getenv("VERIF_SEED"))
	rng := rand.New(rand.NewSource(int64(seed) + 15))
	cases, nf := 0, 0
	var mu sync.Mutex
	fail := func(f string, a ...interface{}) {
		mu.Lock()
		defer mu.Unlock()
		nf++
		if nf < 10 {
			fmt.Printf("VERIF-FAIL "+f+"\n", a...)
		}
		t.Fail()
	}
	fmt.Println("VERIF-BEGIN sequential histories")
	watchdog := func(what string, fn func()) bool {
		done := make(chan bool)
		go func() {
			defer func() {
				if e := recover(); e != nil {
					fail("%s panicked: %v", what, e)
				}
				close(done)
			}()
			fn()
		}()
		select {
		case <-done:
			return true
		case <-c15after(60 * time.Second):
			fail("%s never returned", what)
			return false
		}
	}
	runs := 150
	if os.Getenv("VERIF_TIER") == "thorough" {
		runs = 1500
	}
	for it := 0; it < runs && nf == 0; it++ {
		var m ShardLockMaps
		var hn string
		switch it % 4 {
		case 0:
			m, hn = NewShardLockMaps(), "default"
		case 1:
			m, hn = NewWithCustomHash(c15const{uint32(rng.Uint32())}), "constant"
		case 2:
			m, hn = NewWithCustomHash(c15len{}), "length"
		case 3:
			m, hn = NewShardLockMaps(), "default"
		}
		nk := []int{3, 40, 300}[it%3]
		key := func() string {
			i := rng.Intn(nk)
			if i == 0 {
				return ""
			}
			if i == 1 {
				return "键é"
			}
			return strconv.Itoa(i)
		}
		ref := map[string]interface{}{}
		hist := ""
		note := func(f string, a ...interface{}) {
			hist += fmt.Sprintf(f, a...) + ";"
			if len(hist) > 1500 {
				hist = hist[len(hist)-1200:]
			}
		}
		check := func() {
			if m.Count() != len(ref) {
				fail("Count()=%d, the map has %d keys; hash=%s history=%s", m.Count(), len(ref), hn, hist)
			}
			if m.IsEmpty() != (len(ref) == 0) {
				fail("IsEmpty()=%v with %d keys; history=%s", m.IsEmpty(), len(ref), hist)
			}
			if !reflect.DeepEqual(m.Items(), ref) {
				fail("Items()=%v expected %v; hash=%s history=%s", m.Items(), ref, hn, hist)
			}
			want := []string{}
			for k := range ref {
				want = append(want, k)
			}
			sort.Strings(want)
			got := append([]string{}, m.Keys()...)
			sort.Strings(got)
			if !reflect.DeepEqual(got, want) {
				fail("Keys()=%v expected %v; hash=%s history=%s", got, want, hn, hist)
			}
			var seen []string
			m.IterCb(func(k string, v interface{}) {
				seen = append(seen, k)
				if w, ok := ref[k]; !ok || w != v {
					fail("IterCb visits (%q,%v), expected %v (present %v); history=%s", k, v, w, ok, hist)
				}
			})
			sort.Strings(seen)
			if len(seen) != len(want) || len(want) > 0 && !reflect.DeepEqual(seen, want) {
				fail("IterCb visits keys %v expected %v; history=%s", seen, want, hist)
			}
			seen = nil
			for tup := range m.IterBuffered() {
				seen = append(seen, tup.Key)
				if w, ok := ref[tup.Key]; !ok || w != tup.Val {
					fail("IterBuffered delivers (%q,%v), expected %v (present %v); history=%s", tup.Key, tup.Val, w, ok, hist)
				}
			}
			sort.Strings(seen)
			if len(seen) != len(want) || len(want) > 0 && !reflect.DeepEqual(seen, want) {
				fail("IterBuffered delivers keys %v expected %v; history=%s", seen, want, hist)
			}
			a, err := json.Marshal(m)
			b, _ := json.Marshal(ref)
			if err != nil || string(a) != string(b) {
				fail("JSON %s expected %s (%v); history=%s", a, b, err, hist)
			}
		}
		ok := watchdog("a history of map operations", func() {
			for j := 0; j < 60 && nf == 0; j++ {
				cases++
				k := key()
				var v interface{} = "v" + strconv.Itoa(rng.Intn(1000))
				if rng.Intn(8) == 0 {
					v = nil
				}
				w, was := ref[k]
				switch op := rng.Intn(12); op {
				case 0, 1, 2:
					note("Set(%q,%v)", k, v)
					m.Set(k, v)
					ref[k] = v
				case 3:
					note("SetNX(%q,%v)", k, v)
					if r := m.SetNX(k, v); r == was {
						fail("SetNX(%q) returned %v but the key was present: %v; history=%s", k, r, was, hist)
					}
					if !was {
						ref[k] = v
					}
				case 4:
					note("Get(%q)", k)
					if g, ok := m.Get(k); ok != was || g != w {
						fail("Get(%q)=(%v,%v) expected (%v,%v); history=%s", k, g, ok, w, was, hist)
					}
					if m.Has(k) != was {
						fail("Has(%q)=%v expected %v; history=%s", k, !was, was, hist)
					}
				case 5, 6:
					note("Remove(%q)", k)
					m.Remove(k)
					delete(ref, k)
				case 7:
					note("Pop(%q)", k)
					if g, ok := m.Pop(k); ok != was || g != w {
						fail("Pop(%q)=(%v,%v) expected (%v,%v); history=%s", k, g, ok, w, was, hist)
					}
					delete(ref, k)
				case 8, 9:
					verdict := rng.Intn(2) == 0
					calls := 0
					note("RemoveCb(%q,%v)", k, verdict)
					r := m.RemoveCb(k, func(kk string, vv interface{}, ex bool) bool {
						calls++
						if kk != k || vv != w || ex != was {
							fail("RemoveCb callback got (%q,%v,%v) expected (%q,%v,%v); history=%s", kk, vv, ex, k, w, was, hist)
						}
						return verdict
					})
					if r != verdict || calls != 1 {
						fail("RemoveCb returned %v after %d callback calls, verdict %v; history=%s", r, calls, verdict, hist)
					}
					if verdict {
						delete(ref, k)
					}
				case 10:
					data := map[string]interface{}{}
					for x := rng.Intn(20); x > 0; x-- {
						data[key()] = rng.Intn(1000)
					}
					note("MSet(%v)", data)
					cp := map[string]interface{}{}
					for a, b := range data {
						cp[a] = b
						ref[a] = b
					}
					m.MSet(data)
					if !reflect.DeepEqual(cp, data) {
						fail("MSet changed its argument from %v to %v", cp, data)
					}
				case 11:
					if rng.Intn(4) == 0 {
						note("Clear()")
						m.Clear()
						ref = map[string]interface{}{}
					} else {
						note("UnmarshalJSON")
						d := fmt.Sprintf(`{%q:"j%d","":"k"}`, strconv.Itoa(2+rng.Intn(nk)), rng.Intn(100))
						if err := json.Unmarshal([]byte(d), &m); err != nil {
							fail("Unmarshal %s: %v", d, err)
						}
						x := map[string]interface{}{}
						json.Unmarshal([]byte(d), &x)
						for a, b := range x {
							ref[a] = b
						}
					}
				}
				if j%7 == 0 || rng.Intn(5) == 0 {
					check()
				}
			}
			check()
		})
		if !ok {
			return
		}
		if it == 0 {
			fmt.Println("VERIF-SAMPLE", hist)
		}
	}
	fmt.Println("VERIF-BEGIN concurrent use")
	rounds := 60
	if os.Getenv("VERIF_TIER") == "thorough" {
		rounds = 600
	}
	for r := 0; r < rounds && nf == 0; r++ {
		m := NewShardLockMaps()
		if r%3 == 1 {
			m = NewWithCustomHash(c15const{7})
		}
		for i := 0; i < 50; i++ {
			m.Set("stable"+strconv.Itoa(i), i)
		}
		var wins, pops, cbs int64
		ok := watchdog("concurrent map operations", func() {
			var wg sync.WaitGroup
			for g := 0; g < 8; g++ {
				wg.Add(1)
				go func(g int) {
					defer wg.Done()
					for i := 0; i < 60; i++ {
						k := "race" + strconv.Itoa(i)
						if m.SetNX(k, g) {
							atomic.AddInt64(&wins, 1)
						}
						m.RemoveCb("cb"+strconv.Itoa(i), func(_ string, _ interface{}, ex bool) bool { return ex })
						if g%2 == 0 {
							own := "own" + strconv.Itoa(g)
							m.Set(own, i)
							if v, ok := m.Get(own); !ok || v != i {
								fail("a goroutine's own key reads back %v,%v after storing %d", v, ok, i)
							}
							m.Remove(own)
							if m.Has(own) {
								fail("a goroutine's own key is still present after removing it")
							}
						}
						if i%20 == 7 {
							n := map[string]int{}
							switch g % 3 {
							case 0:
								for t := range m.IterBuffered() {
									n[t.Key]++
								}
							case 1:
								for _, k := range m.Keys() {
									n[k]++
								}
							case 2:
								m.IterCb(func(k string, v interface{}) { n[k]++ })
							}
							for s := 0; s < 50; s++ {
								if n["stable"+strconv.Itoa(s)] != 1 {
									fail("an iteration (kind %d) with concurrent writers saw the untouched key stable%d %d times", g%3, s, n["stable"+strconv.Itoa(s)])
									break
								}
							}
						}
					}
				}(g)
			}
			wg.Wait()
			if wins != 60 {
				fail("8 goroutines racing SetNX on 60 keys: %d successes", wins)
			}
			for i := 0; i < 60; i++ {
				m.Set("cnt"+strconv.Itoa(i), 1)
			}
			var wg2 sync.WaitGroup
			for g := 0; g < 8; g++ {
				wg2.Add(1)
				go func() {
					defer wg2.Done()
					for i := 0; i < 60; i++ {
						if _, ok := m.Pop("race" + strconv.Itoa(i)); ok {
							atomic.AddInt64(&pops, 1)
						}
						if m.RemoveCb("cnt"+strconv.Itoa(i), func(_ string, _ interface{}, ex bool) bool { return ex }) {
							atomic.AddInt64(&cbs, 1)
						}
					}
				}()
			}
			wg2.Wait()
			if pops != 60 || cbs != 60 {
				fail("8 goroutines popping / conditionally removing 60 keys: %d pops, %d removals", pops, cbs)
			}
			if m.Count() != 50 {
				fail("count after concurrent operations is %d, expected 50", m.Count())
			}
		})
		cases++
		if !ok {
			return
		}
	}
	fmt.Println("VERIF-CASES", cases)
	fmt.Println("VERIF-DONE")
}

// c15after counts its waiting in steps, so that a machine that stands still for a while
// is not taken for code that hangs.
func c15after(d time.Duration) <-chan struct{} {
	ch := make(chan struct{})
	go func() {
		for ; d > 0; d -= 500 * time.Millisecond {
			time.Sleep(500 * time.Millisecond)
		}
		close(ch)
	}()
	return ch
}
