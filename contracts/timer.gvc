# Timing wheel.  gh(0, "clock") is the last reading of the clock in nanoseconds.
func time.Now () -> (t)
  trusted an arbitrary reading of the clock (it may also go back)
  modifies ghost 0.clock
  ensures t.wall == gh(0, "clock") and 0 <= gh(0, "clock") < 2**63
func (time.Time).UnixNano (t) -> (n)
  trusted nanoseconds since 1970
  pure
  ensures n == t.wall
def tdiv(n) = n // 1000000 if n >= 0 else -((-n) // 1000000)
def ms = gh(0, "clock") // 1000000
def Q(w, i) = w.timerQueue[i]
type ztimer.TimeWheel
  lock RWMutex guards timerQueue, curIndex
  invariant[shape] self.interval > 0 and 0 < self.scales < 2**31 and 0 <= self.curIndex < self.scales and self.timerQueue != nil
  invariant[slots] forall(lambda i: implies(0 <= i < self.scales, i in self.timerQueue and self.timerQueue[i] != nil)) and forall(lambda i, j: implies(0 <= i < self.scales and 0 <= j < self.scales and i != j, self.timerQueue[i] != self.timerQueue[j]), "int", "int")
  invariant[timers] forall(lambda i, k: implies(0 <= i < self.scales and k in self.timerQueue[i], self.timerQueue[i][k] != nil and -2**45 < self.timerQueue[i][k].unixts < 2**45), "int", "uint32")
def shape(w) = w.interval > 0 and 0 < w.scales < 2**31 and 0 <= w.curIndex < w.scales and w.timerQueue != nil
def slots(w) = forall(lambda i: implies(0 <= i < w.scales, i in w.timerQueue and w.timerQueue[i] != nil)) and forall(lambda i, j: implies(0 <= i < w.scales and 0 <= j < w.scales and i != j, w.timerQueue[i] != w.timerQueue[j]), "int", "int")
def delay(t) = t.unixts - ms
def slot(w, t, f) = gmod(w.curIndex + gdiv(delay(t), w.interval), w.scales) if delay(t) >= w.interval else (gmod(w.curIndex + 1, w.scales) if f else w.curIndex)
def here(w, t) = delay(t) >= w.interval or w.nextTimeWheel == nil
def kept(w, i, k) = iff(k in w.timerQueue[i], old(k in w.timerQueue[i])) and implies(k in w.timerQueue[i], w.timerQueue[i][k] == old(w.timerQueue[i][k]))
func (*ztimer.TimeWheel).addTimer (w, id, t, f) -> (e)
  property C17
  option noguard noframe
  requires w != nil and t != nil and -2**45 < t.unixts < 2**45 and shape(w) and slots(w)
  event placed(w, id, t)
  modifies anymap map[uint32]*ztimer.Timer, ghost 0.clock, ghost id.home
  ghostset id.home := slot(w, t, f) if here(w, t) else -1
  ensures[home] gh(id, "home") == (slot(w, t, f) if here(w, t) else -1)
  ensures[in-its-slot] implies(here(w, t), id in Q(w, slot(w, t, f)) and Q(w, slot(w, t, f))[id] == t)
  ensures[other-maps] forall(lambda m, k: implies(not (here(w, t) and m == Q(w, slot(w, t, f))), iff(k in m, old(k in m)) and implies(k in m, m[k] == old(m[k]))), "map[uint32]*ztimer.Timer", "uint32")
  ensures[not-below] implies(here(w, t), ntrace() == 0)
  ensures[nothing-else] forall(lambda i, k: implies(0 <= i < w.scales and not (here(w, t) and i == slot(w, t, f) and k == id), kept(w, i, k)), "int", "uint32")
  ensures[or-below] implies(not here(w, t), ntrace() == 1 and ev(0, "below", w.nextTimeWheel, id, t))
func (*ztimer.TimeWheel).AddTimer (w, id, t) -> (e)
  property C17
  option noframe
  requires w != nil and t != nil and -2**45 < t.unixts < 2**45
  atomic w
  event below(w, id, t)
  oncall[under-lock] (*ztimer.TimeWheel).addTimer (x, k, y, f): held(w) and not f
  ensures[placed-once] ntrace() == 1 and ev(0, "placed", w, id, t)
func (*ztimer.TimeWheel).RemoveTimer (w, id)
  property C17
  option noframe
  requires w != nil
  atomic w
  event removed(w, id)
  modifies anymap map[uint32]*ztimer.Timer
  template[removed] (n: int): forall(lambda i: implies(0 <= i < n, id not in Q(w, i)), "int") and forall(lambda i, k: implies(0 <= i < w.scales and k != id, kept(w, i, k)), "int", "uint32")
  template[removed-each] (x: any *ztimer.TimeWheel): x == w and forall(lambda i: implies(0 <= i < w.scales and visited(i), id not in Q(w, i)), "int") and forall(lambda i, k: implies(0 <= i < w.scales and k != id, kept(w, i, k)), "int", "uint32")
  ensures[gone] forall(lambda i: implies(0 <= i < w.scales, id not in Q(w, i)), "int")
  ensures[others] forall(lambda i, k: implies(0 <= i < w.scales and k != id, kept(w, i, k)), "int", "uint32")
func ztimer.NewTimeWheel (name, interval, scales, cap) -> (w)
  property C17
  option noframe
  requires interval > 0 and 0 < scales < 2**31
  template[made] (n: int, x: any *ztimer.TimeWheel): x.interval == interval and x.scales == scales and x.curIndex == 0 and x.nextTimeWheel == nil and x.timerQueue != nil and fresh(x) and forall(lambda i: implies(0 <= i < n, i in x.timerQueue and x.timerQueue[i] != nil and len(x.timerQueue[i]) == 0 and forall(lambda k: k not in x.timerQueue[i], "uint32")), "int") and forall(lambda i, j: implies(0 <= i < n and 0 <= j < n and i != j, x.timerQueue[i] != x.timerQueue[j]), "int", "int")
  ensures[shape] shape(w) and slots(w)
  ensures[empty] w != nil and fresh(w) and w.interval == interval and w.scales == scales and w.curIndex == 0 and w.nextTimeWheel == nil and forall(lambda i, k: implies(0 <= i < scales, i in w.timerQueue and w.timerQueue[i] != nil and k not in w.timerQueue[i]), "int", "uint32")
func ztimer.NewTimerAt (df, ns) -> (t)
  property C17
  inline
  ensures[at] t != nil and fresh(t) and t.delayFunc == df and t.unixts == tdiv(ns)
func ztimer.NewTimerAfter (df, d) -> (t)
  property C17
  modifies ghost 0.clock
  ensures[bounded] -2**45 < t.unixts < 2**45
  ensures[after] t != nil and fresh(t) and t.delayFunc == df and t.unixts == tdiv(gh(0, "clock") + d if gh(0, "clock") + d < 2**63 else 2**63 - 1)
def leaf(w) = ptr(gh(w, "leaf"), "*ztimer.TimeWheel")
def cur(w) = Q(leaf(w), leaf(w).curIndex)
def due(t, d) = t.unixts - ms < tdiv(d)
func (*ztimer.TimeWheel).GetTimerWithIn (w, d) -> (r)
  property C17
  option noframe
  requires w != nil and forall(lambda x: implies(x.nextTimeWheel == nil, gh(x, "leaf") == x) and implies(x.nextTimeWheel != nil, gh(x, "leaf") == gh(x.nextTimeWheel, "leaf")), "*ztimer.TimeWheel")
  requires leaf(w) != nil and leaf(w).nextTimeWheel == nil
  template[down] (x: *ztimer.TimeWheel): x != nil and gh(x, "leaf") == gh(w, "leaf")
  template[taking] (m: any map[uint32]*ztimer.Timer): fresh(m) and forall(lambda k: iff(k in m, visited(k) and old(k in cur(w)) and due(old(cur(w)[k]), d)) and implies(k in m, m[k] == old(cur(w)[k])) and iff(k in cur(w), old(k in cur(w)) and k not in m) and implies(k in cur(w), cur(w)[k] == old(cur(w)[k])), "uint32")
  atomic leaf(w)
  modifies anymap map[uint32]*ztimer.Timer, ghost 0.clock
  ensures[due] r != nil and fresh(r) and forall(lambda k: iff(k in r, old(k in cur(w)) and due(old(cur(w)[k]), d)) and implies(k in r, r[k] == old(cur(w)[k])), "uint32")
  ensures[taken-off] forall(lambda k: iff(k in cur(w), old(k in cur(w)) and k not in r) and implies(k in cur(w), cur(w)[k] == old(cur(w)[k])), "uint32")
  ensures[others] forall(lambda i, k: implies(0 <= i < leaf(w).scales and i != leaf(w).curIndex, kept(leaf(w), i, k)), "int", "uint32")

type ztimer.TimerScheduler
  lock RWMutex guards IDGen
def stdt(t, df) = t != nil and t.delayFunc == df
func (*ztimer.TimerScheduler).CreateTimerAt (ts, df, ns) -> (id, e)
  property C17
  option noframe
  requires ts != nil and ts.tw != nil
  atomic ts
  modifies ts.IDGen
  oncall[as-asked] (*ztimer.TimeWheel).AddTimer (w, k, t): w == ts.tw and t != nil and t.delayFunc == df and t.unixts == tdiv(ns) and k == old(ts.IDGen) + 1 - (2**32 if old(ts.IDGen) == 2**32 - 1 else 0)
  ensures[new-id] id == ts.IDGen and ts.IDGen == old(ts.IDGen) + 1 - (2**32 if old(ts.IDGen) == 2**32 - 1 else 0)
  ensures[added-once] ntrace() == 1 and ev(0, "below", ts.tw, id, ...)
func (*ztimer.TimerScheduler).CreateTimerAfter (ts, df, d) -> (id, e)
  property C17
  option noframe
  requires ts != nil and ts.tw != nil
  atomic ts
  modifies ts.IDGen, ghost 0.clock
  oncall[as-asked] (*ztimer.TimeWheel).AddTimer (w, k, t): w == ts.tw and t != nil and t.delayFunc == df and t.unixts == tdiv(gh(0, "clock") + d if gh(0, "clock") + d < 2**63 else 2**63 - 1) and k == old(ts.IDGen) + 1 - (2**32 if old(ts.IDGen) == 2**32 - 1 else 0)
  ensures[new-id] id == ts.IDGen and ts.IDGen == old(ts.IDGen) + 1 - (2**32 if old(ts.IDGen) == 2**32 - 1 else 0)
  ensures[added-once] ntrace() == 1 and ev(0, "below", ts.tw, id, ...)
def wheelof(i) = ptr(evarg(i, 0), "*ztimer.TimeWheel")
func (*ztimer.TimerScheduler).CancelTimer (ts, id)
  property C17
  option noframe
  requires ts != nil
  atomic ts
  modifies anymap map[uint32]*ztimer.Timer
  template[down] (x: *ztimer.TimeWheel): ntrace() >= 0 and x == (ts.tw if ntrace() == 0 else wheelof(ntrace() - 1).nextTimeWheel)
  oncall[every-wheel] (*ztimer.TimeWheel).RemoveTimer (w, k): k == id and w == (ts.tw if ntrace() == 0 else wheelof(ntrace() - 1).nextTimeWheel)
  ensures[to-the-last] implies(ntrace() == 0, ts.tw == nil) and implies(ntrace() > 0, wheelof(ntrace() - 1).nextTimeWheel == nil)
functype func(...interface{}) (f, a)
  trusted a user callback: recorded as an event, may panic
  raises
  event call(f)
func reflect.TypeOf (x) -> (t)
  trusted the type of a function value that is not nil
  pure
  ensures t != nil and t.pay != 0
iface reflect.Type.Name (t) -> (s)
  trusted a name
  pure
func (*ztimer.DelayFunc).Call (df)
  property C17
  option noframe
  requires df != nil and df.f != nil
  oncall[its-function] func(...interface{}) (f, a): f == df.f and a == df.args and ntrace() == 0
  ensures[called] True
def tcur = ptr(gh(0, "cur"), "map[uint32]*ztimer.Timer")
def tnxt = ptr(gh(0, "nxt"), "map[uint32]*ztimer.Timer")
def homed(w, k) = gh(k, "home") == -1 or (0 <= gh(k, "home") < w.scales and k in Q(w, gh(k, "home")))
func (*ztimer.TimeWheel).run (w)
  property C17
  option noframe noreturn
  requires w != nil
  requires 0 < w.interval < 2**33 and w.scales > 1
  template[turning] (x: any *ztimer.TimeWheel): x == w and held(w) and shape(w) and slots(w) and forall(lambda i, k: implies(0 <= i < w.scales and k in w.timerQueue[i], w.timerQueue[i][k] != nil and -2**45 < w.timerQueue[i][k].unixts < 2**45), "int", "uint32")
  template[detached] (m: any map[uint32]*ztimer.Timer): forall(lambda k: implies(k in m, m[k] != nil and -2**45 < m[k].unixts < 2**45), "uint32") and forall(lambda i: implies(0 <= i < w.scales, w.timerQueue[i] != m), "int")
  template[first] (x: any *ztimer.TimeWheel): x == w and tnxt == Q(w, gmod(w.curIndex + 1, w.scales)) and forall(lambda k: implies(k in tcur and visited(k), homed(w, k)), "uint32")
  template[second] (x: any *ztimer.TimeWheel): x == w and forall(lambda k: implies((k in tcur and k not in tnxt) or (k in tnxt and visited(k)), homed(w, k)), "uint32")
  ghoston lock (x): 0.cur := ref(Q(w, w.curIndex))
  ghoston lock (x): 0.nxt := ref(Q(w, gmod(w.curIndex + 1, w.scales)))
  oncall[under-lock] (*ztimer.TimeWheel).addTimer (x, k, t, f): held(w) and x == w and f
  oncall[none-lost] unlock (x): forall(lambda k: implies(k in tcur or k in tnxt, homed(w, k)), "uint32")
  oncall[a-tick] time.Sleep (d): d == w.interval * 1000000
  modifies anymap map[uint32]*ztimer.Timer, anymap map[int]map[uint32]*ztimer.Timer, w.curIndex, ghost 0.clock, anyghost home, trace
