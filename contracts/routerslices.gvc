# Function-style routes: handler lists and their execution.
devirt ziface.IMessage -> *zpack.Message
devirt ziface.IRequest -> *znet.Request
devirt ziface.IRouterSlices -> *znet.RouterSlices
def R(q) = ptr(q.pay, "*znet.Request")
def idof(r) = ptr(r.msg.pay, "*zpack.Message").ID
def live(r) = r.index >= -1 and r.index < 2**40 and (r.index >= len(r.handlers) or gh(0, "started") == r.index + 1)
def finished(r) = r.index >= len(r.handlers) and (gh(0, "aborted") == 1 or gh(0, "started") == len(r.handlers))
functype ziface.RouterHandler (f, q)
  trusted a user handler may return, run the rest itself (RouterSlicesNext), abort or panic
  requires gh(0, "aborted") == 0 and gh(0, "started") == R(q).index and gh(0, "put") == 0
  modifies R(q).index, R(q).icResp, R(q).keys, ghost 0.started, ghost 0.aborted, ghost 0.panicked
  ensures (R(q).index == old(R(q).index) and gh(0, "started") == old(R(q).index) + 1 and gh(0, "aborted") == 0) or finished(R(q))
  ensures R(q).index >= 0 and R(q).index < 2**40 and gh(0, "panicked") == old(gh(0, "panicked")) and 0 <= gh(0, "aborted") <= 1
  onpanic gh(0, "panicked") == 1
  event handler(fnid(f))
func (*sync.Pool).Put (p, x)
  trusted counted: a recycled request may be given to somebody else from here on
  modifies ghost 0.put
  ensures gh(0, "put") == old(gh(0, "put")) + 1
func (*znet.Request).BindRouterSlices (r, hs)
  property C08
  inline
  requires r != nil
  modifies r.handlers
  ensures[bound] r.handlers == hs
func (*znet.Request).Abort (r)
  property C08
  requires r != nil and glob("zconf.GlobalObject") != nil and r.index < 2**40 and len(r.handlers) < 2**40
  modifies r.steps, r.index
  ensures[rest-skipped] implies(glob("zconf.GlobalObject").RouterSlicesMode, r.index >= len(r.handlers) and r.steps == old(r.steps))
func (*znet.Request).RouterSlicesNext (r)
  property C08
  inline
  option noframe
  requires r != nil and live(r) and len(r.handlers) < 2**40 and gh(0, "put") == 0 and gh(0, "panicked") == 0 and (gh(0, "aborted") == 0 or (gh(0, "aborted") == 1 and r.index >= len(r.handlers)))
  requires forall(lambda i: implies(0 <= i < len(r.handlers), r.handlers[i] != nil))
  oncall[next-handler] ziface.RouterHandler (f, q): q.pay == ref(r) and 0 <= r.index < len(r.handlers) and fnid(f) == fnid(r.handlers[r.index]) and gh(0, "started") == r.index and gh(0, "aborted") == 0 and gh(0, "panicked") == 0
  template[progress] (): 0 <= r.index <= 2**40 and gh(0, "panicked") == 0 and (r.index >= len(r.handlers) or (gh(0, "started") == r.index and gh(0, "aborted") == 0))
  template[finish] (): implies(r.index >= len(r.handlers) and old(r.index) < len(r.handlers), gh(0, "aborted") == 1 or gh(0, "started") == len(r.handlers))
  template[nothing] (): implies(old(r.index) >= len(r.handlers), ntrace() == 0 and r.index >= len(r.handlers))
  onpanic[handler] gh(0, "panicked") == 1
  ensures[rest-run] implies(old(r.index) < old(len(r.handlers)), finished(r))
  ensures[nothing-left] implies(old(r.index) >= old(len(r.handlers)), ntrace() == 0)
func (*znet.MsgHandle).doMsgHandlerSlices (mh, q, w)
  property C08
  option noframe
  requires mh != nil and mh.RouterSlices != nil and glob("zconf.GlobalObject") != nil and glob("znet.RequestPool") != nil and typeis(q, "*znet.Request") and q.pay != 0 and R(q).msg != nil and R(q).msg.pay != 0
  requires R(q).index == -1 and gh(0, "started") == 0 and gh(0, "aborted") == 0 and gh(0, "put") == 0 and gh(0, "panicked") == 0
  requires implies(idof(R(q)) in mh.RouterSlices.Apis, len(mh.RouterSlices.Apis[idof(R(q))]) < 2**40 and forall(lambda i: implies(0 <= i < len(mh.RouterSlices.Apis[idof(R(q))]), mh.RouterSlices.Apis[idof(R(q))][i] != nil)))
  oncall[its-handlers] ziface.RouterHandler (f, p): p.pay == q.pay and old(idof(R(q)) in mh.RouterSlices.Apis) and 0 <= R(q).index < old(len(mh.RouterSlices.Apis[idof(R(q))])) and fnid(f) == fnid(mh.RouterSlices.Apis[idof(R(q))][R(q).index])
  template[progress] (): 0 <= R(q).index <= 2**40 and gh(0, "panicked") == 0 and (R(q).index >= len(R(q).handlers) or (gh(0, "started") == R(q).index and gh(0, "aborted") == 0))
  template[finish] (): implies(R(q).index >= len(R(q).handlers), gh(0, "aborted") == 1 or gh(0, "started") == len(R(q).handlers))
  ensures[all-run] implies(old(idof(R(q)) in mh.RouterSlices.Apis) and gh(0, "panicked") == 0, gh(0, "aborted") == 1 or gh(0, "started") == old(len(mh.RouterSlices.Apis[idof(R(q))])))
  ensures[unknown-id] implies(not old(idof(R(q)) in mh.RouterSlices.Apis), ntrace() == 0)
  ensures[recycled-once] gh(0, "put") <= 1
def small(s) = len(s) < 2**40
def othersame(r, id) = forall(lambda k: implies(k != id, iff(k in r.Apis, old(k in r.Apis)) and implies(k in r.Apis, r.Apis[k] == old(r.Apis[k]))))
def nil0(x) = fresh(x) or cap(x) == 0
func znet.NewRouterSlices () -> (r)
  property C08
  ensures[empty] fresh(r) and fresh(r.Apis) and len(r.Apis) == 0 and len(r.Handlers) == 0 and forall(lambda k: k not in r.Apis)
func (*znet.RouterSlices).Use (r, hs)
  property C08
  inline
  requires r != nil and small(r.Handlers) and small(hs)
  modifies r.Handlers, elems(r.Handlers)
  ensures[appended] len(r.Handlers) == old(len(r.Handlers)) + len(hs) and seqeq(r.Handlers, old(len(r.Handlers)), old(snap(hs)), 0, len(hs))
  ensures[kept] seqeq(r.Handlers, 0, old(snap(r.Handlers)), 0, old(len(r.Handlers)))
func (*znet.RouterSlices).AddHandler (r, id, hs)
  property C08
  inline
  requires r != nil and r.Apis != nil and small(r.Handlers) and small(hs)
  modifies map(r.Apis)
  panics id in r.Apis
  ensures[list] id in r.Apis and len(r.Apis[id]) == len(r.Handlers) + len(hs)
  ensures[global-first] seqeq(r.Apis[id], 0, r.Handlers, 0, len(r.Handlers))
  ensures[own-after] seqeq(r.Apis[id], len(r.Handlers), hs, 0, len(hs))
  ensures[own-copy] nil0(r.Apis[id])
  ensures[others] othersame(r, id)
  onpanic[first-kept] r.Apis[id] == old(r.Apis[id]) and othersame(r, id)
func (*znet.RouterSlices).GetHandlers (r, id) -> (hs, ok)
  property C08
  inline
  requires r != nil
  ensures[exact] iff(ok, id in r.Apis) and implies(ok, hs == r.Apis[id]) and implies(not ok, len(hs) == 0)
func znet.NewGroup (start, end, router, hs) -> (g)
  property C08
  inline
  requires small(hs)
  ensures[fields] fresh(g) and g.start == start and g.end == end and typeis(g.router, "*znet.RouterSlices") and g.router.pay == ref(router)
  ensures[handlers] len(g.Handlers) == len(hs) and seqeq(g.Handlers, 0, hs, 0, len(hs)) and nil0(g.Handlers)
func (*znet.RouterSlices).Group (r, start, end, hs) -> (g)
  property C08
  requires r != nil and small(hs)
  ensures[fields] typeis(g, "*znet.GroupRouter") and fresh(g) and g.start == start and g.end == end and typeis(g.router, "*znet.RouterSlices") and g.router.pay == ref(r)
  ensures[handlers] len(g.Handlers) == len(hs) and seqeq(g.Handlers, 0, hs, 0, len(hs)) and nil0(g.Handlers)
func (*znet.GroupRouter).Use (g, hs)
  property C08
  requires g != nil and small(g.Handlers) and small(hs)
  modifies g.Handlers, elems(g.Handlers)
  ensures[appended] len(g.Handlers) == old(len(g.Handlers)) + len(hs) and seqeq(g.Handlers, old(len(g.Handlers)), old(snap(hs)), 0, len(hs))
  ensures[kept] seqeq(g.Handlers, 0, old(snap(g.Handlers)), 0, old(len(g.Handlers)))
def rt(g) = ptr(g.router.pay, "*znet.RouterSlices")
func (*znet.GroupRouter).AddHandler (g, id, hs)
  property C08
  requires g != nil and typeis(g.router, "*znet.RouterSlices") and g.router.pay != 0 and rt(g).Apis != nil and small(rt(g).Handlers) and small(g.Handlers) and small(hs)
  modifies map(rt(g).Apis)
  panics id < g.start or id > g.end or id in rt(g).Apis
  ensures[list] id in rt(g).Apis and len(rt(g).Apis[id]) == len(rt(g).Handlers) + len(g.Handlers) + len(hs)
  ensures[global-first] seqeq(rt(g).Apis[id], 0, rt(g).Handlers, 0, len(rt(g).Handlers))
  ensures[group-then] seqeq(rt(g).Apis[id], len(rt(g).Handlers), g.Handlers, 0, len(g.Handlers))
  ensures[own-after] seqeq(rt(g).Apis[id], len(rt(g).Handlers) + len(g.Handlers), hs, 0, len(hs))
  ensures[own-copy] nil0(rt(g).Apis[id])
  ensures[others] othersame(rt(g), id)
  onpanic[nothing-changed] iff(id in rt(g).Apis, old(id in rt(g).Apis)) and implies(id in rt(g).Apis, rt(g).Apis[id] == old(rt(g).Apis[id])) and othersame(rt(g), id)
func (*znet.MsgHandle).AddRouterSlices (mh, id, hs) -> (x)
  property C08
  requires mh != nil and mh.RouterSlices != nil and mh.RouterSlices.Apis != nil and small(mh.RouterSlices.Handlers) and small(hs)
  modifies map(mh.RouterSlices.Apis)
  panics id in mh.RouterSlices.Apis
  ensures[list] id in mh.RouterSlices.Apis and len(mh.RouterSlices.Apis[id]) == len(mh.RouterSlices.Handlers) + len(hs)
  ensures[global-first] seqeq(mh.RouterSlices.Apis[id], 0, mh.RouterSlices.Handlers, 0, len(mh.RouterSlices.Handlers))
  ensures[own-after] seqeq(mh.RouterSlices.Apis[id], len(mh.RouterSlices.Handlers), hs, 0, len(hs))
  ensures[own-copy] nil0(mh.RouterSlices.Apis[id])
  ensures[others] othersame(mh.RouterSlices, id)
func (*znet.MsgHandle).Use (mh, hs) -> (x)
  property C08
  requires mh != nil and mh.RouterSlices != nil and small(mh.RouterSlices.Handlers) and small(hs)
  modifies mh.RouterSlices.Handlers, elems(mh.RouterSlices.Handlers)
  ensures[appended] len(mh.RouterSlices.Handlers) == old(len(mh.RouterSlices.Handlers)) + len(hs) and seqeq(mh.RouterSlices.Handlers, old(len(mh.RouterSlices.Handlers)), old(snap(hs)), 0, len(hs))
  ensures[kept] seqeq(mh.RouterSlices.Handlers, 0, old(snap(mh.RouterSlices.Handlers)), 0, old(len(mh.RouterSlices.Handlers)))
func (*znet.MsgHandle).Group (mh, start, end, hs) -> (g)
  property C08
  requires mh != nil and small(hs)
  ensures[fields] typeis(g, "*znet.GroupRouter") and fresh(g) and g.start == start and g.end == end and typeis(g.router, "*znet.RouterSlices") and g.router.pay == ref(mh.RouterSlices)
  ensures[handlers] len(g.Handlers) == len(hs) and seqeq(g.Handlers, 0, hs, 0, len(hs)) and nil0(g.Handlers)
