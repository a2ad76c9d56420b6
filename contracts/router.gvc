# Class-style routers: step order, dispatch by message id, registration.
devirt ziface.IMessage -> *zpack.Message
devirt ziface.IRequest -> *znet.Request
def R(q) = ptr(q.pay, "*znet.Request")
def nextof(r) = r.steps if not r.needNext else r.steps + 1
def idof(r) = ptr(r.msg.pay, "*zpack.Message").ID
def step(ro, q, k) = gh(0, "want") == k and gh(0, "put") == 0 and gh(0, "panicked") == 0 and not held(R(q), "stepLock")
iface ziface.IRouter.PreHandle (ro, q)
  trusted a user step handler may do nothing, jump (Goto), abort or panic; it leaves the routing of the request alone otherwise
  modifies R(q).steps, R(q).needNext, R(q).icResp, R(q).keys, ghost 0.want, ghost 0.panicked
  ensures (R(q).steps == old(R(q).steps) and R(q).needNext == old(R(q).needNext)) or (not R(q).needNext and R(q).steps >= 0) or R(q).steps >= 3
  ensures 0 <= R(q).steps < 2**62 and gh(0, "want") == nextof(R(q)) and gh(0, "panicked") == old(gh(0, "panicked"))
  onpanic gh(0, "panicked") == 1
  event step(0)
iface ziface.IRouter.Handle (ro, q)
  trusted as PreHandle
  modifies R(q).steps, R(q).needNext, R(q).icResp, R(q).keys, ghost 0.want, ghost 0.panicked
  ensures (R(q).steps == old(R(q).steps) and R(q).needNext == old(R(q).needNext)) or (not R(q).needNext and R(q).steps >= 0) or R(q).steps >= 3
  ensures 0 <= R(q).steps < 2**62 and gh(0, "want") == nextof(R(q)) and gh(0, "panicked") == old(gh(0, "panicked"))
  onpanic gh(0, "panicked") == 1
  event step(1)
iface ziface.IRouter.PostHandle (ro, q)
  trusted as PreHandle
  modifies R(q).steps, R(q).needNext, R(q).icResp, R(q).keys, ghost 0.want, ghost 0.panicked
  ensures (R(q).steps == old(R(q).steps) and R(q).needNext == old(R(q).needNext)) or (not R(q).needNext and R(q).steps >= 0) or R(q).steps >= 3
  ensures 0 <= R(q).steps < 2**62 and gh(0, "want") == nextof(R(q)) and gh(0, "panicked") == old(gh(0, "panicked"))
  onpanic gh(0, "panicked") == 1
  event step(2)
func (*sync.Pool).Put (p, x)
  trusted counted: a recycled request may be given to somebody else from here on
  modifies ghost 0.put
  ensures gh(0, "put") == old(gh(0, "put")) + 1
func (*znet.Request).BindRouter (r, ro)
  property C07
  inline
  requires r != nil
  modifies r.router
  ensures[bound] r.router == ro
func (*znet.Request).Goto (r, s)
  property C07
  requires r != nil
  modifies r.steps, r.needNext
  ensures[next-is] nextof(r) == s
func (*znet.Request).Abort (r)
  property C07
  requires r != nil and glob("zconf.GlobalObject") != nil
  modifies r.steps, r.index
  ensures[over] implies(not glob("zconf.GlobalObject").RouterSlicesMode, nextof(r) >= 3 and r.index == old(r.index))
  ensures[rest-skipped] implies(glob("zconf.GlobalObject").RouterSlicesMode, r.index >= len(r.handlers) and r.steps == old(r.steps))
func (*znet.Request).Call (r)
  property C07
  inline
  option noframe
  requires r != nil and r.steps == 0 and r.needNext and gh(0, "want") == 0 and gh(0, "put") == 0 and gh(0, "panicked") == 0
  oncall[pre-is-next] ziface.IRouter.PreHandle (ro, q): ro == old(r.router) and q.pay == ref(r) and step(ro, q, 0)
  oncall[handle-is-next] ziface.IRouter.Handle (ro, q): ro == old(r.router) and q.pay == ref(r) and step(ro, q, 1)
  oncall[post-is-next] ziface.IRouter.PostHandle (ro, q): ro == old(r.router) and q.pay == ref(r) and step(ro, q, 2)
  template[next] (): r.steps >= 0 and r.needNext and gh(0, "want") == r.steps and gh(0, "panicked") == 0
  onpanic[handler] gh(0, "panicked") == 1
  ensures[all-steps] implies(old(r.router) != nil, gh(0, "want") >= 3)
  ensures[none] implies(old(r.router) == nil, ntrace() == 0)
  ensures[again] r.steps == 0
func (*znet.MsgHandle).doMsgHandler (mh, q, w)
  property C07
  option noframe
  requires mh != nil and glob("zconf.GlobalObject") != nil and glob("znet.RequestPool") != nil and typeis(q, "*znet.Request") and q.pay != 0 and R(q).msg != nil and R(q).msg.pay != 0
  requires R(q).steps == 0 and R(q).needNext and gh(0, "want") == 0 and gh(0, "put") == 0 and gh(0, "panicked") == 0
  requires forall(lambda k: implies(k in mh.Apis, mh.Apis[k] != nil))
  oncall[its-router-pre] ziface.IRouter.PreHandle (ro, p): old(idof(R(q)) in mh.Apis) and ro == old(mh.Apis[idof(R(q))]) and p.pay == q.pay and step(ro, p, 0)
  oncall[its-router-handle] ziface.IRouter.Handle (ro, p): old(idof(R(q)) in mh.Apis) and ro == old(mh.Apis[idof(R(q))]) and p.pay == q.pay and step(ro, p, 1)
  oncall[its-router-post] ziface.IRouter.PostHandle (ro, p): old(idof(R(q)) in mh.Apis) and ro == old(mh.Apis[idof(R(q))]) and p.pay == q.pay and step(ro, p, 2)
  template[next] (): R(q).steps >= 0 and R(q).needNext and gh(0, "want") == R(q).steps and gh(0, "panicked") == 0
  ensures[all-steps] implies(old(idof(R(q)) in mh.Apis) and gh(0, "panicked") == 0, gh(0, "want") >= 3)
  ensures[unknown-id] implies(not old(idof(R(q)) in mh.Apis), ntrace() == 0)
  ensures[recycled-once] gh(0, "put") <= 1
func (*znet.MsgHandle).AddRouter (mh, id, ro)
  property C07
  requires mh != nil and mh.Apis != nil
  modifies map(mh.Apis)
  panics id in mh.Apis
  ensures[registered] not old(id in mh.Apis) and id in mh.Apis and mh.Apis[id] == ro
  ensures[others] forall(lambda k: implies(k != id, iff(k in mh.Apis, old(k in mh.Apis)) and implies(k in mh.Apis, mh.Apis[k] == old(mh.Apis[k]))))
  onpanic[first-kept] forall(lambda k: iff(k in mh.Apis, old(k in mh.Apis)) and implies(k in mh.Apis, mh.Apis[k] == old(mh.Apis[k])))
