# Start to end of a connection. Counters live on object 0; hooks are counted per function.
def G = glob("zconf.GlobalObject")
functype func(ziface.IConnection) (f, c)
  trusted a connection hook: counted, even when it panics; it does not replace the connection's own fields
  modifies ghost fnid(f).called
  ensures gh(fnid(f), "called") == old(gh(fnid(f), "called")) + 1
  onpanic gh(fnid(f), "called") == old(gh(fnid(f), "called")) + 1
func context.WithCancel (p) -> (x, f)
  trusted a context of its own and the function that ends it
  requires p != nil
  ensures x != nil and fresh(x) and f != nil and gh(fnid(f), "ctx") == x.pay
func context.Background () -> (x)
  trusted
  pure
  ensures x != nil
functype context.CancelFunc (f)
  trusted cancels its context
  modifies ghost gh(fnid(f), "ctx").done
  ensures gh(gh(fnid(f), "ctx"), "done") == 1
  event cancel(fnid(f))
iface ziface.IHeartbeatChecker.Start (h)
  trusted C14; counted
  modifies ghost 0.hbstart
  ensures gh(0, "hbstart") == old(gh(0, "hbstart")) + 1
iface ziface.IHeartbeatChecker.Stop (h)
  trusted C14; counted
  modifies ghost 0.hbstop
  ensures gh(0, "hbstop") == old(gh(0, "hbstop")) + 1
iface ziface.IConnManager.Remove (m, c)
  trusted C11; counted
  modifies ghost 0.removed
  ensures gh(0, "removed") == old(gh(0, "removed")) + 1
iface net.Conn.Close (c) -> (e)
  trusted closes the socket; counted
  modifies ghost 0.closes
  ensures gh(0, "closes") == old(gh(0, "closes")) + 1
func (*github.com/xtaci/kcp-go.UDPSession).Close (c) -> (e)
  trusted closes the session; counted
  modifies ghost 0.closes
  ensures gh(0, "closes") == old(gh(0, "closes")) + 1
func (*github.com/gorilla/websocket.Conn).Close (c) -> (e)
  trusted closes the socket; counted
  modifies ghost 0.closes
  ensures gh(0, "closes") == old(gh(0, "closes")) + 1
func znet.useWorker (c) -> (w)
  trusted C10; counted
  modifies ghost 0.used, ghost 0.worker
  ensures gh(0, "used") == old(gh(0, "used")) + 1 and gh(0, "worker") == w
func znet.freeWorker (c)
  trusted C10; counted
  modifies ghost 0.freed
  ensures gh(0, "freed") == old(gh(0, "freed")) + 1
func (*znet.callbacks).Invoke (t)
  trusted runs every registered callback (C19); one may panic; counted
  modifies ghost 0.invoked
  ensures gh(0, "invoked") == old(gh(0, "invoked")) + 1
  onpanic gh(0, "invoked") == old(gh(0, "invoked")) + 1
def fresh0(c) = gh(0, "hbstart") == 0 and gh(0, "hbstop") == 0 and gh(0, "removed") == 0 and gh(0, "closes") == 0 and gh(0, "used") == 0 and gh(0, "freed") == 0 and gh(0, "invoked") == 0 and gh(fnid(c.onConnStart), "called") == 0 and gh(fnid(c.onConnStop), "called") == 0 and implies(c.onConnStart != nil, fnid(c.onConnStart) != fnid(c.onConnStop))
func (*znet.Connection).Start (c)
  property C12
  option noframe rungo
  requires c != nil and c.conn != nil and fresh0(c)
  oncall[hook-first] go:(*znet.Connection).StartReader (r): ref(r) == ref(c) and implies(c.onConnStart != nil, gh(fnid(c.onConnStart), "called") == 1)
  oncall[worker-first] go:(*znet.Connection).StartReader (r): gh(0, "used") == 1 and c.workerID == gh(0, "worker") and gh(0, "freed") == 0
  oncall[hook-arg] func(ziface.IConnection) (f, x): typeis(x, "*znet.Connection") and x.pay == ref(c)
  oncall[removes-itself] ziface.IConnManager.Remove (m, x): m == c.connManager and typeis(x, "*znet.Connection") and x.pay == ref(c)
  oncall[its-heartbeat] ziface.IHeartbeatChecker.Stop (h): h == c.hc
  ensures[start-hook-once] implies(c.onConnStart != nil, gh(fnid(c.onConnStart), "called") == 1)
  ensures[stop-hook-once] implies(c.onConnStop != nil, gh(fnid(c.onConnStop), "called") == 1)
  ensures[heartbeat-stopped] implies(c.hc != nil, gh(0, "hbstart") == 1 and gh(0, "hbstop") == 1)
  ensures[socket-closed] gh(0, "closes") >= 1
  ensures[unmanaged] implies(c.connManager != nil, gh(0, "removed") == 1)
  ensures[callbacks-run] gh(0, "invoked") == 1
  ensures[worker-returned] gh(0, "used") == 1 and gh(0, "freed") == 1
func (*znet.Connection).Stop (c)
  property C12
  inline
  requires c != nil and c.conn != nil
  modifies trace, ghost gh(fnid(c.cancel), "ctx").done, ghost 0.closes
  ensures[cancels] implies(c.cancel != nil, ntrace() == 1 and ev(0, "cancel", fnid(c.cancel)))
  ensures[not-started] implies(c.cancel == nil, gh(0, "closes") == old(gh(0, "closes")) + 1)
func (*znet.WsConnection).Start (c)
  property C12
  option noframe rungo
  requires c != nil and c.conn != nil and not c.isClosed and fresh0(c)
  oncall[hook-first] go:(*znet.WsConnection).StartReader (r): ref(r) == ref(c) and implies(c.onConnStart != nil, gh(fnid(c.onConnStart), "called") == 1)
  oncall[worker-first] go:(*znet.WsConnection).StartReader (r): gh(0, "used") == 1 and c.workerID == gh(0, "worker") and gh(0, "freed") == 0
  oncall[hook-arg] func(ziface.IConnection) (f, x): typeis(x, "*znet.WsConnection") and x.pay == ref(c)
  oncall[removes-itself] ziface.IConnManager.Remove (m, x): m == c.connManager and typeis(x, "*znet.WsConnection") and x.pay == ref(c)
  oncall[its-heartbeat] ziface.IHeartbeatChecker.Stop (h): h == c.hc
  ensures[start-hook-once] implies(c.onConnStart != nil, gh(fnid(c.onConnStart), "called") == 1)
  ensures[stop-hook-once] implies(c.onConnStop != nil, gh(fnid(c.onConnStop), "called") == 1)
  ensures[heartbeat-stopped] implies(c.hc != nil, gh(0, "hbstart") == 1 and gh(0, "hbstop") == 1)
  ensures[socket-closed] gh(0, "closes") >= 1
  ensures[unmanaged] implies(c.connManager != nil, gh(0, "removed") == 1)
  ensures[callbacks-run] gh(0, "invoked") == 1
  ensures[worker-returned] gh(0, "used") == 1 and gh(0, "freed") == 1
  ensures[reports-closed] c.isClosed
func (*znet.WsConnection).Stop (c)
  property C12
  inline
  requires c != nil and c.conn != nil
  modifies trace, ghost gh(fnid(c.cancel), "ctx").done, ghost 0.closes
  ensures[cancels] implies(c.cancel != nil, ntrace() == 1 and ev(0, "cancel", fnid(c.cancel)))
  ensures[not-started] implies(c.cancel == nil, gh(0, "closes") == old(gh(0, "closes")) + 1)
func (*znet.KcpConnection).Start (c)
  property C12
  option noframe rungo
  requires c != nil and c.conn != nil and c.closed == 0 and fresh0(c)
  oncall[hook-first] go:(*znet.KcpConnection).StartReader (r): ref(r) == ref(c) and implies(c.onConnStart != nil, gh(fnid(c.onConnStart), "called") == 1)
  oncall[worker-first] go:(*znet.KcpConnection).StartReader (r): gh(0, "used") == 1 and c.workerID == gh(0, "worker") and gh(0, "freed") == 0
  oncall[hook-arg] func(ziface.IConnection) (f, x): typeis(x, "*znet.KcpConnection") and x.pay == ref(c)
  oncall[removes-itself] ziface.IConnManager.Remove (m, x): m == c.connManager and typeis(x, "*znet.KcpConnection") and x.pay == ref(c)
  oncall[its-heartbeat] ziface.IHeartbeatChecker.Stop (h): h == c.hc
  ensures[start-hook-once] implies(c.onConnStart != nil, gh(fnid(c.onConnStart), "called") == 1)
  ensures[stop-hook-once] implies(c.onConnStop != nil, gh(fnid(c.onConnStop), "called") == 1)
  ensures[heartbeat-stopped] implies(c.hc != nil, gh(0, "hbstart") == 1 and gh(0, "hbstop") == 1)
  ensures[socket-closed] gh(0, "closes") >= 1
  ensures[unmanaged] implies(c.connManager != nil, gh(0, "removed") == 1)
  ensures[callbacks-run] gh(0, "invoked") == 1
  ensures[worker-returned] gh(0, "used") == 1 and gh(0, "freed") == 1
  ensures[reports-closed] c.closed == 1
func (*znet.KcpConnection).Stop (c)
  property C12
  inline
  requires c != nil and c.conn != nil
  modifies trace, ghost gh(fnid(c.cancel), "ctx").done, ghost 0.closes
  ensures[cancels] implies(c.cancel != nil, ntrace() == 1 and ev(0, "cancel", fnid(c.cancel)))
  ensures[not-started] implies(c.cancel == nil, gh(0, "closes") == old(gh(0, "closes")) + 1)
