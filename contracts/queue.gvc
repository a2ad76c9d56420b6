# From the reader to the worker: every frame is queued once, every queued request is handled once, in order.
iface ziface.IRequest.GetConnection (q) -> (c)
  trusted the connection given to the request when it was made (proved below for both kinds of request)
  pure
  ensures c != nil and ref(c) == gh(q, "conn")
iface ziface.IRequest.GetData (q) -> (d)
  trusted only used for a debug message
  pure
iface ziface.IConnection.GetWorkerID (c) -> (w)
  trusted the worker stored when the connection was started
  pure
  ensures w == gh(c, "worker")
def G = glob("zconf.GlobalObject")
func (*znet.Request).GetConnection (r) -> (c)
  property C09
  requires r != nil
  ensures[its-connection] c == r.conn
func (*znet.RequestFunc).GetConnection (r) -> (c)
  property C09
  requires r != nil
  ensures[its-connection] c == r.conn
func znet.NewFuncRequest (conn, f) -> (r)
  property C09
  ensures[task] typeis(r, "*znet.RequestFunc") and fresh(r) and r.conn == conn and fnid(r.callFunc) == fnid(f)
functype func() (f)
  trusted a task may do anything except touch the queue machinery; it may panic
  modifies ghost 0.ran
  ensures gh(0, "ran") == old(gh(0, "ran")) + 1
  onpanic gh(0, "ran") == old(gh(0, "ran")) + 1
func (*znet.RequestFunc).CallFunc (r)
  property C09
  option noframe
  requires r != nil and gh(0, "ran") == 0
  modifies ghost 0.ran
  oncall[the-task] func() (f): fnid(f) == fnid(r.callFunc)
  ensures[once] gh(0, "ran") == (0 if r.callFunc == nil else 1)
  onpanic[task] gh(0, "ran") == 1
func (*znet.MsgHandle).SendMsgToTaskQueue (m, q)
  property C09
  requires m != nil and q != nil and 0 <= gh(gh(q, "conn"), "worker") < len(m.TaskQueue)
  modifies trace
  ensures[queued-once] ntrace() == 1 and ev(0, "send", m.TaskQueue[gh(gh(q, "conn"), "worker")])
  ensures[that-request] evarg(0, 1) == q.pay and evarg(0, 2) == q.tag
iface ziface.IFuncRequest.CallFunc (q)
  trusted the task itself: counted; it may panic
  modifies ghost 0.ran
  ensures gh(0, "ran") == old(gh(0, "ran")) + 1
  onpanic gh(0, "ran") == old(gh(0, "ran")) + 1
  event task(q)
func (*znet.MsgHandle).doFuncHandler (m, q, w)
  property C09
  requires m != nil and q != nil
  modifies ghost 0.ran, trace
  oncall[that-task] ziface.IFuncRequest.CallFunc (p): p == q
  ensures[once] gh(0, "ran") == old(gh(0, "ran")) + 1
iface ziface.IChain.Request (c) -> (r)
  trusted the request of a chain is fixed when it is made (proved in C06)
  pure
  ensures r.tag == gh(c, "reqtag") and r.pay == gh(c, "reqpay") and iff(implements(r, "ziface.IRequest"), gh(c, "isreq") == 1)
iface ziface.IChain.Proceed (c, r) -> (x)
  trusted runs the rest of the chain (proved in C06); recorded as an event
  event proceed(r, r.tag)
def CR(c, q) = q.pay == gh(c, "reqpay") and q.tag == gh(c, "reqtag")
func (*znet.MsgHandle).Intercept (m, c) -> (x)
  property C09
  requires m != nil and c != nil and G != nil
  requires gh(c, "reqpay") != 0 and implies(m.WorkerPoolSize > 0, 0 <= gh(gh(gh(c, "reqpay"), "conn"), "worker") < len(m.TaskQueue))
  modifies trace
  oncall[handled] go:(*znet.MsgHandle).doMsgHandler (h, q, w): ref(h) == ref(m) and CR(c, q) and m.WorkerPoolSize == 0 and not G.RouterSlicesMode
  oncall[handled-slices] go:(*znet.MsgHandle).doMsgHandlerSlices (h, q, w): ref(h) == ref(m) and CR(c, q) and m.WorkerPoolSize == 0 and G.RouterSlicesMode
  ensures[other] implies(gh(c, "isreq") != 1, ntrace() == 1 and ev(0, "proceed"))
  ensures[queued-once] implies(gh(c, "isreq") == 1 and m.WorkerPoolSize > 0, ntrace() == 2 and ev(0, "send", m.TaskQueue[gh(gh(gh(c, "reqpay"), "conn"), "worker")]) and evarg(0, 1) == gh(c, "reqpay") and evarg(0, 2) == gh(c, "reqtag"))
  ensures[once-without-pool] implies(gh(c, "isreq") == 1 and m.WorkerPoolSize == 0, ntrace() == 2 and (ev(0, "go:(*znet.MsgHandle).doMsgHandlerSlices") if G.RouterSlicesMode else ev(0, "go:(*znet.MsgHandle).doMsgHandler")))
  ensures[rest-of-chain] ev(ntrace() - 1, "proceed") and evarg(ntrace() - 1, 0) == gh(c, "reqpay")
func (*znet.MsgHandle).doMsgHandler (m, q, w)
  trusted runs the router of the message and never panics (proved in C07); counted here
  modifies ghost 0.handled
  ensures gh(0, "handled") == old(gh(0, "handled")) + 1
func (*znet.MsgHandle).doMsgHandlerSlices (m, q, w)
  trusted runs the handlers of the message and never panics (proved in C08); counted here
  modifies ghost 0.handled
  ensures gh(0, "handled") == old(gh(0, "handled")) + 1
func (*znet.MsgHandle).StartOneWorker (m, w, queue)
  property C09
  requires m != nil and G != nil and chanlen(queue) >= 0 and nrecv(queue) == 0 and gh(0, "ran") == 0 and gh(0, "handled") == 0
  requires forall(lambda i: implies(0 <= i < chanlen(queue), implements(chanat(queue, i), "ziface.IRequest")))
  modifies ghost 0.ran, ghost 0.handled, trace
  oncall[next-task] (*znet.MsgHandle).doFuncHandler (h, q, x): ref(h) == ref(m) and q == chanat(queue, nrecv(queue) - 1) and gh(0, "ran") + gh(0, "handled") == nrecv(queue) - 1
  oncall[next-message] (*znet.MsgHandle).doMsgHandler (h, q, x): ref(h) == ref(m) and not G.RouterSlicesMode and q == chanat(queue, nrecv(queue) - 1) and gh(0, "ran") + gh(0, "handled") == nrecv(queue) - 1
  oncall[next-message-slices] (*znet.MsgHandle).doMsgHandlerSlices (h, q, x): ref(h) == ref(m) and G.RouterSlicesMode and q == chanat(queue, nrecv(queue) - 1) and gh(0, "ran") + gh(0, "handled") == nrecv(queue) - 1
  template[each-once] (): gh(0, "ran") + gh(0, "handled") == nrecv(queue) and 0 <= nrecv(queue) <= chanlen(queue)
  ensures[all-handled] gh(0, "ran") + gh(0, "handled") == chanlen(queue)
# readers
devirt ziface.IMessage -> *zpack.Message
iface net.Conn.RemoteAddr (c) -> (a)
  trusted a connection has an address
  pure
  ensures a != nil
func (*github.com/xtaci/kcp-go.UDPSession).RemoteAddr (c) -> (a)
  trusted as net.Conn.RemoteAddr
  pure
  ensures a != nil
func (*github.com/gorilla/websocket.Conn).RemoteAddr (c) -> (a)
  trusted as net.Conn.RemoteAddr
  pure
  ensures a != nil
# what was read or decoded and not handed on yet: items next..nfr; new_given marks memory that was handed on
def pending = gh(0, "next") == 0 and gh(0, "nfr") == 1
def refreshed(c) = implies(c.hc != nil and gh(0, "got") == 1, c.lastActivityTime.wall >= gh(0, "readclock"))
def nothing = gh(0, "next") == gh(0, "nfr")
def item(i, b) = ref(b) == gh(i, "fref") and off(b) == gh(i, "foff") and len(b) == gh(i, "flen")
iface net.Conn.Read (c, p) -> (n, err)
  trusted reads at most len(p) bytes into p, which nobody else may hold; asked for only when everything read before went on
  requires nothing and gh(ref(p), "new_given") == 0
  modifies elems(p), ghost 0.next, ghost 0.nfr, ghost 0.fref, ghost 0.foff, ghost 0.flen, ghost 0.clock, ghost 0.readclock, ghost 0.got
  ensures gh(0, "clock") >= old(gh(0, "clock")) and gh(0, "readclock") == gh(0, "clock") and gh(0, "got") == (1 if n > 0 else 0)
  ensures 0 <= n <= len(p) and pending and gh(0, "flen") == n and gh(0, "fref") == ref(p) and gh(0, "foff") == off(p)
func (*github.com/xtaci/kcp-go.UDPSession).Read (c, p) -> (n, err)
  trusted as net.Conn.Read
  requires nothing and gh(ref(p), "new_given") == 0
  modifies elems(p), ghost 0.next, ghost 0.nfr, ghost 0.fref, ghost 0.foff, ghost 0.flen, ghost 0.clock, ghost 0.readclock, ghost 0.got
  ensures gh(0, "clock") >= old(gh(0, "clock")) and gh(0, "readclock") == gh(0, "clock") and gh(0, "got") == (1 if n > 0 else 0)
  ensures 0 <= n <= len(p) and pending and gh(0, "flen") == n and gh(0, "fref") == ref(p) and gh(0, "foff") == off(p)
func (*github.com/gorilla/websocket.Conn).ReadMessage (c) -> (k, p, err)
  trusted returns one message in a buffer of its own; a ping (type 9) is not data
  requires nothing
  modifies ghost 0.next, ghost 0.nfr, ghost 0.fref, ghost 0.foff, ghost 0.flen, ghost 0.clock, ghost 0.readclock, ghost 0.got
  ensures gh(0, "clock") >= old(gh(0, "clock")) and gh(0, "readclock") == gh(0, "clock") and gh(0, "got") == (1 if len(p) > 0 else 0)
  ensures gh(0, "next") == 0 and gh(0, "nfr") == (0 if k == 9 else 1) and item(0, p) and len(p) < 2**32 and gh(ref(p), "new_given") == 0
iface ziface.IFrameDecoder.Decode (d, b) -> (fs)
  trusted the frames completed by these bytes (C02, C03), which it copies
  requires pending and item(0, b)
  modifies ghost 0.next, ghost 0.nfr, anyghost fref, anyghost foff, anyghost flen
  ensures gh(0, "next") == 0 and gh(0, "nfr") == len(fs)
  ensures forall(lambda i: implies(0 <= i < len(fs), item(i, fs[i]) and fresh(fs[i]) and len(fs[i]) < 2**32))
def R(q) = ptr(q.pay, "*znet.Request")
def Msg(q) = ptr(R(q).msg.pay, "*zpack.Message")
def nx = gh(0, "next")
iface ziface.IMsgHandle.Execute (h, q)
  trusted hands the request to the chain (C06, C09 above), which keeps it; it may panic
  requires typeis(q, "*znet.Request") and q.pay != 0 and R(q).msg != nil and R(q).msg.pay != 0
  modifies ghost 0.next, ghost ref(Msg(q).Data).new_given
  ensures gh(0, "next") == old(gh(0, "next")) + 1
  onpanic True
  event execute(q)
functype context.CancelFunc (f)
  trusted cancels the context of the connection
  event cancel(fnid(f))
def request(c, q) = typeis(q, "*znet.Request") and q.pay != 0 and R(q).conn.pay == ref(c) and R(q).msg != nil and R(q).msg.pay != 0 and R(q).steps == 0 and R(q).needNext and R(q).index == -1 and R(q).router == nil
def itsbytes(q) = nx < gh(0, "nfr") and Msg(q).DataLen == gh(nx, "flen") and len(Msg(q).Data) == gh(nx, "flen") and (item(nx, Msg(q).Data) or seqeq(Msg(q).Data, 0, bytesat(gh(nx, "fref"), gh(nx, "foff"), gh(nx, "flen")), 0, gh(nx, "flen")))
func (*znet.Connection).StartReader (c)
  property C09 C12 C14
  option noframe background
  requires c != nil and G != nil and c.conn != nil and c.msgHandler != nil and c.ctx != nil and c.cancel != nil and glob("znet.RequestPool") != nil and gh(0, "got") == 0 and gh(0, "next") == 0 and gh(0, "nfr") == 0 and 0 <= G.IOReadBuffSize < 2**32
  oncall[in-order] ziface.IMsgHandle.Execute (h, q): h == c.msgHandler and request(c, q) and typeis(R(q).conn, "*znet.Connection") and itsbytes(q)
  oncall[activity-noted] ziface.IMsgHandle.Execute (h, q): refreshed(c)
  oncall[activity-noted-anyway] net.Conn.Read (x, p): refreshed(c)
  template[noted] (): refreshed(c)
  template[all-sent] (): nothing
  template[own-buffer] (b: any []byte): gh(ref(b), "new_given") == 0
  template[inner] (i: int, fs: any [][]byte): gh(0, "next") == i and gh(0, "nfr") == len(fs) and forall(lambda j: implies(0 <= j < len(fs), item(j, fs[j]) and len(fs[j]) < 2**32))
  ensures[closes] ev(ntrace() - 1, "cancel", fnid(c.cancel))
func (*znet.KcpConnection).StartReader (c)
  property C09 C12 C14
  option noframe background
  requires c != nil and G != nil and c.conn != nil and c.msgHandler != nil and c.ctx != nil and c.cancel != nil and glob("znet.RequestPool") != nil and gh(0, "got") == 0 and gh(0, "next") == 0 and gh(0, "nfr") == 0 and 0 <= G.IOReadBuffSize < 2**32
  oncall[in-order] ziface.IMsgHandle.Execute (h, q): h == c.msgHandler and request(c, q) and typeis(R(q).conn, "*znet.KcpConnection") and itsbytes(q)
  oncall[activity-noted] ziface.IMsgHandle.Execute (h, q): refreshed(c)
  oncall[activity-noted-anyway] (*github.com/xtaci/kcp-go.UDPSession).Read (x, p): refreshed(c)
  template[noted] (): refreshed(c)
  template[all-sent] (): nothing
  template[own-buffer] (b: any []byte): gh(ref(b), "new_given") == 0
  template[inner] (i: int, fs: any [][]byte): gh(0, "next") == i and gh(0, "nfr") == len(fs) and forall(lambda j: implies(0 <= j < len(fs), item(j, fs[j]) and len(fs[j]) < 2**32))
  ensures[closes] ev(ntrace() - 1, "cancel", fnid(c.cancel))
func (*znet.WsConnection).StartReader (c)
  property C09 C12 C14
  option noframe background
  requires c != nil and G != nil and c.conn != nil and c.msgHandler != nil and c.ctx != nil and c.cancel != nil and glob("znet.RequestPool") != nil and gh(0, "got") == 0 and gh(0, "next") == 0 and gh(0, "nfr") == 0 and 0 <= G.IOReadBuffSize < 2**32
  oncall[in-order] ziface.IMsgHandle.Execute (h, q): h == c.msgHandler and request(c, q) and typeis(R(q).conn, "*znet.WsConnection") and itsbytes(q)
  oncall[activity-noted] ziface.IMsgHandle.Execute (h, q): refreshed(c)
  oncall[activity-noted-anyway] (*github.com/gorilla/websocket.Conn).ReadMessage (x): refreshed(c)
  template[noted] (): refreshed(c)
  template[all-sent] (): nothing
  template[own-buffer] (b: any []byte): gh(ref(b), "new_given") == 0
  template[inner] (i: int, fs: any [][]byte): gh(0, "next") == i and gh(0, "nfr") == len(fs) and forall(lambda j: implies(0 <= j < len(fs), item(j, fs[j]) and len(fs[j]) < 2**32))
  ensures[closes] ev(ntrace() - 1, "cancel", fnid(c.cancel))
