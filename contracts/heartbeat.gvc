# Heartbeats.
devirt ziface.IHeartbeatChecker -> *znet.HeartbeatChecker
def G = glob("zconf.GlobalObject")
iface ziface.IConnection.IsAlive (c) -> (r)
  trusted as proved below for the three transports; counted
  modifies ghost 0.asked
  ensures iff(r, gh(c, "alive") == 1) and gh(0, "asked") == old(gh(0, "asked")) + 1
iface ziface.IConnection.Stop (c)
  trusted recorded
  event stop(c)
iface ziface.IConnection.Start (c)
  trusted recorded
  event start(c)
iface ziface.IConnection.GetConnID (c) -> (n)
  trusted only used for a log line
  pure
iface ziface.IConnection.RemoteAddr (c) -> (a)
  trusted only used for a log line
  pure
iface ziface.IConnection.LocalAddr (c) -> (a)
  trusted only used for a message text
  pure
iface ziface.IConnection.SendMsg (c, id, d) -> (e)
  trusted recorded
  modifies ghost 0.err
  ensures gh(0, "err") == ref(e)
  event sendmsg(c, id)
iface ziface.IConnection.SetHeartBeat (c, h)
  trusted the connection keeps the checker (proved below)
  event sethb(c, h.pay)
functype ziface.HeartBeatMsgFunc (f, c) -> (d)
  trusted makes the text of a heartbeat
  modifies ghost 0.text
  ensures gh(0, "text") == ref(d)
  event make(fnid(f), c)
functype ziface.HeartBeatFunc (f, c) -> (e)
  trusted a user's own heartbeat
  modifies ghost 0.err
  ensures gh(0, "err") == ref(e)
  event beat(fnid(f), c)
functype ziface.OnRemoteNotAlive (f, c)
  trusted a user's reaction to a dead peer
  event dead(fnid(f), c)
func znet.notAliveDefaultFunc (c)
  property C14
  requires c != nil
  modifies trace
  ensures[stopped] ntrace() == 1 and ev(0, "stop", ref(c))
func znet.NewHeartbeatChecker (d) -> (h)
  property C14
  inline
  ensures[defaults] typeis(h, "*znet.HeartbeatChecker") and fresh(h) and h.interval == d and h.msgID == 99999 and h.beatFunc == nil and fnid(h.makeMsg) == func("znet.makeDefaultMsg") and fnid(h.onRemoteNotAlive) == func("znet.notAliveDefaultFunc") and typeis(h.router, "*znet.HeatBeatDefaultRouter") and h.router.pay != 0 and len(h.routerSlices) == 1 and fnid(h.routerSlices[0]) == func("znet.HeatBeatDefaultHandle") and h.conn == nil and h.quitChan != nil
def same(h) = h.interval == old(h.interval) and h.conn == old(h.conn) and h.quitChan == old(h.quitChan)
func (*znet.HeartbeatChecker).SetOnRemoteNotAlive (h, f)
  property C14
  inline
  requires h != nil
  modifies h.onRemoteNotAlive
  ensures[set] fnid(h.onRemoteNotAlive) == (fnid(f) if f != nil else old(fnid(h.onRemoteNotAlive)))
func (*znet.HeartbeatChecker).SetHeartbeatMsgFunc (h, f)
  property C14
  inline
  requires h != nil
  modifies h.makeMsg
  ensures[set] fnid(h.makeMsg) == (fnid(f) if f != nil else old(fnid(h.makeMsg)))
func (*znet.HeartbeatChecker).SetHeartbeatFunc (h, f)
  property C14
  inline
  requires h != nil
  modifies h.beatFunc
  ensures[set] fnid(h.beatFunc) == (fnid(f) if f != nil else old(fnid(h.beatFunc)))
func (*znet.HeartbeatChecker).BindRouter (h, id, r)
  property C14
  inline
  requires h != nil
  modifies h.msgID, h.router
  ensures[bound] implies(r != nil and id != 99999, h.msgID == id and h.router == r)
  ensures[defaults-kept] implies(r == nil or id == 99999, h.msgID == old(h.msgID) and h.router == old(h.router))
func (*znet.HeartbeatChecker).BindRouterSlices (h, id, hs)
  property C14
  inline
  requires h != nil and len(hs) < 2**40 and len(h.routerSlices) < 2**40
  modifies h.msgID, h.routerSlices, elems(h.routerSlices)
  ensures[bound] implies(len(hs) > 0 and id != 99999, h.msgID == id and len(h.routerSlices) >= len(hs) and seqeq(h.routerSlices, len(h.routerSlices) - len(hs), old(snap(hs)), 0, len(hs)))
  ensures[defaults-kept] implies(len(hs) == 0 or id == 99999, h.msgID == old(h.msgID) and h.routerSlices == old(h.routerSlices))
func (*znet.HeartbeatChecker).MsgID (h) -> (r)
  property C14
  inline
  requires h != nil
  ensures[is] r == h.msgID
func (*znet.HeartbeatChecker).Router (h) -> (r)
  property C14
  inline
  requires h != nil
  ensures[is] r == h.router
func (*znet.HeartbeatChecker).RouterSlices (h) -> (r)
  property C14
  inline
  requires h != nil
  ensures[is] len(r) == len(h.routerSlices) and seqeq(r, 0, h.routerSlices, 0, len(r))
func (*znet.HeartbeatChecker).SendHeartBeatMsg (h) -> (err)
  property C14
  inline
  requires h != nil and h.conn != nil and h.makeMsg != nil
  modifies trace, ghost 0.text, ghost 0.err
  oncall[the-text] ziface.IConnection.SendMsg (c, id, d): c == h.conn and id == h.msgID and ref(d) == gh(0, "text")
  ensures[once] ntrace() == 2 and ev(0, "make", fnid(h.makeMsg), ref(h.conn)) and ev(1, "sendmsg", ref(h.conn)) and ref(err) == gh(0, "err")
func (*znet.HeartbeatChecker).check (h) -> (err)
  property C14
  inline
  requires h != nil and h.makeMsg != nil and h.onRemoteNotAlive != nil
  modifies trace, ghost 0.text, ghost 0.err, ghost 0.asked
  oncall[the-text] ziface.IConnection.SendMsg (c, id, d): c == h.conn and id == h.msgID and ref(d) == gh(0, "text")
  ensures[unbound] implies(h.conn == nil, ntrace() == 0)
  ensures[dead-reported] implies(h.conn != nil and gh(h.conn, "alive") != 1, ntrace() == 1 and ev(0, "dead", fnid(h.onRemoteNotAlive), ref(h.conn)))
  ensures[live-pinged] implies(h.conn != nil and gh(h.conn, "alive") == 1 and h.beatFunc == nil, ntrace() == 2 and ev(0, "make", fnid(h.makeMsg), ref(h.conn)) and ev(1, "sendmsg", ref(h.conn)))
  ensures[live-own-ping] implies(h.conn != nil and gh(h.conn, "alive") == 1 and h.beatFunc != nil, ntrace() == 1 and ev(0, "beat", fnid(h.beatFunc), ref(h.conn)))
func (*znet.HeartbeatChecker).Clone (h) -> (k)
  property C14
  inline
  requires h != nil and len(h.routerSlices) < 2**40
  ensures[its-own] typeis(k, "*znet.HeartbeatChecker") and fresh(k) and k.conn == nil and k.quitChan != nil and k.quitChan != h.quitChan
  ensures[same-settings] k.interval == h.interval and fnid(k.makeMsg) == fnid(h.makeMsg) and fnid(k.onRemoteNotAlive) == fnid(h.onRemoteNotAlive) and fnid(k.beatFunc) == fnid(h.beatFunc) and k.msgID == h.msgID and k.router == h.router
  ensures[same-handlers] len(k.routerSlices) == len(h.routerSlices) and seqeq(k.routerSlices, 0, h.routerSlices, 0, len(h.routerSlices))
func (*znet.HeartbeatChecker).BindConn (h, c)
  property C14
  inline
  requires h != nil and c != nil
  modifies h.conn, trace
  ensures[both-ways] h.conn == c and ntrace() == 1 and ev(0, "sethb", ref(c), ref(h))
func time.NewTicker (d) -> (t)
  trusted a ticker with a channel of its own
  requires d > 0
  modifies ghost 0.ticks
  ensures t != nil and t.C == gh(0, "ticks") and nrecv(t.C) == 0 and fresh(t.C)
func (*znet.HeartbeatChecker).start (h)
  property C14
  option noframe
  requires h != nil and h.quitChan > 0 and h.conn != nil and h.interval > 0 and h.makeMsg != nil and h.onRemoteNotAlive != nil and gh(0, "asked") == 0
  oncall[the-text] ziface.IConnection.SendMsg (c, id, d): c == h.conn and id == h.msgID and ref(d) == gh(0, "text") and gh(h.conn, "alive") == 1 and h.beatFunc == nil
  oncall[dead-reported] ziface.OnRemoteNotAlive (f, c): fnid(f) == fnid(h.onRemoteNotAlive) and c == h.conn and gh(h.conn, "alive") != 1
  oncall[own-ping] ziface.HeartBeatFunc (f, c): fnid(f) == fnid(h.beatFunc) and c == h.conn and gh(h.conn, "alive") == 1
  oncall[interval] time.NewTicker (d): d == h.interval
  template[counted] (): gh(0, "asked") >= nrecv(gh(0, "ticks"))
  ensures[every-tick] gh(0, "asked") >= nrecv(gh(0, "ticks"))
func (*znet.HeartbeatChecker).Start (h)
  property C14
  requires h != nil
  modifies trace
  oncall[itself] go:(*znet.HeartbeatChecker).start (k): ref(k) == ref(h)
  ensures[running] ntrace() == 1 and ev(0, "go:(*znet.HeartbeatChecker).start")
func (*znet.HeartbeatChecker).Stop (h)
  property C14
  requires h != nil and h.conn != nil
  modifies trace
  ensures[signalled] ntrace() <= 1 and implies(ntrace() == 1, ev(0, "send", h.quitChan))
def H(s) = ptr(s.hc.pay, "*znet.HeartbeatChecker")
def like(k, h) = k.interval == h.interval and fnid(k.makeMsg) == fnid(h.makeMsg) and fnid(k.onRemoteNotAlive) == fnid(h.onRemoteNotAlive) and fnid(k.beatFunc) == fnid(h.beatFunc) and k.msgID == h.msgID and k.router == h.router and len(k.routerSlices) == len(h.routerSlices)
func (*znet.Server).StartConn (s, c)
  property C14
  requires s != nil and c != nil and implies(s.hc != nil, s.hc.pay != 0 and len(H(s).routerSlices) < 2**40)
  modifies trace
  oncall[own-checker] ziface.IConnection.SetHeartBeat (k, h): k == c and fresh(h) and like(ptr(h.pay, "*znet.HeartbeatChecker"), H(s)) and ptr(h.pay, "*znet.HeartbeatChecker").conn == c
  ensures[checked] implies(s.hc != nil, ntrace() == 2 and ev(0, "sethb", ref(c)) and ev(1, "start", ref(c)))
  ensures[unchecked] implies(s.hc == nil, ntrace() == 1 and ev(0, "start", ref(c)))
def SH(s) = ptr(s.hc.pay, "*znet.HeartbeatChecker")
iface ziface.IMsgHandle.AddRouter (m, id, r)
  trusted C07
  event route(id, r)
iface ziface.IMsgHandle.AddRouterSlices (m, id, hs) -> (x)
  trusted C08
  event slices(id, len(hs))
def O(o) = o
def picked(s, o, d) = fresh(s.hc) and s.hc != nil and SH(s).interval == d and SH(s).conn == nil
def defaults(s) = SH(s).msgID == 99999 and fnid(SH(s).makeMsg) == func("znet.makeDefaultMsg") and fnid(SH(s).onRemoteNotAlive) == func("znet.notAliveDefaultFunc")
def funcs(s, o) = fnid(SH(s).makeMsg) == (fnid(o.MakeMsg) if o.MakeMsg != nil else func("znet.makeDefaultMsg")) and fnid(SH(s).onRemoteNotAlive) == (fnid(o.OnRemoteNotAlive) if o.OnRemoteNotAlive != nil else func("znet.notAliveDefaultFunc"))
def ownid(o) = o.HeartBeatMsgID != 99999
func (*znet.Server).StartHeartBeat (s, d)
  property C14
  requires s != nil and s.msgHandler != nil
  modifies s.hc, trace
  ensures[installed] s.hc != nil and fresh(s.hc) and SH(s).interval == d and defaults(s)
  ensures[routed] ntrace() == 1 and (ev(0, "slices", 99999) if s.RouterSlicesMode else ev(0, "route", 99999, SH(s).router.pay))
func (*znet.Server).StartHeartBeatWithOption (s, d, o)
  property C14
  requires s != nil and s.msgHandler != nil and implies(o != nil, len(o.RouterSlices) < 2**40)
  modifies s.hc, trace
  ensures[installed] s.hc != nil and fresh(s.hc) and SH(s).interval == d and implies(o == nil, defaults(s)) and implies(o != nil, funcs(s, o))
  ensures[router] implies(o != nil and not s.RouterSlicesMode, (SH(s).msgID == o.HeartBeatMsgID and SH(s).router == o.Router) if ownid(o) and o.Router != nil else SH(s).msgID == 99999)
  ensures[handlers] implies(o != nil and s.RouterSlicesMode, SH(s).msgID == (o.HeartBeatMsgID if ownid(o) and len(o.RouterSlices) > 0 else 99999))
  ensures[routed] ntrace() == 1 and (ev(0, "slices", SH(s).msgID, len(SH(s).routerSlices)) if s.RouterSlicesMode else ev(0, "route", SH(s).msgID, SH(s).router.pay))
func (*znet.Client).StartHeartBeat (s, d)
  property C14
  requires s != nil and s.msgHandler != nil
  modifies s.hc, trace
  ensures[installed] s.hc != nil and fresh(s.hc) and SH(s).interval == d and defaults(s)
  ensures[routed] ntrace() == 1 and ev(0, "route", 99999, SH(s).router.pay)
func (*znet.Client).StartHeartBeatWithOption (s, d, o)
  property C14
  requires s != nil and s.msgHandler != nil
  modifies s.hc, trace
  ensures[installed] s.hc != nil and fresh(s.hc) and SH(s).interval == d and implies(o == nil, defaults(s)) and implies(o != nil, funcs(s, o))
  ensures[router] implies(o != nil, (SH(s).msgID == o.HeartBeatMsgID and SH(s).router == o.Router) if ownid(o) and o.Router != nil else SH(s).msgID == 99999)
  ensures[routed] ntrace() == 1 and ev(0, "route", SH(s).msgID, SH(s).router.pay)
iface context.Context.Err (x) -> (e)
  trusted nil exactly while the context is not done
  ensures iff(e == nil, gh(x, "done") == 0)
def maxd = G.HeartbeatMax * 1000000000
def open(c) = c.ctx != nil and gh(c.ctx, "done") == 0
func (*znet.Connection).IsAlive (c) -> (r)
  property C14
  requires c != nil and G != nil and 0 <= G.HeartbeatMax < 2**33 and 0 <= c.lastActivityTime.wall <= gh(0, "clock") and gh(0, "clock") < 2**62
  modifies ghost 0.clock
  ensures[exact] implies(gh(0, "clock") < 2**63, iff(r, open(c) and gh(0, "clock") - c.lastActivityTime.wall < maxd))
func (*znet.Connection).updateActivity (c)
  property C14
  inline
  requires c != nil
  modifies c.lastActivityTime, ghost 0.clock
  ensures[now] c.lastActivityTime.wall == gh(0, "clock") and gh(0, "clock") >= old(gh(0, "clock"))
func (*znet.Connection).SetHeartBeat (c, h)
  property C14
  requires c != nil
  modifies c.hc
  ensures[set] c.hc == h
func (*znet.KcpConnection).IsAlive (c) -> (r)
  property C14
  requires c != nil and G != nil and 0 <= G.HeartbeatMax < 2**33 and 0 <= c.lastActivityTime.wall <= gh(0, "clock") and gh(0, "clock") < 2**62
  modifies ghost 0.clock
  ensures[exact] implies(gh(0, "clock") < 2**63, iff(r, c.closed == 0 and gh(0, "clock") - c.lastActivityTime.wall < maxd))
func (*znet.KcpConnection).updateActivity (c)
  property C14
  inline
  requires c != nil
  modifies c.lastActivityTime, ghost 0.clock
  ensures[now] c.lastActivityTime.wall == gh(0, "clock") and gh(0, "clock") >= old(gh(0, "clock"))
func (*znet.KcpConnection).SetHeartBeat (c, h)
  property C14
  requires c != nil
  modifies c.hc
  ensures[set] c.hc == h
func (*znet.WsConnection).IsAlive (c) -> (r)
  property C14
  requires c != nil and G != nil and 0 <= G.HeartbeatMax < 2**33 and 0 <= c.lastActivityTime.wall <= gh(0, "clock") and gh(0, "clock") < 2**62
  modifies ghost 0.clock
  ensures[exact] implies(gh(0, "clock") < 2**63, iff(r, not c.isClosed and gh(0, "clock") - c.lastActivityTime.wall < maxd))
func (*znet.WsConnection).updateActivity (c)
  property C14
  inline
  requires c != nil
  modifies c.lastActivityTime, ghost 0.clock
  ensures[now] c.lastActivityTime.wall == gh(0, "clock") and gh(0, "clock") >= old(gh(0, "clock"))
func (*znet.WsConnection).SetHeartBeat (c, h)
  property C14
  requires c != nil
  modifies c.hc
  ensures[set] c.hc == h
