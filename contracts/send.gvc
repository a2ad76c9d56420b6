# Sending: the packed frame goes to the transport, or to the queue, exactly once.
devirt ziface.IMessage -> *zpack.Message
def G = glob("zconf.GlobalObject")
iface ziface.IDataPack.Pack (d, m) -> (b, err)
  trusted the frame of the message (C01)
  requires typeis(m, "*zpack.Message") and m.pay != 0
  modifies ghost 0.packs, ghost 0.pref, ghost 0.poff, ghost 0.plen
  ensures gh(0, "packs") == old(gh(0, "packs")) + 1 and gh(0, "pref") == ref(b) and gh(0, "poff") == off(b) and gh(0, "plen") == len(b)
  ensures implies(err == nil, b != nil)
def frame(p) = gh(0, "packs") == 1 and ref(p) == gh(0, "pref") and off(p) == gh(0, "poff") and len(p) == gh(0, "plen")
def same(p, q) = ref(p) == ref(q) and off(p) == off(q) and len(p) == len(q)
def M(m) = ptr(m.pay, "*zpack.Message")
iface net.Conn.Write (c, p) -> (n, err)
  trusted one transport write: counted, fails or not
  modifies ghost 0.writes, ghost 0.werr
  ensures gh(0, "writes") == old(gh(0, "writes")) + 1 and gh(0, "werr") == (1 if err != nil else 0)
func (*github.com/xtaci/kcp-go.UDPSession).Write (c, p) -> (n, err)
  trusted one transport write: counted, fails or not
  modifies ghost 0.writes, ghost 0.werr
  ensures gh(0, "writes") == old(gh(0, "writes")) + 1 and gh(0, "werr") == (1 if err != nil else 0)
func (*github.com/gorilla/websocket.Conn).WriteMessage (c, k, p) -> (err)
  trusted one transport write: counted, fails or not
  modifies ghost 0.writes, ghost 0.werr
  ensures gh(0, "writes") == old(gh(0, "writes")) + 1 and gh(0, "werr") == (1 if err != nil else 0)
func (*bufio.Writer).Write (w, p) -> (n, err)
  trusted appends p; what does not fit is written in parts, so the frame must fit or the buffer be empty
  requires[unsplit] gh(w, "buffered") == 0 or len(p) <= gh(w, "avail")
  modifies ghost w.buffered, ghost w.avail, ghost 0.writes, ghost 0.werr
  ensures gh(0, "writes") == old(gh(0, "writes")) + 1 and gh(0, "werr") == (1 if err != nil else 0)
func (*bufio.Writer).Flush (w) -> (err)
  trusted writes what is buffered, once
  modifies ghost w.buffered, ghost w.avail, ghost 0.flushes, ghost 0.werr
  ensures gh(0, "flushes") == old(gh(0, "flushes")) + 1 and gh(0, "werr") == (1 if err != nil else 0) and implies(err == nil, gh(w, "buffered") == 0)
func (*bufio.Writer).Buffered (w) -> (n)
  trusted
  pure
  ensures n == gh(w, "buffered") and n >= 0
func (*bufio.Writer).Available (w) -> (n)
  trusted
  pure
  ensures n == gh(w, "avail") and n >= 0
iface context.Context.Done (x) -> (ch)
  trusted a channel of the context
  pure
  ensures ch == gh(x, "donech")
iface context.Context.Err (x) -> (e)
  trusted nil exactly while the context is not done
  ensures iff(e == nil, gh(x, "done") == 0)
iface net.Conn.RemoteAddr (c) -> (a)
  trusted a connection has an address
  pure
  ensures a != nil
func (*github.com/xtaci/kcp-go.UDPSession).RemoteAddr (c) -> (a)
  trusted as net.Conn.RemoteAddr
  pure
  ensures a != nil
func (*github.com/gorilla/websocket.Conn).RemoteAddr (c) -> (a)
  trusted as net.Conn.RemoteAddr
  pure
  ensures a != nil
func time.NewTimer (d) -> (t)
  trusted a timer with a channel of its own
  ensures t != nil and t.C != nil and fresh(t.C)
func (*time.Timer).Stop (t) -> (r)
  trusted
  pure
func time.NewTicker (d) -> (t)
  trusted a ticker with a channel of its own
  requires d > 0
  ensures t != nil and t.C != nil and fresh(t.C) and nrecv(t.C) == 0
func (*time.Ticker).Stop (t)
  trusted
  pure
def none = gh(0, "writes") == 0 and gh(0, "packs") == 0 and gh(0, "flushes") == 0
func (*znet.Connection).Send (c, data) -> (err)
  property C13
  inline
  requires c != nil and c.conn != nil and none
  modifies ghost 0.writes, ghost 0.werr
  oncall[that-data] net.Conn.Write (c0, p): c0 == c.conn and same(p, data)
  ensures[closed] implies((c.ctx == nil or gh(c.ctx, "done") != 0), err != nil and gh(0, "writes") == 0)
  ensures[once] implies(not (c.ctx == nil or gh(c.ctx, "done") != 0), gh(0, "writes") == 1 and iff(err != nil, gh(0, "werr") == 1))
func (*znet.Connection).SendMsg (c, id, data) -> (err)
  property C13
  requires c != nil and c.conn != nil and c.packet != nil and none and len(data) < 2**32
  modifies ghost 0.writes, ghost 0.werr, ghost 0.packs, ghost 0.pref, ghost 0.poff, ghost 0.plen
  oncall[that-message] ziface.IDataPack.Pack (d, m): d == c.packet and M(m).ID == id and M(m).DataLen == len(data) and same(M(m).Data, data)
  oncall[that-frame] net.Conn.Write (c0, p): c0 == c.conn and frame(p)
  ensures[closed] implies((c.ctx == nil or gh(c.ctx, "done") != 0), err != nil and gh(0, "writes") == 0)
  ensures[once] implies(err == nil, gh(0, "writes") == 1 and gh(0, "werr") == 0)
  ensures[at-most-once] gh(0, "writes") <= 1
  ensures[reported] implies(gh(0, "writes") == 1 and gh(0, "werr") == 1, err != nil)
func (*znet.Connection).StartWriter (c)
  property C13
  option noframe background
  requires c != nil and c.conn != nil and c.ctx != nil and c.msgBuffChan > 0 and nrecv(c.msgBuffChan) == 0 and chanlen(c.msgBuffChan) >= 0 and gh(c.ctx, "donech") != c.msgBuffChan and none and c.bufWriter != nil
  oncall[next-frame] (*bufio.Writer).Write (w, p): same(p, chanat(c.msgBuffChan, nrecv(c.msgBuffChan) - 1)) and gh(0, "writes") == nrecv(c.msgBuffChan) - 1 and ref(w) == ref(c.bufWriter)
  template[each-once] (): implies(not (c.ctx == nil or gh(c.ctx, "done") != 0), gh(0, "writes") == nrecv(c.msgBuffChan))
  ensures[all-written] implies(not (c.ctx == nil or gh(c.ctx, "done") != 0), nrecv(c.msgBuffChan) - 1 <= gh(0, "writes") <= nrecv(c.msgBuffChan))
def went_Connection(c, d) = ntrace() > 0 and ev(ntrace() - 1, "send", c.msgBuffChan) and forall(lambda i: implies(0 <= i < ntrace() - 1, not ev(i, "send")))
def kept_Connection(c) = forall(lambda i: implies(0 <= i < ntrace(), not ev(i, "send")))
func (*znet.Connection).SendToQueue (c, data) -> (err)
  property C13
  inline
  option noframe
  requires c != nil and c.conn != nil and G != nil and none and G.MaxMsgChanLen < 2**32
  ensures[refused] implies((c.ctx == nil or gh(c.ctx, "done") != 0) or data == nil, err != nil and kept_Connection(c))
  ensures[queued-once] implies(err == nil, went_Connection(c, data) and evarg(ntrace() - 1, 1) == ref(data))
  ensures[not-queued] implies(err != nil, kept_Connection(c))
  ensures[one-writer] implies(ntrace() > 0 and ev(0, "go:(*znet.Connection).StartWriter"), old(c.msgBuffChan) == nil and c.msgBuffChan != nil and c.ctx != nil)
  ensures[same-queue] implies(old(c.msgBuffChan) != nil, c.msgBuffChan == old(c.msgBuffChan)) and gh(0, "writes") == 0
func (*znet.Connection).SendBuffMsg (c, id, data) -> (err)
  property C13
  option noframe
  requires c != nil and c.conn != nil and c.packet != nil and G != nil and none and G.MaxMsgChanLen < 2**32 and len(data) < 2**32
  oncall[that-message] ziface.IDataPack.Pack (d, m): d == c.packet and M(m).ID == id and M(m).DataLen == len(data) and same(M(m).Data, data)
  ensures[refused] implies((c.ctx == nil or gh(c.ctx, "done") != 0), err != nil and kept_Connection(c))
  ensures[queued-once] implies(err == nil, went_Connection(c, data) and gh(0, "packs") == 1 and evarg(ntrace() - 1, 1) == gh(0, "pref"))
  ensures[not-queued] implies(err != nil, kept_Connection(c))
  ensures[one-writer] implies(ntrace() > 0 and ev(0, "go:(*znet.Connection).StartWriter"), old(c.msgBuffChan) == nil and c.msgBuffChan != nil and c.ctx != nil)
  ensures[same-queue] implies(old(c.msgBuffChan) != nil, c.msgBuffChan == old(c.msgBuffChan)) and gh(0, "writes") == 0
func (*znet.WsConnection).Send (c, data) -> (err)
  property C13
  inline
  requires c != nil and c.conn != nil and none
  modifies ghost 0.writes, ghost 0.werr
  oncall[that-data] (*github.com/gorilla/websocket.Conn).WriteMessage (c0, k, p): ref(c0) == ref(c.conn) and same(p, data) and k == 2 and held(c)
  ensures[closed] implies(c.isClosed, err != nil and gh(0, "writes") == 0)
  ensures[once] implies(not c.isClosed, gh(0, "writes") == 1 and iff(err != nil, gh(0, "werr") == 1))
func (*znet.WsConnection).SendMsg (c, id, data) -> (err)
  property C13
  requires c != nil and c.conn != nil and c.packet != nil and none and len(data) < 2**32
  modifies ghost 0.writes, ghost 0.werr, ghost 0.packs, ghost 0.pref, ghost 0.poff, ghost 0.plen
  oncall[that-message] ziface.IDataPack.Pack (d, m): d == c.packet and M(m).ID == id and M(m).DataLen == len(data) and same(M(m).Data, data)
  oncall[that-frame] (*github.com/gorilla/websocket.Conn).WriteMessage (c0, k, p): ref(c0) == ref(c.conn) and frame(p) and k == 2 and held(c)
  ensures[closed] implies(c.isClosed, err != nil and gh(0, "writes") == 0)
  ensures[once] implies(err == nil, gh(0, "writes") == 1 and gh(0, "werr") == 0)
  ensures[at-most-once] gh(0, "writes") <= 1
  ensures[reported] implies(gh(0, "writes") == 1 and gh(0, "werr") == 1, err != nil)
func (*znet.WsConnection).StartWriter (c)
  property C13
  option noframe background
  requires c != nil and c.conn != nil and c.ctx != nil and c.msgBuffChan > 0 and nrecv(c.msgBuffChan) == 0 and chanlen(c.msgBuffChan) >= 0 and gh(c.ctx, "donech") != c.msgBuffChan and none
  oncall[next-frame] (*github.com/gorilla/websocket.Conn).WriteMessage (c0, k, p): same(p, chanat(c.msgBuffChan, nrecv(c.msgBuffChan) - 1)) and gh(0, "writes") == nrecv(c.msgBuffChan) - 1 and k == 2 and held(c) and ref(c0) == ref(c.conn)
  template[each-once] (): implies(not c.isClosed, gh(0, "writes") == nrecv(c.msgBuffChan))
  ensures[all-written] implies(not c.isClosed, gh(0, "writes") == nrecv(c.msgBuffChan))
def went_WsConnection(c, d) = ntrace() > 0 and ev(ntrace() - 1, "send", c.msgBuffChan) and forall(lambda i: implies(0 <= i < ntrace() - 1, not ev(i, "send")))
def kept_WsConnection(c) = forall(lambda i: implies(0 <= i < ntrace(), not ev(i, "send")))
func (*znet.WsConnection).SendToQueue (c, data) -> (err)
  property C13
  inline
  option noframe
  requires c != nil and c.conn != nil and G != nil and none and G.MaxMsgChanLen < 2**32
  ensures[refused] implies((c.isClosed or c.ctx == nil) or data == nil, err != nil and kept_WsConnection(c))
  ensures[queued-once] implies(err == nil, went_WsConnection(c, data) and evarg(ntrace() - 1, 1) == ref(data))
  ensures[not-queued] implies(err != nil, kept_WsConnection(c))
  ensures[one-writer] implies(ntrace() > 0 and ev(0, "go:(*znet.WsConnection).StartWriter"), old(c.msgBuffChan) == nil and c.msgBuffChan != nil and c.ctx != nil)
  ensures[same-queue] implies(old(c.msgBuffChan) != nil, c.msgBuffChan == old(c.msgBuffChan)) and gh(0, "writes") == 0
func (*znet.WsConnection).SendBuffMsg (c, id, data) -> (err)
  property C13
  option noframe
  requires c != nil and c.conn != nil and c.packet != nil and G != nil and none and G.MaxMsgChanLen < 2**32 and len(data) < 2**32
  oncall[that-message] ziface.IDataPack.Pack (d, m): d == c.packet and M(m).ID == id and M(m).DataLen == len(data) and same(M(m).Data, data)
  ensures[refused] implies((c.isClosed or c.ctx == nil), err != nil and kept_WsConnection(c))
  ensures[queued-once] implies(err == nil, went_WsConnection(c, data) and gh(0, "packs") == 1 and evarg(ntrace() - 1, 1) == gh(0, "pref"))
  ensures[not-queued] implies(err != nil, kept_WsConnection(c))
  ensures[one-writer] implies(ntrace() > 0 and ev(0, "go:(*znet.WsConnection).StartWriter"), old(c.msgBuffChan) == nil and c.msgBuffChan != nil and c.ctx != nil)
  ensures[same-queue] implies(old(c.msgBuffChan) != nil, c.msgBuffChan == old(c.msgBuffChan)) and gh(0, "writes") == 0
func (*znet.KcpConnection).Send (c, data) -> (err)
  property C13
  inline
  requires c != nil and c.conn != nil and none
  modifies ghost 0.writes, ghost 0.werr
  oncall[that-data] (*github.com/xtaci/kcp-go.UDPSession).Write (c0, p): ref(c0) == ref(c.conn) and same(p, data)
  ensures[closed] implies(c.closed != 0, err != nil and gh(0, "writes") == 0)
  ensures[once] implies(not c.closed != 0, gh(0, "writes") == 1 and iff(err != nil, gh(0, "werr") == 1))
func (*znet.KcpConnection).SendMsg (c, id, data) -> (err)
  property C13
  requires c != nil and c.conn != nil and c.packet != nil and none and len(data) < 2**32
  modifies ghost 0.writes, ghost 0.werr, ghost 0.packs, ghost 0.pref, ghost 0.poff, ghost 0.plen
  oncall[that-message] ziface.IDataPack.Pack (d, m): d == c.packet and M(m).ID == id and M(m).DataLen == len(data) and same(M(m).Data, data)
  oncall[that-frame] (*github.com/xtaci/kcp-go.UDPSession).Write (c0, p): ref(c0) == ref(c.conn) and frame(p)
  ensures[closed] implies(c.closed != 0, err != nil and gh(0, "writes") == 0)
  ensures[once] implies(err == nil, gh(0, "writes") == 1 and gh(0, "werr") == 0)
  ensures[at-most-once] gh(0, "writes") <= 1
  ensures[reported] implies(gh(0, "writes") == 1 and gh(0, "werr") == 1, err != nil)
func (*znet.KcpConnection).StartWriter (c)
  property C13
  option noframe background
  requires c != nil and c.conn != nil and c.ctx != nil and c.msgBuffChan > 0 and nrecv(c.msgBuffChan) == 0 and chanlen(c.msgBuffChan) >= 0 and gh(c.ctx, "donech") != c.msgBuffChan and none
  oncall[next-frame] (*github.com/xtaci/kcp-go.UDPSession).Write (c0, p): same(p, chanat(c.msgBuffChan, nrecv(c.msgBuffChan) - 1)) and gh(0, "writes") == nrecv(c.msgBuffChan) - 1 and ref(c0) == ref(c.conn)
  template[each-once] (): implies(not c.closed != 0, gh(0, "writes") == nrecv(c.msgBuffChan))
  ensures[all-written] implies(not c.closed != 0, gh(0, "writes") == nrecv(c.msgBuffChan))
def went_KcpConnection(c, d) = ntrace() > 0 and ev(ntrace() - 1, "send", c.msgBuffChan) and forall(lambda i: implies(0 <= i < ntrace() - 1, not ev(i, "send")))
def kept_KcpConnection(c) = forall(lambda i: implies(0 <= i < ntrace(), not ev(i, "send")))
func (*znet.KcpConnection).SendToQueue (c, data) -> (err)
  property C13
  inline
  option noframe
  requires c != nil and c.conn != nil and G != nil and none and G.MaxMsgChanLen < 2**32
  ensures[refused] implies((c.closed != 0 or c.ctx == nil) or data == nil, err != nil and kept_KcpConnection(c))
  ensures[queued-once] implies(err == nil, went_KcpConnection(c, data) and evarg(ntrace() - 1, 1) == ref(data))
  ensures[not-queued] implies(err != nil, kept_KcpConnection(c))
  ensures[one-writer] implies(ntrace() > 0 and ev(0, "go:(*znet.KcpConnection).StartWriter"), old(c.msgBuffChan) == nil and c.msgBuffChan != nil and c.ctx != nil)
  ensures[same-queue] implies(old(c.msgBuffChan) != nil, c.msgBuffChan == old(c.msgBuffChan)) and gh(0, "writes") == 0
func (*znet.KcpConnection).SendBuffMsg (c, id, data) -> (err)
  property C13
  option noframe
  requires c != nil and c.conn != nil and c.packet != nil and G != nil and none and G.MaxMsgChanLen < 2**32 and len(data) < 2**32
  oncall[that-message] ziface.IDataPack.Pack (d, m): d == c.packet and M(m).ID == id and M(m).DataLen == len(data) and same(M(m).Data, data)
  ensures[refused] implies((c.closed != 0 or c.ctx == nil), err != nil and kept_KcpConnection(c))
  ensures[queued-once] implies(err == nil, went_KcpConnection(c, data) and gh(0, "packs") == 1 and evarg(ntrace() - 1, 1) == gh(0, "pref"))
  ensures[not-queued] implies(err != nil, kept_KcpConnection(c))
  ensures[one-writer] implies(ntrace() > 0 and ev(0, "go:(*znet.KcpConnection).StartWriter"), old(c.msgBuffChan) == nil and c.msgBuffChan != nil and c.ctx != nil)
  ensures[same-queue] implies(old(c.msgBuffChan) != nil, c.msgBuffChan == old(c.msgBuffChan)) and gh(0, "writes") == 0
func (*znet.Connection).SendBuf (c, data) -> (err)
  property C13
  inline
  requires c != nil and c.bufWriter != nil and none
  modifies ghost 0.writes, ghost 0.werr, ghost 0.flushes, ghost ref(c.bufWriter).buffered, ghost ref(c.bufWriter).avail
  oncall[that-data] (*bufio.Writer).Write (w, p): ref(w) == ref(c.bufWriter) and same(p, data)
  ensures[closed] implies(c.ctx == nil or gh(c.ctx, "done") != 0, err != nil and gh(0, "writes") == 0)
  ensures[once] implies(err == nil, gh(0, "writes") == 1 and gh(0, "werr") == 0)
  ensures[at-most-once] gh(0, "writes") <= 1
  ensures[reported] implies(gh(0, "werr") == 1 and gh(0, "writes") + gh(0, "flushes") > 0, err != nil)
func (*znet.Connection).Flush (c) -> (err)
  property C13
  inline
  requires c != nil and c.bufWriter != nil and none
  modifies ghost 0.werr, ghost 0.flushes, ghost ref(c.bufWriter).buffered, ghost ref(c.bufWriter).avail
  ensures[closed] implies(c.ctx == nil or gh(c.ctx, "done") != 0, err != nil and gh(0, "flushes") == 0)
  ensures[once] implies(not (c.ctx == nil or gh(c.ctx, "done") != 0), gh(0, "flushes") == 1 and iff(err != nil, gh(0, "werr") == 1))
