# Requests: creation, recycling, copying and the context.
devirt ziface.IMessage -> *zpack.Message
type znet.Request
  lock stepLock guards keys
func (*sync.Pool).Get (p) -> (x)
  trusted sync.Pool.Get returns a value put before or made by New: here always a *znet.Request nobody else uses, in any state
  ensures typeis(x, "*znet.Request") and x != nil and x.pay != 0
func (*sync.Pool).Put (p, x)
  trusted recorded as an event
  event put(x)
  modifies trace
def msgof(r) = ptr(r.msg.pay, "*zpack.Message")
def clean(q, conn, msg) = typeis(q, "*znet.Request") and q.pay != 0 and cleaned(ptr(q.pay, "*znet.Request"), conn, msg)
def cleaned(r, conn, msg) = r.conn == conn and r.msg == msg and r.router == nil and r.steps == 0 and r.needNext and r.icResp == nil and len(r.handlers) == 0 and r.index == -1 and (r.keys == nil or (len(r.keys) == 0 and forall(lambda k: k not in r.keys, "string")))
func znet.NewRequest (conn, msg) -> (r)
  property C22
  inline
  ensures[clean] clean(r, conn, msg) and fresh(r)
func znet.GetRequest (conn, msg) -> (r)
  property C22
  option noguard
  modifies any znet.Request.conn, any znet.Request.msg, any znet.Request.router, any znet.Request.steps, any znet.Request.needNext, any znet.Request.icResp, any znet.Request.handlers, any znet.Request.index, any znet.Request.keys
  requires glob("zconf.GlobalObject") != nil and glob("znet.RequestPool") != nil
  ensures[clean] clean(r, conn, msg)
func znet.PutRequest (r)
  property C22
  inline
  requires glob("zconf.GlobalObject") != nil and glob("znet.RequestPool") != nil
  modifies trace
  ensures[recycled] ntrace() == (1 if glob("zconf.GlobalObject").RequestPoolMode else 0) and implies(ntrace() == 1, ev(0, "put", r.pay))
func (*znet.Request).Reset (r, conn, msg)
  property C22
  inline
  option noguard
  requires r != nil
  modifies r.conn, r.msg, r.router, r.steps, r.needNext, r.icResp, r.handlers, r.index, r.keys
  ensures[clean] r.conn == conn and r.msg == msg and r.router == nil and r.steps == 0 and r.needNext and r.icResp == nil and len(r.handlers) == 0 and r.index == -1 and (r.keys == nil or (len(r.keys) == 0 and forall(lambda k: k not in r.keys, "string")))
func (*znet.Request).Copy (r) -> (c)
  property C22
  requires r != nil and r.msg != nil and r.msg.pay != 0
  template[copied] (c: any *znet.Request): forall(lambda k: implies(k in c.keys, k in r.keys and c.keys[k] == r.keys[k]) and iff(k in c.keys, visited(k)), "string")
  template[copied-values] (m: any map[string]interface{}): forall(lambda k: implies(k in m, k in r.keys and m[k] == r.keys[k]) and iff(k in m, visited(k)), "string")
  ensures[new] typeis(c, "*znet.Request") and fresh(c)
  ensures[id-and-data] msgof(c).ID == msgof(r).ID and msgof(c).DataLen == msgof(r).DataLen and ref(msgof(c).Data) == ref(msgof(r).Data) and len(msgof(c).Data) == len(msgof(r).Data) and msgof(c).Data == msgof(r).Data
  ensures[own-message] c.msg != nil and c.msg.pay != r.msg.pay
  ensures[response] c.icResp == r.icResp
  ensures[detached] c.conn == nil and c.router == nil and len(c.handlers) == 0 and c.index >= 0
  ensures[context-values] forall(lambda k: iff(k in c.keys, k in r.keys) and implies(k in c.keys, c.keys[k] == r.keys[k]), "string")
  ensures[context-own] implies(c.keys != nil, fresh(c.keys))
func (*znet.Request).Set (r, key, value)
  property C22
  requires r != nil
  atomic r
  modifies r.keys, map(r.keys)
  ensures[stored] key in r.keys and r.keys[key] == value
  ensures[others] forall(lambda k: implies(k != key, iff(k in r.keys, old(k in r.keys)) and implies(k in r.keys, r.keys[k] == old(r.keys[k]))), "string")
func (*znet.Request).Get (r, key) -> (v, ok)
  property C22
  requires r != nil
  atomic r
  ensures[read] iff(ok, key in r.keys) and implies(ok, v == r.keys[key]) and implies(not ok, v == nil)
func (*znet.Request).GetMessage (r) -> (m)
  property C22
  inline
  requires r != nil
  ensures[value] m == r.msg
func (*znet.Request).GetConnection (r) -> (c)
  property C22
  inline
  requires r != nil
  ensures[value] c == r.conn
func (*znet.Request).GetData (r) -> (d)
  property C22
  inline
  requires r != nil and r.msg != nil and r.msg.pay != 0
  ensures[value] d == msgof(r).Data
func (*znet.Request).GetMsgID (r) -> (d)
  property C22
  inline
  requires r != nil and r.msg != nil and r.msg.pay != 0
  ensures[value] d == msgof(r).ID
func (*znet.Request).GetResponse (r) -> (x)
  property C22
  inline
  requires r != nil
  ensures[value] x == r.icResp
func (*znet.Request).SetResponse (r, x)
  property C22
  inline
  requires r != nil
  modifies r.icResp
  ensures[value] r.icResp == x
