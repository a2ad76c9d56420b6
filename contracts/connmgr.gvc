# The connection manager: a sharded map from the decimal id of a connection to the connection.
iface ziface.IConnection.GetConnIdStr (c) -> (r)
  trusted a connection's string id is the decimal form of its numeric id (the constructors of the three transports are under contract)
  pure
  ensures r == decimal(connid(c))
iface ziface.IConnection.GetConnID (c) -> (r)
  trusted a connection's id does not change
  pure
  ensures r == connid(c)
iface ziface.IConnection.Stop (c)
  trusted stopping a connection may change the registry's contents and the connection, not the manager itself
  modifies anymap map[string]interface{}
  event stop(c.tag, c)
functype func(uint64, ziface.IConnection, interface{}) error (f, id, c, args) -> (e)
  trusted the caller's function: recorded as an event; assumed to return and not to change the registry
  event cb(id, c.tag, c)
functype func(string, ziface.IConnection, interface{}) error (f, id, c, args) -> (e)
  trusted the caller's function: recorded as an event; assumed to return and not to change the registry
  event cb2(id, c.tag, c)
def cs(m) = m.connections
def isconn(x) = implements(x, "ziface.IConnection")
# every entry is a connection stored under its own id
def reg(m) = wf(cs(m)) and placed(cs(m)) and forall(lambda k: implies(has(cs(m), k), isconn(val(cs(m), k)) and k == decimal(connid(val(cs(m), k)))), "string")
def same(m) = m.connections.shards == old(m.connections.shards) and m.connections.hash == old(m.connections.hash)
func znet.newConnManager () -> (m)
  property C11
  requires 0 < nsh < 2**31
  ensures[empty] m != nil and wf(cs(m)) and forall(lambda i, k: implies(0 <= i < nsh, k not in cs(m).shards[i].items), "int", "string")
func (*znet.ConnManager).Add (m, conn)
  property C11
  requires m != nil and reg(m) and isconn(conn)
  modifies map(sm(cs(m), decimal(connid(conn))))
  ensures[registered] has(cs(m), decimal(connid(conn))) and val(cs(m), decimal(connid(conn))) == conn
  ensures[others] others(cs(m), decimal(connid(conn)))
func (*znet.ConnManager).Remove (m, conn)
  property C11
  requires m != nil and reg(m) and isconn(conn)
  modifies map(sm(cs(m), decimal(connid(conn))))
  ensures[removed] not has(cs(m), decimal(connid(conn)))
  ensures[others] others(cs(m), decimal(connid(conn)))
func (*znet.ConnManager).Get (m, id) -> (c, err)
  property C11
  requires m != nil and reg(m)
  ensures[found] implies(has(cs(m), decimal(id)), err == nil and c == val(cs(m), decimal(id)) and connid(c) == id)
  ensures[missing] implies(not has(cs(m), decimal(id)), err != nil and c == nil)
func (*znet.ConnManager).Get2 (m, id) -> (c, err)
  property C11
  requires m != nil and reg(m)
  ensures[found] implies(has(cs(m), id), err == nil and c == val(cs(m), id))
  ensures[missing] implies(not has(cs(m), id), err != nil and c == nil)
func (*znet.ConnManager).Len (m) -> (n)
  property C11
  requires m != nil and wf(cs(m))
  ensures[exact] n == sumlen(cs(m).shards, nsh)
func (*znet.ConnManager).GetAllConnIdStr (m) -> (ids)
  property C11
  requires m != nil and reg(m)
  ensures[only] forall(lambda i: implies(0 <= i < len(ids), has(cs(m), ids[i])))
  ensures[once] forall(lambda i, j: implies(0 <= i < j and j < len(ids), ids[i] != ids[j]))
  ensures[all] forall(lambda k: implies(has(cs(m), k), exists(lambda i: 0 <= i < len(ids) and ids[i] == k)), "string")
func (*znet.ConnManager).GetAllConnID (m) -> (ids)
  property C11
  requires m != nil and reg(m)
  template[range] (n: int, ks: any []string): 0 <= n <= len(ks)
  template[range1] (n: int, ks: any []string): 0 <= n + 1 <= len(ks)
  template[ids] (ids: []uint64, n: int, ks: any []string): len(ids) == n and forall(lambda i: implies(0 <= i < n, ids[i] == undecimal(ks[i])))
  template[ids1] (ids: []uint64, n: int, ks: any []string): len(ids) == n + 1 and forall(lambda i: implies(0 <= i < n + 1, ids[i] == undecimal(ks[i])))
  template[fresh] (ids: []uint64): fresh(ids)
  ensures[only] forall(lambda i: implies(0 <= i < len(ids), has(cs(m), decimal(ids[i]))))
  ensures[once] forall(lambda i, j: implies(0 <= i < j and j < len(ids), ids[i] != ids[j]))
  ensures[all] forall(lambda k: implies(has(cs(m), k), exists(lambda i: 0 <= i < len(ids) and ids[i] == connid(val(cs(m), k)))), "string")
func (*znet.ConnManager).ClearConn (m)
  property C11
  requires m != nil and reg(m)
  modifies anymap map[string]interface{}, trace
  template[stopped] (ch: any <-chan zutils.Tuple): 0 <= nrecv(ch) <= chanlen(ch) and ntrace() == 2 * nrecv(ch) and forall(lambda i: implies(0 <= i < nrecv(ch), ev(2 * i + 1, "stop", chanat(ch, i).Val.tag, chanat(ch, i).Val)))
  ensures[all-stopped] forall(lambda k: implies(old(has(cs(m), k)), exists(lambda i: 0 <= i < ntrace() and ev(i, "stop", old(val(cs(m), k)).tag, old(val(cs(m), k))))), "string")
# Range and Range2: the callback of every registered connection, once each
def rk(i) = strof(gh(i, "key"))
def cbok(m, i) = ev(i, "cb") and gh(i, "key") == strno(rk(i)) and has(cs(m), rk(i)) and gh(gh(i, "key"), "at") == i and evarg(i, 0) == connid(val(cs(m), rk(i))) and evarg(i, 1) == val(cs(m), rk(i)).tag and evarg(i, 2) == val(cs(m), rk(i)).pay
def cbseen(k) = 0 <= gh(strno(k), "at") < ntrace() and gh(gh(strno(k), "at"), "key") == strno(k)
def cbupto(m, n) = forall(lambda i: implies(0 <= i < ntrace(), cbok(m, i) and home(cs(m), rk(i)) < n)) and forall(lambda k: implies(has(cs(m), k) and home(cs(m), k) < n, cbseen(k)), "string")
def cbin(m, n) = forall(lambda i: implies(0 <= i < ntrace(), cbok(m, i) and (home(cs(m), rk(i)) < n or (home(cs(m), rk(i)) == n and visited(rk(i)))))) and forall(lambda k: implies(has(cs(m), k) and (home(cs(m), k) < n or (home(cs(m), k) == n and visited(k))), cbseen(k)), "string")
func (*znet.ConnManager).Range (m, cb, args) -> (err)
  property C11
  option ctime=8000
  option inlines=IterCb
  requires m != nil and reg(m) and cb != nil
  modifies trace, anyghost at, anyghost key
  ghoston func(uint64, ziface.IConnection, interface{}) error (f, id, c, a): strno(curkey()).at := ntrace()
  ghoston func(uint64, ziface.IConnection, interface{}) error (f, id, c, a): ntrace().key := strno(curkey())
  template[range] (n: int): 0 <= n <= nsh and ntrace() >= 0
  template[shards] (n: int): cbupto(m, n)
  template[shard] (n: any int): cbin(m, n)
  ensures[only] forall(lambda i: implies(0 <= i < ntrace(), cbok(m, i)))
  ensures[once] forall(lambda i, j: implies(0 <= i < j and j < ntrace(), evarg(i, 0) != evarg(j, 0)))
  ensures[all] forall(lambda k: implies(has(cs(m), k), cbseen(k)), "string")
def rk2(i) = strof(evarg(i, 0))
def cbok2(m, i) = ev(i, "cb2") and evarg(i, 0) == strno(rk2(i)) and has(cs(m), rk2(i)) and gh(evarg(i, 0), "at") == i and evarg(i, 1) == val(cs(m), rk2(i)).tag and evarg(i, 2) == val(cs(m), rk2(i)).pay
def cbseen2(k) = 0 <= gh(strno(k), "at") < ntrace() and evarg(gh(strno(k), "at"), 0) == strno(k)
def cbupto2(m, n) = forall(lambda i: implies(0 <= i < ntrace(), cbok2(m, i) and home(cs(m), rk2(i)) < n)) and forall(lambda k: implies(has(cs(m), k) and home(cs(m), k) < n, cbseen2(k)), "string")
def cbin2(m, n) = forall(lambda i: implies(0 <= i < ntrace(), cbok2(m, i) and (home(cs(m), rk2(i)) < n or (home(cs(m), rk2(i)) == n and visited(rk2(i)))))) and forall(lambda k: implies(has(cs(m), k) and (home(cs(m), k) < n or (home(cs(m), k) == n and visited(k))), cbseen2(k)), "string")
func (*znet.ConnManager).Range2 (m, cb, args) -> (err)
  property C11
  option ctime=8000
  option inlines=IterCb
  requires m != nil and reg(m) and cb != nil
  modifies trace, anyghost at
  ghoston func(string, ziface.IConnection, interface{}) error (f, id, c, a): strno(id).at := ntrace()
  template[range] (n: int): 0 <= n <= nsh and ntrace() >= 0
  template[shards] (n: int): cbupto2(m, n)
  template[shard] (n: any int): cbin2(m, n)
  ensures[only] forall(lambda i: implies(0 <= i < ntrace(), cbok2(m, i)))
  ensures[once] forall(lambda i, j: implies(0 <= i < j and j < ntrace(), evarg(i, 0) != evarg(j, 0)))
  ensures[all] forall(lambda k: implies(has(cs(m), k), cbseen2(k)), "string")
