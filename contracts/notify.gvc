# Notifications: a sharded map from the decimal form of a user-chosen id to a connection.
iface ziface.IConnection.SendMsg (c, id, d) -> (e)
  trusted a send is recorded as an event; it does not change the registry, and may succeed or fail
  modifies ghost ntrace().sent
  ensures iff(e == nil, gh(ntrace(), "sent") == 1)
  event sendmsg(c.tag, c)
iface ziface.IConnection.SendBuffMsg (c, id, d) -> (e)
  trusted a buffered send is recorded as an event; it does not change the registry, and may succeed or fail
  modifies ghost ntrace().sent
  ensures iff(e == nil, gh(ntrace(), "sent") == 1)
  event sendbuff(c.tag, c)
def isconn(x) = implements(x, "ziface.IConnection")
def cs(n) = n.connIdMap
def nreg(n) = wf(cs(n)) and placed(cs(n)) and forall(lambda k: implies(has(cs(n), k), isconn(val(cs(n), k))), "string")
func (*znotify.notify).ConnNums (n) -> (r)
  property C23
  requires n != nil and wf(cs(n))
  ensures[exact] r == sumlen(cs(n).shards, nsh)
func (*znotify.notify).HasIdConn (n, id) -> (r)
  property C23
  requires n != nil and nreg(n)
  ensures[exact] iff(r, has(cs(n), decimal(id)))
func (*znotify.notify).SetNotifyID (n, id, conn)
  property C23
  requires n != nil and nreg(n) and isconn(conn)
  modifies map(sm(cs(n), decimal(id)))
  ensures[registered] has(cs(n), decimal(id)) and val(cs(n), decimal(id)) == conn
  ensures[others] others(cs(n), decimal(id))
func (*znotify.notify).GetNotifyByID (n, id) -> (c, err)
  property C23
  requires n != nil and nreg(n)
  ensures[found] implies(has(cs(n), decimal(id)), err == nil and c == val(cs(n), decimal(id)))
  ensures[missing] implies(not has(cs(n), decimal(id)), err != nil and c == nil)
func (*znotify.notify).DelNotifyByID (n, id)
  property C23
  requires n != nil and nreg(n)
  modifies map(sm(cs(n), decimal(id)))
  ensures[removed] not has(cs(n), decimal(id))
  ensures[others] others(cs(n), decimal(id))
func (*znotify.notify).NotifyToConnByID (n, id, msg, data) -> (err)
  property C23
  requires n != nil and nreg(n)
  modifies trace, anyghost sent
  oncall[message] ziface.IConnection.SendMsg (c, m, d): m == msg and ref(d) == ref(data) and len(d) == len(data) and contents(d) == contents(data)
  ensures[once-to-it] implies(has(cs(n), decimal(id)), ntrace() == 1 and ev(0, "sendmsg", val(cs(n), decimal(id)).tag, val(cs(n), decimal(id)).pay) and iff(err == nil, gh(0, "sent") == 1))
  ensures[unregistered] implies(not has(cs(n), decimal(id)), err != nil and ntrace() == 0)
func (*znotify.notify).NotifyBuffToConnByID (n, id, msg, data) -> (err)
  property C23
  requires n != nil and nreg(n)
  modifies trace, anyghost sent
  oncall[message] ziface.IConnection.SendBuffMsg (c, m, d): m == msg and ref(d) == ref(data) and len(d) == len(data) and contents(d) == contents(data)
  ensures[once-to-it] implies(has(cs(n), decimal(id)), ntrace() == 1 and ev(0, "sendbuff", val(cs(n), decimal(id)).tag, val(cs(n), decimal(id)).pay) and iff(err == nil, gh(0, "sent") == 1))
  ensures[unregistered] implies(not has(cs(n), decimal(id)), err != nil and ntrace() == 0)
# broadcasts: one send per registered id
def bk(i) = strof(gh(i, "key"))
def notified(k) = 0 <= gh(strno(k), "at") < ntrace() and gh(gh(strno(k), "at"), "key") == strno(k)
def sok1(n, i) = ev(i, "sendmsg") and gh(i, "key") == strno(bk(i)) and has(cs(n), bk(i)) and gh(gh(i, "key"), "at") == i and evarg(i, 0) == val(cs(n), bk(i)).tag and evarg(i, 1) == val(cs(n), bk(i)).pay
def supto1(n, m) = forall(lambda i: implies(0 <= i < ntrace(), sok1(n, i) and home(cs(n), bk(i)) < m)) and forall(lambda k: implies(has(cs(n), k) and home(cs(n), k) < m, notified(k)), "string")
def sin1(n, m) = forall(lambda i: implies(0 <= i < ntrace(), sok1(n, i) and (home(cs(n), bk(i)) < m or (home(cs(n), bk(i)) == m and visited(bk(i)))))) and forall(lambda k: implies(has(cs(n), k) and (home(cs(n), k) < m or (home(cs(n), k) == m and visited(k))), notified(k)), "string")
def sok2(n, i) = ev(i, "sendbuff") and gh(i, "key") == strno(bk(i)) and has(cs(n), bk(i)) and gh(gh(i, "key"), "at") == i and evarg(i, 0) == val(cs(n), bk(i)).tag and evarg(i, 1) == val(cs(n), bk(i)).pay
def supto2(n, m) = forall(lambda i: implies(0 <= i < ntrace(), sok2(n, i) and home(cs(n), bk(i)) < m)) and forall(lambda k: implies(has(cs(n), k) and home(cs(n), k) < m, notified(k)), "string")
def sin2(n, m) = forall(lambda i: implies(0 <= i < ntrace(), sok2(n, i) and (home(cs(n), bk(i)) < m or (home(cs(n), bk(i)) == m and visited(bk(i)))))) and forall(lambda k: implies(has(cs(n), k) and (home(cs(n), k) < m or (home(cs(n), k) == m and visited(k))), notified(k)), "string")
func (*znotify.notify).NotifyAll (n, msg, data) -> (err)
  property C23
  option ctime=8000
  option inlines=IterCb
  requires n != nil and nreg(n)
  modifies trace, anyghost at, anyghost key, anyghost sent
  ghoston ziface.IConnection.SendMsg (c, m, d): strno(curkey()).at := ntrace()
  ghoston ziface.IConnection.SendMsg (c, m, d): ntrace().key := strno(curkey())
  oncall[message] ziface.IConnection.SendMsg (c, m, d): m == msg and ref(d) == ref(data) and len(d) == len(data) and contents(d) == contents(data)
  template[range] (m: int): 0 <= m <= nsh and ntrace() >= 0
  template[shards] (m: int): supto1(n, m)
  template[shard] (m: any int): sin1(n, m)
  ensures[only] forall(lambda i: implies(0 <= i < ntrace(), sok1(n, i)))
  ensures[once] forall(lambda i, j: implies(0 <= i < j and j < ntrace(), gh(i, "key") != gh(j, "key")))
  ensures[all] forall(lambda k: implies(has(cs(n), k), notified(k)), "string")
func (*znotify.notify).NotifyBuffAll (n, msg, data) -> (err)
  property C23
  option ctime=8000
  option inlines=IterCb
  requires n != nil and nreg(n)
  modifies trace, anyghost at, anyghost key, anyghost sent
  ghoston ziface.IConnection.SendBuffMsg (c, m, d): strno(curkey()).at := ntrace()
  ghoston ziface.IConnection.SendBuffMsg (c, m, d): ntrace().key := strno(curkey())
  oncall[message] ziface.IConnection.SendBuffMsg (c, m, d): m == msg and ref(d) == ref(data) and len(d) == len(data) and contents(d) == contents(data)
  template[range] (m: int): 0 <= m <= nsh and ntrace() >= 0
  template[shards] (m: int): supto2(n, m)
  template[shard] (m: any int): sin2(n, m)
  ensures[only] forall(lambda i: implies(0 <= i < ntrace(), sok2(n, i)))
  ensures[once] forall(lambda i, j: implies(0 <= i < j and j < ntrace(), gh(i, "key") != gh(j, "key")))
  ensures[all] forall(lambda k: implies(has(cs(n), k), notified(k)), "string")
