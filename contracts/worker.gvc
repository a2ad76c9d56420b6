# Worker assignment.
iface ziface.IConnection.GetMsgHandler (c) -> (h)
  trusted a connection's message handler is fixed when it is made
  pure
  ensures h == nil or (typeis(h, "*znet.MsgHandle") and h.pay == gh(c, "mh") and h.pay != 0)
  ensures iff(h == nil, gh(c, "mh") == 0)
iface ziface.IConnection.GetConnID (c) -> (n)
  trusted a connection's id is fixed when it is made
  pure
  ensures n == gh(c, "connid")
iface ziface.IConnection.GetWorkerID (c) -> (w)
  trusted the worker stored when the connection was started
  pure
  ensures w == gh(c, "worker")
type znet.MsgHandle
  lock freeWorkerMu guards freeWorkers
  invariant[pool] forall(lambda k: implies(k in self.freeWorkers, 0 <= k < len(self.TaskQueue) and (k < self.WorkerPoolSize or self.WorkerPoolSize == 0)))
type znet.MsgHandle
  lock extraFreeWorkerMu guards extraFreeWorkers
  invariant[extra] forall(lambda k: implies(k in self.extraFreeWorkers, self.WorkerPoolSize <= k < len(self.TaskQueue)))
def M(c) = ptr(gh(c, "mh"), "*znet.MsgHandle")
def G = glob("zconf.GlobalObject")
def bind = G.WorkerMode == "Bind"
def dynamic = G.WorkerMode == "DynamicBind"
def hash(c) = 0 if M(c).WorkerPoolSize == 0 else gmod(gh(c, "connid"), M(c).WorkerPoolSize)
def taken(s, o, k) = forall(lambda j: iff(j in s, j in o and j != k))
def frompool(m, k) = old(k in m.freeWorkers) and forall(lambda j: iff(j in m.freeWorkers, old(j in m.freeWorkers) and j != k))
def poolsame(m) = forall(lambda j: iff(j in m.freeWorkers, old(j in m.freeWorkers)))
def poolempty(m) = forall(lambda j: not old(j in m.freeWorkers))
def fromextra(m, k) = old(k in m.extraFreeWorkers) and forall(lambda j: iff(j in m.extraFreeWorkers, old(j in m.extraFreeWorkers) and j != k))
def extrasame(m) = forall(lambda j: iff(j in m.extraFreeWorkers, old(j in m.extraFreeWorkers)))
def extraempty(m) = forall(lambda j: not old(j in m.extraFreeWorkers))
def queuesame(m) = forall(lambda j: implies(0 <= j < len(m.TaskQueue), m.TaskQueue[j] == old(m.TaskQueue[j])))
def apart(m) = m.freeWorkers == nil or m.extraFreeWorkers == nil or ref(m.freeWorkers) != ref(m.extraFreeWorkers)
func znet.useWorker (c) -> (k)
  property C10
  requires implies(gh(c, "mh") != 0, apart(M(c)))
  requires G != nil and c != nil and 0 <= G.MaxWorkerTaskLen < 2**32
  modifies map(M(c).freeWorkers), map(M(c).extraFreeWorkers), elems(M(c).TaskQueue), trace
  oncall[extra-started] go:(*znet.MsgHandle).StartOneWorker (m, id, q): dynamic and ref(m) == gh(c, "mh") and old(id in M(c).extraFreeWorkers) and q == m.TaskQueue[id] and ntrace() == 1
  ensures[bind] implies(gh(c, "mh") != 0 and bind, (frompool(M(c), k) or (poolempty(M(c)) and poolsame(M(c)) and k == hash(c))) and ntrace() == 0)
  ensures[dynamic] implies(gh(c, "mh") != 0 and dynamic, (frompool(M(c), k) and extrasame(M(c)) and ntrace() == 0) or (poolempty(M(c)) and poolsame(M(c)) and fromextra(M(c), k) and ntrace() == 1 and ev(0, "go:(*znet.MsgHandle).StartOneWorker")) or (poolempty(M(c)) and poolsame(M(c)) and extraempty(M(c)) and extrasame(M(c)) and k == hash(c) and ntrace() == 0))
  ensures[other-queues] implies(gh(c, "mh") != 0, forall(lambda j: implies(0 <= j < len(M(c).TaskQueue) and not (ntrace() == 1 and j == k), M(c).TaskQueue[j] == old(M(c).TaskQueue[j]))))
  ensures[hash] implies(gh(c, "mh") != 0 and not bind and not dynamic, k == hash(c) and ntrace() == 0)
  ensures[in-range] implies(gh(c, "mh") != 0 and M(c).WorkerPoolSize > 0, k < M(c).WorkerPoolSize or (dynamic and ntrace() == 1 and k < len(M(c).TaskQueue)))
func znet.freeWorker (c)
  property C10
  requires G != nil and c != nil and implies(gh(c, "mh") != 0, apart(M(c)))
  requires implies(gh(c, "mh") != 0 and (bind or dynamic), M(c).freeWorkers != nil and 0 <= gh(c, "worker") < len(M(c).TaskQueue) and implies(bind, M(c).WorkerPoolSize == 0 or gh(c, "worker") < M(c).WorkerPoolSize))
  requires implies(gh(c, "mh") != 0 and dynamic, M(c).extraFreeWorkers != nil and M(c).TaskQueue[gh(c, "worker")] != nil and gh(c, "worker") not in M(c).extraFreeWorkers)
  modifies map(M(c).freeWorkers), map(M(c).extraFreeWorkers), trace
  oncall[stopped-before-reuse] close (ch): ch == M(c).TaskQueue[gh(c, "worker")] and gh(c, "worker") not in M(c).extraFreeWorkers
  ensures[back-in-pool] implies(gh(c, "mh") != 0 and (bind or (dynamic and gh(c, "worker") < M(c).WorkerPoolSize)), forall(lambda j: iff(j in M(c).freeWorkers, old(j in M(c).freeWorkers) or j == gh(c, "worker"))) and extrasame(M(c)) and ntrace() == 0)
  ensures[extra-stopped-once] implies(gh(c, "mh") != 0 and dynamic and gh(c, "worker") >= M(c).WorkerPoolSize, forall(lambda j: iff(j in M(c).extraFreeWorkers, old(j in M(c).extraFreeWorkers) or j == gh(c, "worker"))) and poolsame(M(c)) and ntrace() == 1 and ev(0, "close", old(M(c).TaskQueue[gh(c, "worker")])))
  ensures[hash-nothing] implies(gh(c, "mh") == 0 or (not bind and not dynamic), ntrace() == 0)
func (*znet.MsgHandle).StartWorkerPool (m)
  property C10
  requires m != nil and G != nil and len(m.TaskQueue) >= m.WorkerPoolSize and 0 <= G.MaxWorkerTaskLen < 2**32
  modifies elems(m.TaskQueue), trace
  oncall[its-queue] go:(*znet.MsgHandle).StartOneWorker (h, id, q): ref(h) == ref(m) and id == ntrace() - 1 and q == m.TaskQueue[id] and q != nil
  template[range] (i: int): 0 <= i <= m.WorkerPoolSize and ntrace() == i
  template[started] (i: int): forall(lambda j: implies(0 <= j < i, m.TaskQueue[j] != nil))
  ensures[all-started] ntrace() == m.WorkerPoolSize and forall(lambda j: implies(0 <= j < m.WorkerPoolSize, m.TaskQueue[j] != nil))
def full(s, lo, hi) = forall(lambda j: iff(j in s, lo <= j < hi))
func znet.newMsgHandle () -> (m)
  property C10
  requires G != nil and 0 <= G.MaxConn < 2**31 and implies(dynamic, G.MaxConn >= G.WorkerPoolSize)
  modifies G.WorkerPoolSize
  template[free] (i: uint32, s: any map[uint32]struct{}): 0 <= i and full(s, 0, i)
  template[extra] (i: uint32, s: any map[uint32]struct{}): G.WorkerPoolSize <= i and full(s, G.WorkerPoolSize, i)
  template[extra2] (i: uint32, s: any map[uint32]struct{}): G.WorkerPoolSize <= i and i <= G.MaxConn
  template[free2] (i: uint32): 0 <= i and i <= G.WorkerPoolSize
  ensures[size] fresh(m) and m.WorkerPoolSize == (G.MaxConn if bind else old(G.WorkerPoolSize)) and len(m.TaskQueue) == (G.MaxConn if bind or dynamic else m.WorkerPoolSize)
  ensures[own-sets] apart(m)
  ensures[all-free] implies(bind or dynamic, full(m.freeWorkers, 0, m.WorkerPoolSize))
  ensures[extra-free] implies(dynamic, full(m.extraFreeWorkers, m.WorkerPoolSize, G.MaxConn))
