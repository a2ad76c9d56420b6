# Asynchronous operations: keyed workers and results handed back to the connection's worker.
iface ziface.IConnection.GetMsgHandler (c) -> (h)
  trusted a connection's message handler is fixed when it is made
  pure
  ensures h != nil and h.pay == gh(c, "mh") and h.pay != 0
iface ziface.IMsgHandle.SendMsgToTaskQueue (h, q)
  trusted the request goes into the queue of the worker of its connection (C09); recorded
  event handover(h.pay, q.pay)
functype func() (f)
  trusted a user's operation may do anything else, and may panic; counted
  modifies ghost 0.ran
  ensures gh(0, "ran") == old(gh(0, "ran")) + 1
  onpanic gh(0, "ran") == old(gh(0, "ran")) + 1
# results. r, c: 0 nothing, 1 being written, 2 written; k: 1 the callback has been handed over.
# gh(a,"rother"), gh(a,"cother"), gh(a,"kother"): that step was taken by another goroutine.
def r(a) = a.hasReturnedObj
def c(a) = a.hasCompleteFunc
def k(a) = a.completeFuncHasAlreadyBeenCalled
def bit(x) = x == 0 or x == 1
def good(a) = 0 <= r(a) <= 2 and 0 <= c(a) <= 2 and bit(k(a)) and implies(k(a) == 1, r(a) == 2 and c(a) == 2 and a.completeFunc != nil) and bit(gh(a, "rother")) and bit(gh(a, "cother")) and bit(gh(a, "kother")) and implies(gh(a, "rother") == 1, r(a) != 0) and implies(gh(a, "cother") == 1, c(a) != 0) and implies(gh(a, "kother") == 1, k(a) == 1)
def begin(a) = good(a) and a.conn != nil and iff(gh(a, "rother") == 1, r(a) != 0) and iff(gh(a, "cother") == 1, c(a) != 0) and iff(gh(a, "kother") == 1, k(a) == 1) and gh(a, "miss") == 0
def kept(a) = implies(old(r(a)) == 2, a.returnedObj == old(a.returnedObj)) and implies(old(c(a)) == 2, fnid(a.completeFunc) == fnid(old(a.completeFunc))) and r(a) >= old(r(a)) and c(a) >= old(c(a)) and k(a) >= old(k(a))
def rmine(a) = implies(old(r(a)) != 0 and old(gh(a, "rother")) == 0, r(a) == old(r(a)) and gh(a, "rother") == 0 and a.returnedObj == old(a.returnedObj))
def cmine(a) = implies(old(c(a)) != 0 and old(gh(a, "cother")) == 0, c(a) == old(c(a)) and gh(a, "cother") == 0 and fnid(a.completeFunc) == fnid(old(a.completeFunc)))
def kmine(a) = implies(old(k(a)) == 1, gh(a, "kother") == old(gh(a, "kother")))
def theirs(a) = implies(old(r(a)) == 0 and r(a) != 0, gh(a, "rother") == 1) and implies(old(c(a)) == 0 and c(a) != 0, gh(a, "cother") == 1) and implies(old(k(a)) == 0 and k(a) == 1, gh(a, "kother") == 1) and gh(a, "rother") >= old(gh(a, "rother")) and gh(a, "cother") >= old(gh(a, "cother")) and gh(a, "kother") >= old(gh(a, "kother"))
def asked(q, a) = typeis(q, "*znet.RequestFunc") and ptr(q.pay, "*znet.RequestFunc").conn == a.conn and fnid(ptr(q.pay, "*znet.RequestFunc").callFunc) == fnid(a.completeFunc)
func (*zasync_op.AsyncOpResult).SetReturnedObj (a, val)
  property C18
  option noframe
  requires a != nil and begin(a)
  rely (a.hasReturnedObj, a.hasCompleteFunc, a.completeFuncHasAlreadyBeenCalled, a.returnedObj, a.completeFunc, ghost a.rother, ghost a.cother, ghost a.kother): good(a) and kept(a) and rmine(a) and cmine(a) and kmine(a) and theirs(a)
  # miss: at some moment after this goroutine published the result there was no callback yet
  ghoston atomic (): a.miss := 1 if gh(a, "miss") == 1 or (gh(a, "rother") == 0 and r(a) == 2 and c(a) != 2) else 0
  oncall[handed-when-ready] ziface.IMsgHandle.SendMsgToTaskQueue (h, q): r(a) == 2 and c(a) == 2 and k(a) == 1 and gh(a, "kother") == 0 and a.completeFunc != nil and h.pay == gh(a.conn, "mh") and asked(q, a)
  ensures[at-most-once] ntrace() <= 1 and iff(ntrace() == 1, k(a) == 1 and gh(a, "kother") == 0) and implies(ntrace() == 1, ev(0, "handover"))
  ensures[first-result-wins] implies(old(r(a)) == 2, a.returnedObj == old(a.returnedObj)) and implies(gh(a, "rother") == 0, r(a) == 2 and a.returnedObj == val)
  ensures[handed] implies(gh(a, "rother") == 0, k(a) == 1 or gh(a, "miss") == 1 or (c(a) == 2 and a.completeFunc == nil))
  ensures[guarantee] good(a) and r(a) != 0
func (*zasync_op.AsyncOpResult).OnComplete (a, f)
  property C18
  option noframe
  requires a != nil and begin(a)
  rely (a.hasReturnedObj, a.hasCompleteFunc, a.completeFuncHasAlreadyBeenCalled, a.returnedObj, a.completeFunc, ghost a.rother, ghost a.cother, ghost a.kother): good(a) and kept(a) and rmine(a) and cmine(a) and kmine(a) and theirs(a)
  # miss: at some moment after this goroutine published the callback there was no result yet
  ghoston atomic (): a.miss := 1 if gh(a, "miss") == 1 or (gh(a, "cother") == 0 and c(a) == 2 and r(a) != 2) else 0
  oncall[handed-when-ready] ziface.IMsgHandle.SendMsgToTaskQueue (h, q): r(a) == 2 and c(a) == 2 and k(a) == 1 and gh(a, "kother") == 0 and a.completeFunc != nil and h.pay == gh(a.conn, "mh") and asked(q, a)
  ensures[at-most-once] ntrace() <= 1 and iff(ntrace() == 1, k(a) == 1 and gh(a, "kother") == 0) and implies(ntrace() == 1, ev(0, "handover"))
  ensures[first-callback-wins] implies(old(c(a)) == 2, fnid(a.completeFunc) == fnid(old(a.completeFunc))) and implies(gh(a, "cother") == 0, c(a) == 2 and fnid(a.completeFunc) == fnid(f))
  ensures[handed] implies(gh(a, "cother") == 0 and f != nil, k(a) == 1 or gh(a, "miss") == 1)
  ensures[guarantee] good(a) and c(a) != 0
# The setter publishes the result at time tr, the registrar the callback at time tc; both can not have missed each other.
lemma[no-lost-callback] C18 (tr, tc, sr, sc): tr <= sr and sr < tc and True ==> not (tc <= sc and sc < tr)
func zasync_op.NewAsyncOpResult (conn) -> (a)
  property C18
  ensures[empty] fresh(a) and a.conn == conn and r(a) == 0 and c(a) == 0 and k(a) == 0 and a.completeFunc == nil
func (*zasync_op.AsyncOpResult).GetReturnedObj (a) -> (o)
  property C18
  requires a != nil
  ensures[the-result] o == a.returnedObj
# workers
def W(i) = glob("zasync_op.asyncWorkerArray")[i]
def idx(o) = (0 - o) % 2048 if o < 0 else o % 2048
def made(i) = gh(i, "once_onceArray") == 1
def ready(i) = implies(made(i), W(i) != nil and W(i).taskQ != nil)
func zasync_op.getCurWorker (o) -> (w)
  property C18
  requires forall(lambda i: implies(0 <= i < 2048, ready(i)))
  modifies global zasync_op.asyncWorkerArray, anyghost once_onceArray, trace
  oncall[its-loop] go:(*zasync_op.AsyncWorker).loopExecTask (x): ref(x) == ref(W(idx(o))) and x != nil and not old(made(idx(o)))
  ensures[worker] w != nil and w.taskQ != nil and w == W(idx(o)) and made(idx(o))
  ensures[same-key-same-worker] implies(old(made(idx(o))), w == old(W(idx(o))) and ntrace() == 0)
  ensures[started-once] implies(not old(made(idx(o))), ntrace() == 1 and ev(0, "go:(*zasync_op.AsyncWorker).loopExecTask") and fresh(w))
  ensures[others] forall(lambda i: implies(0 <= i < 2048 and i != idx(o), W(i) == old(W(i)) and iff(made(i), old(made(i)))))
  ensures[all-ready] forall(lambda i: implies(0 <= i < 2048, ready(i)))
func (*zasync_op.AsyncWorker).process (w, op)
  property C18
  option runsent noframe
  requires w != nil and w.taskQ != nil and gh(0, "ran") == 0
  modifies trace, ghost 0.ran
  oncall[the-operation] func() (f): fnid(f) == fnid(op) and gh(0, "ran") == 0 and ntrace() == 1
  ensures[queued-then-run-once] implies(op != nil, ntrace() == 1 and ev(0, "send", w.taskQ) and gh(0, "ran") == 1)
  ensures[nil-nothing] implies(op == nil, ntrace() == 0 and gh(0, "ran") == 0)
func zasync_op.Process (o, op)
  property C18
  option inlines=process runsent noframe
  requires forall(lambda i: implies(0 <= i < 2048, ready(i))) and gh(0, "ran") == 0
  modifies global zasync_op.asyncWorkerArray, anyghost once_onceArray, trace, ghost 0.ran
  oncall[the-operation] func() (f): fnid(f) == fnid(op) and gh(0, "ran") == 0
  ensures[nil-nothing] implies(op == nil, ntrace() == 0 and gh(0, "ran") == 0)
  ensures[in-its-worker] implies(op != nil and old(made(idx(o))), ntrace() == 1 and ev(0, "send", old(W(idx(o)).taskQ)) and gh(0, "ran") == 1)
  ensures[in-new-worker] implies(op != nil and not old(made(idx(o))), gh(0, "ran") == 1 and ntrace() > 0 and ev(ntrace() - 1, "send", W(idx(o)).taskQ))
# the operations the loop takes out are those process put in: none of them panics
func (*zasync_op.AsyncWorker).loopExecTask (w)
  property C18
  option noreturn
  requires w != nil and nrecv(w.taskQ) == 0 and chanlen(w.taskQ) >= 0 and gh(0, "ran") == 0
  requires forall(lambda i: implies(0 <= i < chanlen(w.taskQ), chanat(w.taskQ, i) != nil))
  modifies trace, ghost 0.ran
  oncall[next-in-order] func() (f): fnid(f) == fnid(chanat(w.taskQ, nrecv(w.taskQ) - 1)) and gh(0, "ran") == nrecv(w.taskQ) - 1
  template[in-order] (): 0 <= nrecv(w.taskQ) and nrecv(w.taskQ) <= chanlen(w.taskQ) and gh(0, "ran") == nrecv(w.taskQ)
  onpanic[only-a-task] gh(0, "ran") > 0 or chanlen(w.taskQ) == 0
