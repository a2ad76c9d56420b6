# Close callbacks: a singly linked list with a tail pointer.  S[0..n) are the nodes of the list (any list: S, n and the
# index function are logical variables, fixed by the precondition), in registration order.
def S = logical("S")
def n = logicalint("n")
def idx = logical("idx")
def node(i) = ptr(S[i], "*znet.callbackCommon")
def list(t) = n >= 0 and ref(t.first) == (0 if n == 0 else S[0]) and implies(n > 0, ref(t.last) == S[n - 1]) and forall(lambda i: implies(0 <= i < n, S[i] > 0 and idx[S[i]] == i and ref(node(i).next) == (S[i + 1] if i + 1 < n else 0)))
def at(cb) = n if cb == nil else idx[ref(cb)]
def match(i, h, k) = node(i).handler == h and node(i).key == k
def same(t, o) = ref(t.first) == ref(o.first) and ref(t.last) == ref(o.last) and forall(lambda i: implies(0 <= i < n, ref(node(i).next) == (S[i + 1] if i + 1 < n else 0)))
def appended(t, h, k, f) = ref(t.first) == (ref(t.last) if n == 0 else S[0]) and t.last != nil and fresh(t.last) and t.last.next == nil and t.last.handler == h and t.last.key == k and fnid(t.last.call) == fnid(f) and forall(lambda i: implies(0 <= i < n, ref(node(i).next) == (S[i + 1] if i + 1 < n else ref(t.last))))
def firstmatch(m, h, k) = 0 <= m < n and match(m, h, k) and forall(lambda j: implies(0 <= j < m, not match(j, h, k)))
def succ(i, m) = (i + 2 if i + 1 == m else i + 1)
def cut(t, m) = ref(t.first) == ((S[1] if n > 1 else 0) if m == 0 else S[0]) and implies(n > 1, ref(t.last) == (S[n - 2] if m == n - 1 else S[n - 1])) and forall(lambda i: implies(0 <= i < n and i != m, ref(node(i).next) == (S[succ(i, m)] if succ(i, m) < n else 0)))
functype func() (f)
  trusted a close callback: recorded as an event; assumed to return and not to change the callback list it is called from
  event call(fnid(f))

func (*znet.callbacks).Add (t, h, k, f)
  property C19
  inline
  requires t != nil and list(t)
  modifies t.first, t.last, any znet.callbackCommon.next
  ensures[appended] implies(f != nil, appended(t, h, k, f))
  ensures[nil-ignored] implies(f == nil, same(t, old(deref(t))))
func (*znet.callbacks).Remove (t, h, k)
  property C19
  inline
  requires t != nil and list(t)
  modifies t.first, t.last, any znet.callbackCommon.next
  template[at] (cb: *znet.callbackCommon): 0 <= at(cb) <= n and implies(cb != nil, at(cb) < n and S[at(cb)] == ref(cb))
  template[prev] (p: *znet.callbackCommon, cb: *znet.callbackCommon): ref(p) == (0 if at(cb) == 0 else S[at(cb) - 1])
  template[none-yet] (cb: *znet.callbackCommon): forall(lambda j: implies(0 <= j < at(cb), not match(j, h, k)))
  ensures[first-match-cut-out] forall(lambda m: implies(firstmatch(m, h, k), cut(t, m)))
  ensures[no-match-no-change] implies(forall(lambda j: implies(0 <= j < n, not match(j, h, k))), same(t, old(deref(t))))
func (*znet.callbacks).Invoke (t)
  property C19
  inline
  requires t != nil and list(t) and forall(lambda i: implies(0 <= i < n, node(i).call != nil))
  modifies trace
  template[at] (cb: *znet.callbackCommon): 0 <= at(cb) <= n and implies(cb != nil, at(cb) < n and S[at(cb)] == ref(cb))
  template[calls] (cb: *znet.callbackCommon): ntrace() == at(cb) and forall(lambda j: implies(0 <= j < at(cb), ev(j, "call", fnid(node(j).call))))
  ensures[each-once] ntrace() == n
  ensures[in-order] forall(lambda j: implies(0 <= j < n, ev(j, "call", fnid(node(j).call))))
func (*znet.callbacks).Count (t) -> (c)
  property C19
  inline
  requires t != nil and list(t) and n < 2**62
  template[at] (cb: *znet.callbackCommon): 0 <= at(cb) <= n and implies(cb != nil, at(cb) < n and S[at(cb)] == ref(cb))
  template[count] (c: int, cb: *znet.callbackCommon): c == at(cb)
  ensures[exact] c == n
iface context.Context.Err (c) -> (e)
  trusted a context's Err is non-nil exactly when it is done
  pure
  ensures iff(e != nil, gh(c, "done") != 0)
type znet.Connection
  lock closeCallbackMutex guards closeCallback
func (*znet.Connection).AddCloseCallback (s, h, k, f)
  property C19
  requires s != nil and list(s.closeCallback)
  modifies s.closeCallback, any znet.callbackCommon.next
  ensures[appended] implies(f != nil and not (s.ctx == nil or gh(s.ctx, "done") != 0), appended(s.closeCallback, h, k, f))
  ensures[ignored] implies(f == nil or (s.ctx == nil or gh(s.ctx, "done") != 0), same(s.closeCallback, old(s.closeCallback)))
func (*znet.Connection).RemoveCloseCallback (s, h, k)
  property C19
  requires s != nil and list(s.closeCallback)
  modifies s.closeCallback, any znet.callbackCommon.next
  template[at] (cb: *znet.callbackCommon): 0 <= at(cb) <= n and implies(cb != nil, at(cb) < n and S[at(cb)] == ref(cb))
  template[prev] (p: *znet.callbackCommon, cb: *znet.callbackCommon): ref(p) == (0 if at(cb) == 0 else S[at(cb) - 1])
  template[none-yet] (cb: *znet.callbackCommon): forall(lambda j: implies(0 <= j < at(cb), not match(j, h, k)))
  ensures[first-match-cut-out] forall(lambda m: implies(not (s.ctx == nil or gh(s.ctx, "done") != 0) and firstmatch(m, h, k), cut(s.closeCallback, m)))
  ensures[no-match-no-change] implies((s.ctx == nil or gh(s.ctx, "done") != 0) or forall(lambda j: implies(0 <= j < n, not match(j, h, k))), same(s.closeCallback, old(s.closeCallback)))
func (*znet.Connection).InvokeCloseCallbacks (s)
  property C19
  requires s != nil and list(s.closeCallback) and forall(lambda i: implies(0 <= i < n, node(i).call != nil))
  modifies trace
  template[at] (cb: *znet.callbackCommon): 0 <= at(cb) <= n and implies(cb != nil, at(cb) < n and S[at(cb)] == ref(cb))
  template[calls] (cb: *znet.callbackCommon): ntrace() == at(cb) and forall(lambda j: implies(0 <= j < at(cb), ev(j, "call", fnid(node(j).call))))
  ensures[each-once] ntrace() == n
  ensures[in-order] forall(lambda j: implies(0 <= j < n, ev(j, "call", fnid(node(j).call))))
type znet.WsConnection
  lock closeCallbackMutex guards closeCallback
func (*znet.WsConnection).AddCloseCallback (s, h, k, f)
  property C19
  requires s != nil and list(s.closeCallback)
  modifies s.closeCallback, any znet.callbackCommon.next
  ensures[appended] implies(f != nil and not s.isClosed, appended(s.closeCallback, h, k, f))
  ensures[ignored] implies(f == nil or s.isClosed, same(s.closeCallback, old(s.closeCallback)))
func (*znet.WsConnection).RemoveCloseCallback (s, h, k)
  property C19
  requires s != nil and list(s.closeCallback)
  modifies s.closeCallback, any znet.callbackCommon.next
  template[at] (cb: *znet.callbackCommon): 0 <= at(cb) <= n and implies(cb != nil, at(cb) < n and S[at(cb)] == ref(cb))
  template[prev] (p: *znet.callbackCommon, cb: *znet.callbackCommon): ref(p) == (0 if at(cb) == 0 else S[at(cb) - 1])
  template[none-yet] (cb: *znet.callbackCommon): forall(lambda j: implies(0 <= j < at(cb), not match(j, h, k)))
  ensures[first-match-cut-out] forall(lambda m: implies(not s.isClosed and firstmatch(m, h, k), cut(s.closeCallback, m)))
  ensures[no-match-no-change] implies(s.isClosed or forall(lambda j: implies(0 <= j < n, not match(j, h, k))), same(s.closeCallback, old(s.closeCallback)))
func (*znet.WsConnection).InvokeCloseCallbacks (s)
  property C19
  requires s != nil and list(s.closeCallback) and forall(lambda i: implies(0 <= i < n, node(i).call != nil))
  modifies trace
  template[at] (cb: *znet.callbackCommon): 0 <= at(cb) <= n and implies(cb != nil, at(cb) < n and S[at(cb)] == ref(cb))
  template[calls] (cb: *znet.callbackCommon): ntrace() == at(cb) and forall(lambda j: implies(0 <= j < at(cb), ev(j, "call", fnid(node(j).call))))
  ensures[each-once] ntrace() == n
  ensures[in-order] forall(lambda j: implies(0 <= j < n, ev(j, "call", fnid(node(j).call))))
type znet.KcpConnection
  lock closeCallbackMutex guards closeCallback
func (*znet.KcpConnection).AddCloseCallback (s, h, k, f)
  property C19
  requires s != nil and list(s.closeCallback)
  modifies s.closeCallback, any znet.callbackCommon.next
  ensures[appended] implies(f != nil and not s.closed != 0, appended(s.closeCallback, h, k, f))
  ensures[ignored] implies(f == nil or s.closed != 0, same(s.closeCallback, old(s.closeCallback)))
func (*znet.KcpConnection).RemoveCloseCallback (s, h, k)
  property C19
  requires s != nil and list(s.closeCallback)
  modifies s.closeCallback, any znet.callbackCommon.next
  template[at] (cb: *znet.callbackCommon): 0 <= at(cb) <= n and implies(cb != nil, at(cb) < n and S[at(cb)] == ref(cb))
  template[prev] (p: *znet.callbackCommon, cb: *znet.callbackCommon): ref(p) == (0 if at(cb) == 0 else S[at(cb) - 1])
  template[none-yet] (cb: *znet.callbackCommon): forall(lambda j: implies(0 <= j < at(cb), not match(j, h, k)))
  ensures[first-match-cut-out] forall(lambda m: implies(not s.closed != 0 and firstmatch(m, h, k), cut(s.closeCallback, m)))
  ensures[no-match-no-change] implies(s.closed != 0 or forall(lambda j: implies(0 <= j < n, not match(j, h, k))), same(s.closeCallback, old(s.closeCallback)))
func (*znet.KcpConnection).InvokeCloseCallbacks (s)
  property C19
  requires s != nil and list(s.closeCallback) and forall(lambda i: implies(0 <= i < n, node(i).call != nil))
  modifies trace
  template[at] (cb: *znet.callbackCommon): 0 <= at(cb) <= n and implies(cb != nil, at(cb) < n and S[at(cb)] == ref(cb))
  template[calls] (cb: *znet.callbackCommon): ntrace() == at(cb) and forall(lambda j: implies(0 <= j < at(cb), ev(j, "call", fnid(node(j).call))))
  ensures[each-once] ntrace() == n
  ensures[in-order] forall(lambda j: implies(0 <= j < n, ev(j, "call", fnid(node(j).call))))
