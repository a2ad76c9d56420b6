# The interceptor chain.
iface ziface.IInterceptor.Intercept (i, chain) -> (r)
  trusted a user interceptor may do anything; the property speaks of how it is called and what its result becomes
  event intercept(i, chain, r.pay)
  modifies everything
  ensures r.tag == gh(i, "resptag")
iface ziface.IRequest.SetResponse (q, resp)
  trusted recorded as an event; stores the decoded value in the request (C22 verifies the implementation)
  event setresponse(q, resp.tag, resp)
iface ziface.IRequest.GetMessage (q) -> (m)
  trusted the request's message
  pure
  ensures m.pay == gh(q, "msg") and m.tag == gh(q, "msgtag")

def called(i, r) = ev(ntrace() - 1, "intercept", i, ..., r.pay) and r.tag == gh(i, "resptag")
def nextchain(ch, c, req) = typeis(ch, "*zinterceptor.Chain") and ch.position == old(c.position) + 1 and ch.interceptors == old(c.interceptors) and ch.req == req and fresh(ch)

func zinterceptor.NewChain (list, pos, req) -> (x)
  property C06
  inline
  ensures[fields] typeis(x, "*zinterceptor.Chain") and x.position == pos and x.interceptors == list and x.req == req
func (*zinterceptor.Chain).Request (c) -> (r)
  property C06
  inline
  requires c != nil
  ensures[value] r == c.req
func (*zinterceptor.Chain).Proceed (c, request) -> (r)
  property C06
  inline
  option noframe
  requires c != nil and c.position >= 0 and c.position < 2**62
  requires forall(lambda i: implies(0 <= i < len(c.interceptors), c.interceptors[i] != nil))
  oncall[next-interceptor] ziface.IInterceptor.Intercept (i, ch): old(c.position) < old(len(c.interceptors)) and ntrace() == 0 and i == old(c.interceptors[c.position])
  oncall[next-chain] ziface.IInterceptor.Intercept (i, ch): nextchain(ch, c, request)
  ensures[once] implies(old(c.position) < old(len(c.interceptors)), ntrace() == 1 and called(old(c.interceptors[c.position]), r))
  ensures[end] implies(old(c.position) >= old(len(c.interceptors)), ntrace() == 0 and r == request)
func (*zinterceptor.Chain).ShouldIRequest (c, q) -> (r)
  property C06
  inline
  requires c != nil
  ensures[same] r == nil or r == q
func (*zinterceptor.Chain).GetIMessage (c) -> (m)
  property C06
  inline
  requires c != nil and (True or typeis(c.req, "*znet.Request"))
  ensures[none] implies(c.req == nil, m == nil)
  ensures[message] m == nil or (m.pay == gh(c.req, "msg") and m.tag == gh(c.req, "msgtag"))
  ensures[request] implies(typeis(c.req, "*znet.Request"), m.pay == gh(c.req, "msg") and m.tag == gh(c.req, "msgtag"))
func (*zinterceptor.Chain).ProceedWithIMessage (c, m, resp) -> (r)
  property C06
  option noframe
  requires c != nil and c.position >= 0 and c.position < 2**62
  requires forall(lambda i: implies(0 <= i < len(c.interceptors), c.interceptors[i] != nil))
  requires c.req == nil or typeis(c.req, "*znet.Request")
  oncall[next-interceptor] ziface.IInterceptor.Intercept (i, ch): old(c.position) < old(len(c.interceptors)) and i == old(c.interceptors[c.position])
  oncall[next-chain] ziface.IInterceptor.Intercept (i, ch): nextchain(ch, c, old(c.req))
  oncall[value-attached] ziface.IInterceptor.Intercept (i, ch): implies(m != nil and resp != nil and old(c.req) != nil, ntrace() == 1 and ev(0, "setresponse", old(c.req), resp.tag, resp))
  oncall[value-untouched] ziface.IInterceptor.Intercept (i, ch): implies(m == nil or resp == nil or old(c.req) == nil, ntrace() == 0)
  ensures[once] implies(old(c.position) < old(len(c.interceptors)), called(old(c.interceptors[c.position]), r) and ntrace() == (2 if m != nil and resp != nil and old(c.req) != nil else 1))
  ensures[end] implies(old(c.position) >= old(len(c.interceptors)), r == old(c.req) and ntrace() == (1 if m != nil and resp != nil and old(c.req) != nil else 0))

def nh(ic) = 1 if ic.head != nil else 0
def nt(ic) = 1 if ic.tail != nil else 0
func znet.newChainBuilder () -> (b)
  property C06
  inline
  ensures[empty] b.head == nil and b.tail == nil and len(b.body) == 0 and fresh(b) and fresh(b.body)
func (*znet.chainBuilder).Head (ic, i)
  property C06
  inline
  requires ic != nil
  modifies ic.head
  ensures[set] ic.head == i
func (*znet.chainBuilder).Tail (ic, i)
  property C06
  inline
  requires ic != nil
  modifies ic.tail
  ensures[set] ic.tail == i
func (*znet.chainBuilder).AddInterceptor (ic, i)
  property C06
  inline
  requires ic != nil and len(ic.body) < 2**40
  modifies ic.body, elems(ic.body)
  ensures[appended] len(ic.body) == old(len(ic.body)) + 1 and ic.body[len(ic.body) - 1] == i
  ensures[kept] seqeq(ic.body, 0, old(snap(ic.body)), 0, old(len(ic.body)))
func (*znet.chainBuilder).Execute (ic, req) -> (r)
  property C06
  inline
  option noframe
  requires ic != nil and len(ic.body) < 2**40
  requires forall(lambda i: implies(0 <= i < len(ic.body), ic.body[i] != nil))
  oncall[starts-at-first] ziface.IInterceptor.Intercept (i, ch): ntrace() == 0 and typeis(ch, "*zinterceptor.Chain") and ch.position == 1 and ch.req == req and i == ch.interceptors[0]
  oncall[number] ziface.IInterceptor.Intercept (i, ch): len(ch.interceptors) == nh(ic) + len(ic.body) + nt(ic)
  oncall[head-first] ziface.IInterceptor.Intercept (i, ch): implies(ic.head != nil, ch.interceptors[0] == ic.head)
  oncall[added-in-order] ziface.IInterceptor.Intercept (i, ch): seqeq(ch.interceptors, nh(ic), ic.body, 0, len(ic.body))
  oncall[tail-last] ziface.IInterceptor.Intercept (i, ch): implies(ic.tail != nil, ch.interceptors[len(ch.interceptors) - 1] == ic.tail)
  oncall[own-list] ziface.IInterceptor.Intercept (i, ch): fresh(ch.interceptors)
  oncall[builder-unchanged] ziface.IInterceptor.Intercept (i, ch): ic.head == old(ic.head) and ic.tail == old(ic.tail) and ic.body == old(ic.body) and seqeq(ic.body, 0, old(snap(ic.body)), 0, len(ic.body))
  template[copy] (n: int, acc: []ziface.IInterceptor): len(acc) == nh(ic) + n and (fresh(acc) or len(acc) == 0) and seqeq(acc, nh(ic), ic.body, 0, n) and implies(ic.head != nil, acc[0] == ic.head)
  ensures[response] implies(old(nh(ic) + len(ic.body) + nt(ic)) > 0, ntrace() == 1 and ev(0, "intercept", ..., ..., r.pay))
  ensures[empty] implies(old(nh(ic) + len(ic.body) + nt(ic)) == 0, ntrace() == 0 and r == req)

func (*znet.MsgHandle).AddInterceptor (mh, i)
  property C06
  requires mh != nil and implies(mh.builder != nil, len(mh.builder.body) < 2**40)
  modifies mh.builder.body, elems(mh.builder.body)
  ensures[appended] implies(mh.builder != nil, len(mh.builder.body) == old(len(mh.builder.body)) + 1 and mh.builder.body[len(mh.builder.body) - 1] == i and seqeq(mh.builder.body, 0, old(snap(mh.builder.body)), 0, old(len(mh.builder.body))))
func (*znet.MsgHandle).SetHeadInterceptor (mh, i)
  property C06
  requires mh != nil
  modifies mh.builder.head
  ensures[set] implies(mh.builder != nil, mh.builder.head == i)
func (*znet.MsgHandle).Execute (mh, req)
  property C06
  option noframe
  requires mh != nil and mh.builder != nil and len(mh.builder.body) < 2**40 and forall(lambda i: implies(0 <= i < len(mh.builder.body), mh.builder.body[i] != nil))
  oncall[whole-chain] ziface.IInterceptor.Intercept (i, ch): ntrace() == 0 and ch.position == 1 and ch.req.pay == req.pay and ch.req.tag == req.tag and len(ch.interceptors) == nh(mh.builder) + len(mh.builder.body) + nt(mh.builder)
  template[copy] (n: int, acc: []ziface.IInterceptor): len(acc) == nh(mh.builder) + n and (fresh(acc) or len(acc) == 0) and seqeq(acc, nh(mh.builder), mh.builder.body, 0, n) and implies(mh.builder.head != nil, acc[0] == mh.builder.head)
  ensures[once] implies(old(nh(mh.builder) + len(mh.builder.body) + nt(mh.builder)) > 0, ntrace() == 1)
