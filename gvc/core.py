"""Symbolic values, states and the SMT layer of the gvc verifier."""
import heapq
import itertools
import time
import z3

I, B, R = z3.IntSort(), z3.BoolSort(), z3.RealSort()
S = z3.DeclareSort("Str")
AI = z3.ArraySort(I, I)


def sort(c):
    if c[0] == "A":
        return z3.ArraySort(I, sort(c[1:]))
    return {"I": I, "B": B, "S": S, "R": R}[c]


_ev = z3.Datatype("Ev")
_ev.declare("mk", ("kind", I), ("a", I), ("b", I), ("c", I))
Ev = _ev.create()
EvArr = z3.ArraySort(I, Ev)

slen = z3.Function("slen", S, I)
strid = z3.Function("strid", S, I)
unstrid = z3.Function("unstrid", I, S)
sbyte = z3.Function("sbyte", S, AI)
sconcat = z3.Function("sconcat", S, S, S)
ssub = z3.Function("ssub", S, I, I, S)

gdiv = z3.Function("gdiv", I, I, I)     # quotient and remainder of non-negative by positive
gmod = z3.Function("gmod", I, I, I)


def divfacts(x, y):
    """what gdiv(x, y) and gmod(x, y) mean, and their values where x is written a*y + b"""
    q, r = gdiv(x, y), gmod(x, y)
    fs = [z3.Implies(z3.And(x >= 0, y > 0), z3.And(x == q * y + r, r >= 0, r < y, q >= 0, q <= x))]
    parts = x.children() if z3.is_add(x) else [x]
    for i, m in enumerate(parts):
        if not z3.is_mul(m):
            continue
        fac = m.children()
        for j, f in enumerate(fac):
            if f.eq(y):
                rest = fac[:j] + fac[j + 1:]
                a = rest[0] if len(rest) == 1 else z3.Product(rest)
                oth = parts[:i] + parts[i + 1:]
                b = z3.IntVal(0) if not oth else oth[0] if len(oth) == 1 else z3.Sum(oth)
                fs.append(z3.Implies(z3.And(y > 0, a >= 0, b >= 0, b < y), z3.And(q == a, r == b)))
    return fs


_ctr = itertools.count(1)
_born = {}


def fresh_n():
    return next(_ctr)


def fresh(srt, hint="v"):
    n = next(_ctr)
    c = z3.Const("%s!%d" % (hint, n), srt)
    _born[c.get_id()] = (n, c)
    return c


def now():
    return next(_ctr)


_consts_cache = {}


def newest(e):
    """largest birth number among the constants of e (0 if none)"""
    k = e.get_id()
    r = _consts_cache.get(k)
    if r is not None:
        return r[0]
    seen, st, m = set(), [e], 0
    while st:
        x = st.pop()
        i = x.get_id()
        if i in seen:
            continue
        seen.add(i)
        b = _born.get(i)
        if b:
            m = max(m, b[0])
        st.extend(x.children())
    _consts_cache[k] = (m, e)
    return m


def iv(n):
    return z3.IntVal(n)


def isn(e):
    return z3.is_int_value(e)


def simp(e):
    return z3.simplify(e)


def add(a, b):
    if isn(a) and isn(b):
        return iv(a.as_long() + b.as_long())
    if isn(b) and b.as_long() == 0:
        return a
    if isn(a) and a.as_long() == 0:
        return b
    # (x + c1) + c2
    if isn(b) and z3.is_add(a) and a.num_args() == 2 and isn(a.arg(1)):
        return add(a.arg(0), iv(a.arg(1).as_long() + b.as_long()))
    return a + b


def sub(a, b):
    if isn(b):
        return add(a, iv(-b.as_long()))
    if a.eq(b):
        return iv(0)
    if z3.is_add(a) and a.num_args() == 2 and a.arg(0).eq(b) :
        return a.arg(1)
    return a - b


def And(*xs):
    xs = [x for x in xs if not z3.is_true(x)]
    if any(z3.is_false(x) for x in xs):
        return z3.BoolVal(False)
    if not xs:
        return z3.BoolVal(True)
    if len(xs) == 1:
        return xs[0]
    return z3.And(*xs)


def Or(*xs):
    xs = [x for x in xs if not z3.is_false(x)]
    if any(z3.is_true(x) for x in xs):
        return z3.BoolVal(True)
    if not xs:
        return z3.BoolVal(False)
    if len(xs) == 1:
        return xs[0]
    return z3.Or(*xs)


def Not(x):
    if z3.is_true(x):
        return z3.BoolVal(False)
    if z3.is_false(x):
        return z3.BoolVal(True)
    if z3.is_not(x):
        return x.arg(0)
    return z3.Not(x)


def Implies(a, b):
    if z3.is_true(a):
        return b
    if z3.is_false(a) or z3.is_true(b):
        return z3.BoolVal(True)
    return z3.Implies(a, b)


def eq(a, b):
    if a.eq(b):
        return z3.BoolVal(True)
    if isn(a) and isn(b):
        return z3.BoolVal(a.as_long() == b.as_long())
    return a == b


def If(c, a, b):
    if z3.is_true(c) or (z3.is_expr(a) and z3.is_expr(b) and a.eq(b)):
        return a
    if z3.is_false(c):
        return b
    return z3.If(c, a, b)


def sel(a, i):
    """select with cheap store-chain resolution"""
    while z3.is_app_of(a, z3.Z3_OP_STORE):
        k = a.arg(1)
        if k.eq(i):
            return a.arg(2)
        if definitely_ne(k, i):
            a = a.arg(0)
            continue
        break
    if z3.is_app_of(a, z3.Z3_OP_CONST_ARRAY):
        return a.arg(0)
    return z3.Select(a, i)


def definitely_ne(a, b):
    if isn(a) and isn(b):
        return a.as_long() != b.as_long()
    pa, ca = split(a)
    pb, cb = split(b)
    if pa is not None and pb is not None and pa.eq(pb):
        return ca != cb
    return False


def split(e):
    if z3.is_add(e) and e.num_args() == 2 and isn(e.arg(1)):
        return e.arg(0), e.arg(1).as_long()
    if isn(e):
        return None, e.as_long()
    return e, 0


def store(a, i, v):
    if z3.is_app_of(a, z3.Z3_OP_STORE) and a.arg(1).eq(i):
        a = a.arg(0)
    return z3.Store(a, i, v)


_quant_cache = {}


def has_quant(e):
    k = e.get_id()
    r = _quant_cache.get(k)
    if r is not None:
        return r[0]
    seen, st = {}, [e]
    while st:
        x = st.pop()
        i = x.get_id()
        if i in seen:
            continue
        r = _quant_cache.get(i)
        if r is not None:
            if r[0]:
                _quant_cache[k] = (True, e)
                return True
            continue
        if z3.is_quantifier(x):
            _quant_cache[k] = _quant_cache[i] = (True, x)
            _quant_cache[k] = (True, e)
            return True
        seen[i] = x
        if x.num_args():
            st.extend(x.children())
    for i, x in seen.items():
        _quant_cache[i] = (False, x)
    return False


class PC:
    __slots__ = ("up", "f", "n", "q")

    def __init__(self, up, f, q=None):
        self.up, self.f = up, f
        self.n = up.n + 1 if up else 1
        self.q = has_quant(f) if q is None else q

    def chain(self):
        r, x = [], self
        while x:
            r.append(x)
            x = x.up
        r.reverse()
        return r


# ---------------------------------------------------------------- values

class LV:
    """an lvalue (pointer that is not a plain object reference)"""
    __slots__ = ("kind", "root", "ref", "idx", "off", "tid", "aidx")

    def __init__(self, kind, root, ref, idx, off, tid, aidx=()):
        self.kind, self.root, self.ref, self.idx, self.off, self.tid, self.aidx = kind, root, ref, idx, off, tid, aidx

    def sub(self, off, tid):
        return LV(self.kind, self.root, self.ref, self.idx, self.off + off, tid, self.aidx)

    def same(self, o):
        if not isinstance(o, LV) or self.kind != o.kind or self.root != o.root or self.off != o.off or self.tid != o.tid:
            return False
        for a, b in ((self.ref, o.ref), (self.idx, o.idx)):
            if (a is None) != (b is None):
                return False
            if a is not None:
                if z3.is_expr(a):
                    if not z3.is_expr(b) or not a.eq(b):
                        return False
                elif a != b:
                    return False
        return len(self.aidx) == len(o.aidx) and all(x.eq(y) for x, y in zip(self.aidx, o.aidx))

    def __repr__(self):
        return "LV(%s,%s,%s,%s,+%d,t%d)" % (self.kind, self.root, self.ref, self.idx, self.off, self.tid)


class Closure:
    __slots__ = ("fn", "bind")

    def __init__(self, fn, bind=()):
        self.fn, self.bind = fn, tuple(bind)

    def same(self, o):
        return isinstance(o, Closure) and self.fn == o.fn and len(self.bind) == len(o.bind) and \
            all(same(a, b) for a, b in zip(self.bind, o.bind))

    def __repr__(self):
        return "Closure(%s)" % self.fn


class Slice:
    __slots__ = ("ref", "off", "len", "cap")

    def __init__(self, ref, off, ln, cap):
        self.ref, self.off, self.len, self.cap = ref, off, ln, cap

    def same(self, o):
        return isinstance(o, Slice) and self.ref.eq(o.ref) and self.off.eq(o.off) and self.len.eq(o.len) and self.cap.eq(o.cap)


class Iface:
    __slots__ = ("tag", "pay", "dyn")

    def __init__(self, tag, pay, dyn=None):
        self.tag, self.pay, self.dyn = tag, pay, dyn

    def same(self, o):
        if not isinstance(o, Iface):
            return False
        if self.dyn is not None and o.dyn is not None:
            return self.dyn[0] == o.dyn[0] and same(self.dyn[1], o.dyn[1])
        if self.dyn is not None or o.dyn is not None:
            return self.pay is not None and o.pay is not None and self.tag.eq(o.tag) and self.pay.eq(o.pay)
        return self.tag.eq(o.tag) and self.pay.eq(o.pay)


class Struct:
    __slots__ = ("f",)

    def __init__(self, f):
        self.f = list(f)

    def same(self, o):
        return isinstance(o, Struct) and len(self.f) == len(o.f) and all(same(a, b) for a, b in zip(self.f, o.f))


class Arr:
    __slots__ = ("c",)

    def __init__(self, c):
        self.c = list(c)

    def same(self, o):
        return isinstance(o, Arr) and all(a.eq(b) for a, b in zip(self.c, o.c))


class Tup(Struct):
    pass


class Iter:
    """map or string range iterator"""
    __slots__ = ("id", "m", "tid", "kind")

    def __init__(self, id, m, tid, kind):
        self.id, self.m, self.tid, self.kind = id, m, tid, kind

    def same(self, o):
        return isinstance(o, Iter) and o.id == self.id


def same(a, b):
    if a is b:
        return True
    if z3.is_expr(a) and z3.is_expr(b):
        return a.eq(b)
    if hasattr(a, "same"):
        return a.same(b)
    if z3.is_expr(a) or z3.is_expr(b):
        return False
    return a == b


class Unsupported(Exception):
    pass


class State:
    __slots__ = ("heap", "locals", "fwd", "pc", "A", "locks", "trn", "tra", "iters", "known", "wlog", "ghost",
                 "panicking", "old", "acq", "hbase", "notes", "trn0", "rebased")

    def __init__(self):
        self.heap, self.locals, self.fwd = {}, {}, {}
        self.pc = None
        self.A = iv(0)
        self.locks = {}
        self.acq = frozenset()
        self.iters = {}
        self.known = {}
        self.wlog = None
        self.ghost = {}
        self.panicking = None
        self.old = None
        self.trn = None
        self.tra = None
        self.hbase = {}
        self.notes = ()
        self.rebased = frozenset()

    def fork(self):
        s = State.__new__(State)
        s.heap = dict(self.heap)
        s.locals = {k: [v[0], list(v[1])] for k, v in self.locals.items()}
        s.fwd = dict(self.fwd)
        s.pc = self.pc
        s.A = self.A
        s.locks = dict(self.locks)
        s.acq = self.acq
        s.iters = dict(self.iters)
        s.known = dict(self.known)
        s.wlog = self.wlog
        s.ghost = dict(self.ghost)
        s.panicking = self.panicking
        s.old = self.old
        s.trn, s.tra = self.trn, self.tra
        s.hbase = dict(self.hbase)
        s.notes = self.notes
        s.rebased = self.rebased
        return s

    def assume(self, f):
        if z3.is_true(f):
            return
        if z3.is_and(f):
            for c in f.children():
                self.assume(c)
            return
        self.pc = PC(self.pc, f)

    def log(self, *e):
        self.wlog = (self.wlog, e)


class Solver:
    """incremental solver whose assertion stack follows a PC chain (quantifier-free facts only)"""

    def __init__(self, axioms=(), linear=False):
        self.axioms = list(axioms)
        self.linear = linear
        self.reset()
        self.stats = {"qf_checks": 0, "qf_time": 0.0}

    def reset(self):
        self.s = z3.SolverFor("QF_AUFLIA") if False else z3.Solver()
        self.s.set("timeout", 2000)
        if self.linear:
            self.s.set("smt.arith.nl", False)
        for a in self.axioms:
            self.s.add(a)
        self.stack = []
        self.n = 0

    def sync(self, pc):
        ch = [x for x in (pc.chain() if pc else []) if not x.q]
        k = 0
        while k < len(ch) and k < len(self.stack) and ch[k] is self.stack[k]:
            k += 1
        if len(self.stack) > k:
            self.s.pop(len(self.stack) - k)
            del self.stack[k:]
        for x in ch[k:]:
            self.s.push()
            self.s.add(x.f)
            self.stack.append(x)

    def check(self, pc, extra):
        t = time.time()
        self.n += 1
        if self.n > 3000:
            self.reset()
        self.sync(pc)
        self.s.push()
        self.s.add(extra)
        r = self.s.check()
        self.s.pop()
        self.stats["qf_checks"] += 1
        self.stats["qf_time"] += time.time() - t
        return r


TABS = {}


def consttab(vals):
    """an SMT array naming a constant table; equal tables get the same name"""
    import hashlib
    k = tuple(vals)
    if k not in TABS:
        TABS[k] = z3.Const("tab!" + hashlib.sha256(repr(k).encode()).hexdigest()[:12], z3.ArraySort(I, I))
    return TABS[k]


def unreal(e):
    """the integer term a real term was converted from, or None"""
    if z3.is_app_of(e, z3.Z3_OP_TO_REAL):
        return e.arg(0)
    if z3.is_rational_value(e) and e.denominator_as_long() == 1:
        return iv(e.numerator_as_long())
    if z3.is_app_of(e, z3.Z3_OP_ITE):
        a, b = unreal(e.arg(1)), unreal(e.arg(2))
        return None if a is None or b is None else If(e.arg(0), a, b)
    return None
