"""Spec functions: defined outside the code under verification, unfolded by ground instances."""
import z3
from core import *
from spec import SPEC, SV, spec, Ctx
from execu import bitfn

AI = z3.ArraySort(I, I)


# ------------------------------------------------------------------ CRC-16/MODBUS (init 0xFFFF, reflected poly 0xA001)
def crc_table():
    t = []
    for b in range(256):
        c = b
        for _ in range(8):
            c = (c >> 1) ^ 0xA001 if c & 1 else c >> 1
        t.append(c)
    return t


_T = crc_table()
TLO, THI, T16 = consttab([x & 255 for x in _T]), consttab([x >> 8 for x in _T]), consttab(_T)
clo = z3.Function("crc_lo", AI, I, I, I)
chi = z3.Function("crc_hi", AI, I, I, I)


def xor(a, b):
    return bitfn("^", 0)(a, b)


def crc_unfold(ctx, s, n):
    """facts about the checksum state after the first n bytes: definition unfolded once at n"""
    st = ctx.cur()
    c, o = ctx.content(s)[0], ctx.off(s)
    l, h = clo(c, o, n), chi(c, o, n)
    m = simp(n - 1)
    b = sel(c, add(o, m))
    p = xor(clo(c, o, m), b)
    f = And(p == xor(b, clo(c, o, m)), xor(chi(c, o, m), z3.Select(TLO, p)) == xor(z3.Select(TLO, p), chi(c, o, m)), l >= 0, l < 256, h >= 0, h < 256,
            Implies(n == 0, And(l == 255, h == 255)),
            z3.Select(TLO, p) >= 0, z3.Select(TLO, p) < 256, z3.Select(THI, p) >= 0, z3.Select(THI, p) < 256,
            z3.Select(T16, p) == z3.Select(THI, p) * 256 + z3.Select(TLO, p),
            Implies(n > 0, And(l == xor(chi(c, o, m), z3.Select(TLO, p)), h == z3.Select(THI, p))))
    if ("crc", l.get_id()) not in st.known:
        st.known[("crc", l.get_id())] = l
        st.assume(f)
    return l, h


@spec
def crclo(ctx, s, n):
    return SV(crc_unfold(ctx, s, n.v)[0], "int")


@spec
def crchi(ctx, s, n):
    return SV(crc_unfold(ctx, s, n.v)[1], "int")




@spec
def signed64(ctx, x):
    return SV(z3.If(x.v >= (1 << 63), x.v - (1 << 64), x.v), "int")


@spec
def wrapint(ctx, x):
    """two's complement wrap to 64 bits"""
    return SV((x.v + (1 << 63)) % (1 << 64) - (1 << 63), "int")


# ------------------------------------------------------------------ concatenation of two sequences
@spec
def cat(ctx, a, b):
    """the sequence a followed by b (fresh array, defined pointwise)"""
    st = ctx.cur()
    ca, cb = ctx.content(a)[0], ctx.content(b)[0]
    oa, ob = ctx.off(a), ctx.off(b)
    la, lb = seqlen(ctx, a), seqlen(ctx, b)
    key = ("cat", ca.get_id(), cb.get_id(), oa.get_id(), ob.get_id(), la.get_id(), lb.get_id())
    memo = ctx.e.__dict__.setdefault("catmemo", {})
    if key not in memo:
        r = fresh(AI, "cat")
        memo[key] = (r, ca, cb, oa, ob, la, lb)
    r = memo[key][0]
    if key not in st.known:
        st.known[key] = r
        j = z3.Int("j!cat%d" % fresh_n())
        st.assume(z3.ForAll([j], z3.Implies(z3.And(j >= 0, j < la), z3.Select(r, j) == z3.Select(ca, j + oa)), patterns=[z3.Select(r, j)]))
        st.assume(z3.ForAll([j], z3.Implies(z3.And(j >= la, j < la + lb), z3.Select(r, j) == z3.Select(cb, j - la + ob)), patterns=[z3.Select(r, j)]))
        st.assume(z3.ForAll([j], z3.And(z3.Select(r, j) >= 0, z3.Select(r, j) <= 255), patterns=[z3.Select(r, j)]))
    return SV(([r], iv(0), add(la, lb), None), "seq")


def seqlen(ctx, x):
    if x.t == "seq":
        return x.v[2]
    if ctx.kind(x) == "string":
        return slen(x.v)
    return x.v.len


# ------------------------------------------------------------------ frame boundaries of a byte stream
# isb(T, p): p is a frame boundary of T (position 'start' is one); fcnt(T, p): number of deliverable frames that end at or
# before boundary p; fst(T, i): start of the i-th deliverable frame.  Defined by recursion over the boundaries, unfolded at p.
_FS = {}


def framefns(n):
    if n not in _FS:
        dom = [AI] + [I] * n
        _FS[n] = (z3.Function("fr_isb%d" % n, *dom, I, B), z3.Function("fr_cnt%d" % n, *dom, I, I), z3.Function("fr_st%d" % n, *dom, I, I))
    return _FS[n]


@spec
def frames(ctx, T, start, *rest):
    """frames(T, start, cfg..., p, header, over, good, tot): p is a boundary; unfolds the definition at p"""
    *cfg, p, header, over, good, tot = rest
    st = ctx.cur()
    c = T.v[0][0]
    cv = [x.v if z3.is_expr(x.v) else x.v.tag for x in cfg]
    a = [c, T.v[2], start.v] + cv
    isb, cnt, fs = framefns(len(a) - 1)
    key = ("frames",) + tuple(x.get_id() for x in a) + (p.v.get_id(),)
    if key not in st.known:
        st.known[key] = p.v
        st.assume(isb(*a, start.v))
        st.assume(cnt(*a, start.v) == 0)
        q = p.v + tot.v
        st.assume(Implies(And(isb(*a, p.v), header.v, good.v), And(isb(*a, q), cnt(*a, q) == cnt(*a, p.v) + 1, fs(*a, cnt(*a, p.v)) == p.v)))
        st.assume(Implies(And(isb(*a, p.v), header.v, over.v), And(isb(*a, q), cnt(*a, q) == cnt(*a, p.v))))
    return SV(isb(*a, p.v), "bool")


@spec
def framecnt(ctx, T, start, *rest):
    *cfg, p = rest
    a = [T.v[0][0], T.v[2], start.v] + [x.v if z3.is_expr(x.v) else x.v.tag for x in cfg]
    return SV(framefns(len(a) - 1)[1](*a, p.v), "int")


@spec
def framestart(ctx, T, start, *rest):
    *cfg, i = rest
    a = [T.v[0][0], T.v[2], start.v] + [x.v if z3.is_expr(x.v) else x.v.tag for x in cfg]
    return SV(framefns(len(a) - 1)[2](*a, i.v), "int")


# ------------------------------------------------------------------ named values
def _keys(ctx, ks):
    out = []
    for k in ks:
        if k.t == "seq":
            out += list(k.v[0]) + [k.v[1]]
        elif z3.is_expr(k.v):
            out.append(k.v)
        else:
            out.append(ctx.asint(k))
    return out


def f_named(ctx, args):
    """named('n', key..., value): an uninterpreted symbol n(key...) known to equal value (the value must depend on the keys only)"""
    nm = args[0].value
    a = [ctx.ev(x) for x in args[1:]]
    ks = _keys(ctx, a[:-1])
    val = a[-1].v
    f = z3.Function("nm_" + nm, *[k.sort() for k in ks], val.sort())
    t = f(*ks)
    st = ctx.cur()
    if ("nm", t.get_id()) not in st.known:
        st.known[("nm", t.get_id())] = t
        st.assume(t == val)
    return SV(t, a[-1].t)


def f_nameof(ctx, args):
    """the symbol of named(), without its defining equation"""
    ks = _keys(ctx, [ctx.ev(x) for x in args[1:]])
    f = z3.Function("nm_" + args[0].value, *[k.sort() for k in ks], I)
    return SV(f(*ks), "int")


Ctx.f_named, Ctx.f_nameof = f_named, f_nameof


def install(eng):
    pass


# ------------------------------------------------------------------ logical (rigid) variables of a contract
@spec
def logical(ctx, name):
    """logical('S'): an arbitrary but fixed map from integers to integers, the same everywhere in a contract"""
    return SV(z3.Const("LV_%s" % name.v, AI), "arr")


@spec
def logicalint(ctx, name):
    return SV(z3.Const("LI_%s" % name.v, I), "int")


# ------------------------------------------------------------------ sharded maps
_hashof = z3.Function("hashof", I, I, S, I)
_posof = z3.Function("posof", I, S, I)


@spec
def hashof(ctx, h, k):
    """the hash of a key under a hash object: an arbitrary function of both"""
    b = ctx.e.boxed(ctx.cur(), h.v)
    return SV(_hashof(b.tag, b.pay, k.v), "int")


@spec
def posof(ctx, ch, k):
    """the position at which channel ch delivers key k (a logical function)"""
    return SV(_posof(ch.v, k.v), "int")


@spec
def sumlen(ctx, shards, n):
    """sum of the sizes of the maps of the first n shards (recursive definition, unfolded at n)"""
    e, st = ctx.e, ctx.cur()
    pt = e.p.elem(shards.t)
    tid = e.p.elem(pt)
    off, ft = e.p.findfield(tid, "items")[0]
    hi = e.hget(st, (e.rootname(tid), off), "I")
    hl = e.hget(st, e.mapkeys(ft)[2], "I")
    c, o = ctx.content(shards)[0], ctx.off(shards)
    f = z3.Function("sumlen", AI, AI, AI, I, I, I)
    v, m = f(hi, hl, c, o, n.v), simp(n.v - 1)
    k = ("sumlen", v.get_id())
    if k not in st.known:
        st.known[k] = v
        x = sel(hl, sel(hi, sel(c, add(o, m))))
        st.assume(Implies(n.v <= 0, v == 0))
        st.assume(Implies(n.v > 0, v == f(hi, hl, c, o, m) + x))
        st.assume(And(x >= 0, v >= 0, v <= 1 << 48))   # the number of entries is bounded by the address space
    return SV(v, "int")


@spec
def strof(ctx, x):
    """the string an event argument stands for"""
    return SV(unstrid(x.v), "str")


@spec
def strno(ctx, x):
    """the event argument a string is recorded as"""
    return SV(ctx.e.evint(ctx.cur(), x.v), "int")


_homeof = z3.Function("homeof", I, I, S, I, I)


@spec
def homeof(ctx, h, k, n):
    """which of n buckets key k belongs to under hash h: an arbitrary function with values in [0, n)"""
    b = ctx.e.boxed(ctx.cur(), h.v)
    v = _homeof(b.tag, b.pay, k.v, n.v)
    st = ctx.cur()
    q = ("homeof", v.get_id())
    if q not in st.known:
        st.known[q] = v
        st.assume(Implies(n.v > 0, And(v >= 0, v < n.v)))
    return SV(v, "int")


@spec
def curkey(ctx):
    """the key the latest map iteration step produced, as recorded in events"""
    return SV(sel(ctx.e.hget(ctx.cur(), ("#gh", "curkey"), "I"), iv(0)), "int")


# ------------------------------------------------------------------ decimal numerals
fmtint = z3.Function("fmtint", I, I, S)
unfmt = z3.Function("unfmt", S, I, I)
isnum = z3.Function("isnum", S, I, B)


def numeral(st, x, base):
    v = fmtint(x, base)
    k = ("numeral", v.get_id())
    if k not in st.known:
        st.known[k] = v
        st.assume(And(unfmt(v, base) == x, isnum(v, base)))
    return v


@spec
def decimal(ctx, x):
    return SV(numeral(ctx.cur(), x.v, iv(10)), "str")


@spec
def undecimal(ctx, s):
    return SV(unfmt(s.v, iv(10)), "int")


@spec
def isdecimal(ctx, s):
    return SV(isnum(s.v, iv(10)), "bool")


_connid = z3.Function("connid", I, I, I)


@spec
def connid(ctx, c):
    """the id of a connection (fixed for its lifetime)"""
    b = ctx.e.boxed(ctx.cur(), c.v)
    v = _connid(b.tag, b.pay)
    st = ctx.cur()
    k = ("connid", v.get_id())
    if k not in st.known:
        st.known[k] = v
        st.assume(And(v >= 0, v < 1 << 64))
    return SV(v, "int")


def gdiv_(ctx, x, y):
    """quotient of a non-negative by a positive integer"""
    for f in divfacts(x.v, y.v):
        ctx.cur().assume(f)
    return SV(gdiv(x.v, y.v), "int")


def gmod_(ctx, x, y):
    for f in divfacts(x.v, y.v):
        ctx.cur().assume(f)
    return SV(gmod(x.v, y.v), "int")


SPEC["gdiv"] = gdiv_
SPEC["gmod"] = gmod_
