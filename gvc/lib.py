"""Assumed contracts of the standard library and of other code outside the verified functions."""
import z3
from core import *
from engine import RET, PANIC, Res

MODELS = {}


def model(*names):
    def d(f):
        for n in names:
            MODELS[n] = f
        return f
    return d


def ok(st, *v):
    return [Res(RET, st, list(v))]


def opaque(fn):
    return False


def rtypes(eng, fn, f):
    return eng.p.t(f.sig)["results"]


# packages whose functions neither touch program state nor block (as far as the properties are concerned)
QUIET = ("fmt.", "errors.", "strconv.", "strings.", "time.", "runtime.", "math.", "math/rand.", "os.", "path.", "path/filepath.",
         "zlog.", "encoding/hex.", "(time.", "(*time.", "reflect.", "(*errors.", "unicode", "log.", "net.", "(*net.", "net/http", "context.",
         "github.com/gorilla/websocket", "(*github.com/gorilla", "github.com/xtaci", "(*github.com/xtaci", "crypto", "(*os.",
         "(net/http", "(*net/http", "zutils.ArgsIsExist", "flag.", "sort.", "bufio.", "(*bufio.", "io.")


# writing a log line does not touch the state of the code that logs
LOGGING = set("zlog." + a + b for a in ("Debug", "Info", "Warn", "Error", "Print", "Stack") for b in ("", "f", "F"))


def default(eng, fr, st, fn, args, f):
    if f is None:
        raise Unsupported("call of unknown function " + fn)
    rt = eng.p.t(f.sig)["results"]
    if any(fn.startswith(q) for q in QUIET):
        eng.note("%s: no effect on program state, result arbitrary" % fn)
        return ok(st, *[eng.freshval(st, t, "ext") for t in rt])
    raise Unsupported("call of %s: no body, no contract" % fn)


def default_invoke(eng, fr, st, key, args, cv):
    if key in ("error.Error", "net.Conn.RemoteAddr", "net.Conn.LocalAddr", "net.Addr.String", "context.Context.Done",
               "context.Context.Err") or key.startswith("ziface.ILogger."):
        eng.note("%s: no effect on program state, result arbitrary" % key)
        rt = sig_results(eng, cv)
        return ok(st, *[eng.freshval(st, t, "ext") for t in rt])
    raise Unsupported("dynamic call %s: no contract" % key)


def sig_results(eng, cv):
    return eng.p.u(cv["sig"])["results"]


def default_funcval(eng, fr, st, f, cv):
    raise Unsupported("call through unknown function value of type %s" % eng.p.t(cv["sig"])["str"])


# ------------------------------------------------------------------ errors, logging
@model("errors.New", "fmt.Errorf")
def m_err(eng, fr, st, args, cv):
    t = eng.alloc(st)
    tag = iv(eng.tag(-1))
    return ok(st, Iface(tag, t))


@model("strconv.FormatUint", "strconv.FormatInt")
def m_fmtint(eng, fr, st, args, cv):
    from specs import numeral
    eng.note("strconv: formatting an integer gives its numeral, which parses back to it")
    return ok(st, numeral(st, args[0], args[1]))


@model("strconv.Itoa")
def m_itoa(eng, fr, st, args, cv):
    from specs import numeral
    eng.note("strconv: formatting an integer gives its numeral, which parses back to it")
    return ok(st, numeral(st, args[0], iv(10)))


@model("strconv.ParseUint")
def m_parseuint(eng, fr, st, args, cv):
    from specs import unfmt, isnum
    s, base, bits = args
    if not isn(bits) or bits.as_long() not in (0, 64):
        good = fresh(B, "parse")
        st.assume(Implies(good, isnum(s, base)))
    else:
        good = And(isnum(s, base), unfmt(s, base) >= 0, unfmt(s, base) < 1 << 64)
    v = fresh(I, "parsed")
    st.assume(And(v >= 0, v < 1 << 64, Implies(good, v == unfmt(s, base))))
    return ok(st, v, Iface(z3.If(good, iv(0), iv(eng.tag(-1))), z3.If(good, iv(0), eng.alloc(st))))


for _n in ("Ins", "InfoF", "ErrorF", "DebugF", "WarnF", "InfoFX", "ErrorFX", "DebugFX"):
    pass


@model("math.Floor")
def m_floor(eng, fr, st, args, cv):
    eng.note("math.Floor: exact on the real value (NaN and infinities excluded)")
    e = unreal(args[0])
    return ok(st, z3.ToReal(e if e is not None else z3.ToInt(args[0])))


@model("zlog.Ins")
def m_ins(eng, fr, st, args, cv):
    eng.note("zlog: logging has no effect on the verified state")
    t = iv(eng.tag(-2))
    return ok(st, Iface(t, iv(1)))


def quietcall(eng, fr, st, args, cv):
    rt = sig_results(eng, cv) if cv.get("mode") == "invoke" else []
    return ok(st, *[eng.freshval(st, t, "q") for t in rt])


for _m in ("InfoF", "ErrorF", "DebugF", "InfoFX", "ErrorFX", "DebugFX"):
    MODELS["ziface.ILogger." + _m] = quietcall


# ------------------------------------------------------------------ sync
def mk_lock(mode):
    def f(eng, fr, st, args, cv):
        import contract
        contract.do_lock(eng, fr, st, args[0], mode)
        return ok(st)
    return f


def mk_unlock(mode):
    def f(eng, fr, st, args, cv):
        import contract
        contract.do_unlock(eng, fr, st, args[0], mode)
        return ok(st)
    return f


MODELS["(*sync.Mutex).Lock"] = mk_lock("w")
MODELS["(*sync.RWMutex).Lock"] = mk_lock("w")
MODELS["(*sync.RWMutex).RLock"] = mk_lock("r")
MODELS["(*sync.Mutex).Unlock"] = mk_unlock("w")
MODELS["(*sync.RWMutex).Unlock"] = mk_unlock("w")
MODELS["(*sync.RWMutex).RUnlock"] = mk_unlock("r")


# ------------------------------------------------------------------ time
# time.Time values are modelled by their wall clock reading in nanoseconds since 1970
wallns = z3.Function("wallns", I, I, I, I)


@model("time.Now")
def m_now(eng, fr, st, args, cv):
    f = eng.p.funcs["time.Now"]
    t = eng.p.t(f.sig)["results"][0]
    v = eng.freshval(st, t, "now")
    cs = eng.flatten(st, t, v)
    w = wallns(*cs)
    st.assume(z3.And(w >= 0, w < (1 << 41) * 1000000))
    eng.note("time.Now is between 1970 and 2039 (41-bit millisecond clock)")
    return ok(st, v)


def tval(eng, st, args):
    t = eng.p.funcs["time.Now"]
    tt = eng.p.t(t.sig)["results"][0]
    return wallns(*eng.flatten(st, tt, args[0]))


@model("(time.Time).UnixNano")
def m_unixnano(eng, fr, st, args, cv):
    return ok(st, tval(eng, st, args))


@model("(time.Time).UnixMilli")
def m_unixmilli(eng, fr, st, args, cv):
    return ok(st, tval(eng, st, args) / 1000000)


@model("(time.Time).Unix")
def m_unix(eng, fr, st, args, cv):
    return ok(st, tval(eng, st, args) / 1000000000)


# ------------------------------------------------------------------ bytes.Buffer / bytes.Reader
# Modelled on their own fields (buf, off / s, i).  A Write always moves the contents to a new
# backing array, so aliasing through a retained Bytes() slice across a later Write is not modelled.

def _fld(eng, st, ptr, tname, f):
    t = eng.p.tid(tname)
    lv = eng.lv_of_ptr(st, ptr, t)
    off, ft = eng.p.findfield(t, f)[0]
    return lv.sub(off, ft)


def _get(eng, st, ptr, tname, f):
    return eng.load(st, _fld(eng, st, ptr, tname, f))


def _put(eng, st, ptr, tname, f, v):
    eng.storev(st, _fld(eng, st, ptr, tname, f), v)


BUF, RDR = "bytes.Buffer", "bytes.Reader"


def byte_t(eng):
    return eng.p.bystr.get("uint8", eng.p.bystr.get("byte"))


def buf_state(eng, st, b):
    s = _get(eng, st, b, BUF, "buf")
    off = _get(eng, st, b, BUF, "off")
    k = ("bufinv", s.len.get_id(), off.get_id())
    if k not in st.known:
        st.known[k] = (s, off)
        st.assume(z3.And(off >= 0, off <= s.len))
    return s, off


def buf_append(eng, st, b, srcs, soff, n):
    s, off = buf_state(eng, st, b)
    et = byte_t(eng)
    old = eng.slice_content(st, s, et)
    conts = []
    keep = sub(s.len, off)
    for i, (key, c) in enumerate(eng.elemkeys(et)):
        base = z3.K(I, eng.zerocomp(c))
        if not (isn(keep) and keep.as_long() == 0):
            base = eng.arr_copy(st, c, base, iv(0), old[i], add(s.off, off), keep)
        conts.append(eng.arr_copy(st, c, base, keep, srcs[i], soff, n))
    r = eng.new_backing(st, et, conts)
    nl = add(keep, n)
    cap = fresh(I, "cap")
    st.assume(z3.And(cap >= nl, cap <= (1 << 48)))
    _put(eng, st, b, BUF, "buf", Slice(r, iv(0), nl, cap))
    _put(eng, st, b, BUF, "off", iv(0))


NOERR = None


def noerr():
    return Iface(iv(0), iv(0))


def anerr(eng, st):
    return Iface(iv(eng.tag(-1)), eng.alloc(st))


@model("bytes.NewBuffer")
def m_newbuf(eng, fr, st, args, cv):
    t = eng.p.tid(BUF)
    eng.nlocal += 1
    st.locals[eng.nlocal] = [t, [eng.zerocomp(c) for c in eng.p.comps(t)]]
    lv = LV("local", t, eng.nlocal, None, 0, t)
    _put(eng, st, lv, BUF, "buf", args[0])
    return ok(st, lv)


@model("bytes.NewReader")
def m_newreader(eng, fr, st, args, cv):
    t = eng.p.tid(RDR)
    eng.nlocal += 1
    st.locals[eng.nlocal] = [t, [eng.zerocomp(c) for c in eng.p.comps(t)]]
    lv = LV("local", t, eng.nlocal, None, 0, t)
    _put(eng, st, lv, RDR, "s", args[0])
    return ok(st, lv)


@model("(*bytes.Buffer).Write")
def m_bufwrite(eng, fr, st, args, cv):
    b, p = args
    buf_append(eng, st, b, eng.slice_content(st, p, byte_t(eng)), p.off, p.len)
    return ok(st, p.len, noerr())


@model("(*bytes.Buffer).WriteString")
def m_bufwrites(eng, fr, st, args, cv):
    b, p = args
    buf_append(eng, st, b, [sbyte(p)], iv(0), slen(p))
    return ok(st, slen(p), noerr())


@model("(*bytes.Buffer).WriteByte")
def m_bufwriteb(eng, fr, st, args, cv):
    b, p = args
    buf_append(eng, st, b, [z3.K(I, p)], iv(0), iv(1))
    return ok(st, noerr())


@model("(*bytes.Buffer).Bytes")
def m_bufbytes(eng, fr, st, args, cv):
    s, off = buf_state(eng, st, args[0])
    return ok(st, Slice(s.ref, add(s.off, off), sub(s.len, off), sub(s.cap, off)))


@model("(*bytes.Buffer).Len")
def m_buflen(eng, fr, st, args, cv):
    s, off = buf_state(eng, st, args[0])
    return ok(st, sub(s.len, off))


@model("(*bytes.Buffer).Reset")
def m_bufreset(eng, fr, st, args, cv):
    s, off = buf_state(eng, st, args[0])
    _put(eng, st, args[0], BUF, "buf", Slice(s.ref, s.off, iv(0), s.cap))
    _put(eng, st, args[0], BUF, "off", iv(0))
    return ok(st)


@model("(*bytes.Buffer).Next")
def m_bufnext(eng, fr, st, args, cv):
    b, n = args
    s, off = buf_state(eng, st, b)
    m = sub(s.len, off)
    if eng.qf_entails(st, n <= m):
        k = n
    else:
        k = z3.If(n > m, m, n)
    _put(eng, st, b, BUF, "off", add(off, k))
    out = []
    if eng.feasible(st, n < 0):
        s2 = st.fork()
        s2.assume(n < 0)
        out.append(Res(PANIC, s2, None, "slice bounds out of range"))
        st.assume(n >= 0)
        if not eng.feasible(st):
            return out
    return out + ok(st, Slice(s.ref, add(s.off, off), k, sub(s.cap, off)))


@model("(*bytes.Buffer).Truncate")
def m_buftrunc(eng, fr, st, args, cv):
    b, n = args
    s, off = buf_state(eng, st, b)
    out = []
    bad = Or(n < 0, n > sub(s.len, off))
    if eng.feasible(st, bad):
        s2 = st.fork()
        s2.assume(bad)
        out.append(Res(PANIC, s2, None, "bytes.Buffer: truncation out of range"))
        st.assume(Not(bad))
        if not eng.feasible(st):
            return out
    _put(eng, st, b, BUF, "buf", Slice(s.ref, s.off, add(off, n), s.cap))
    return out + ok(st)


def buf_read(eng, st, b, p):
    """read into slice p from a Buffer: list of (state, n, err)"""
    s, off = buf_state(eng, st, b)
    avail = sub(s.len, off)
    out = []
    for empty in (True, False):
        c = And(avail == 0, p.len > 0) if empty else Not(And(avail == 0, p.len > 0))
        if not eng.feasible(st, c):
            continue
        s2 = st.fork()
        s2.assume(c)
        if empty:
            _put(eng, s2, b, BUF, "buf", Slice(s.ref, s.off, iv(0), s.cap))
            _put(eng, s2, b, BUF, "off", iv(0))
            out.append((s2, iv(0), anerr(eng, s2)))
        else:
            n = p.len if eng.qf_entails(s2, p.len <= avail) else z3.If(p.len <= avail, p.len, avail)
            eng.write_range(s2, byte_t(eng), p.ref, p.off, eng.slice_content(s2, s, byte_t(eng)), add(s.off, off), n)
            _put(eng, s2, b, BUF, "off", add(off, n))
            out.append((s2, n, noerr()))
    return out


@model("(*bytes.Buffer).Read")
def m_bufread(eng, fr, st, args, cv):
    return [Res(RET, s, [n, e]) for s, n, e in buf_read(eng, st, args[0], args[1])]


@model("(*bytes.Buffer).ReadByte")
def m_bufreadbyte(eng, fr, st, args, cv):
    b = args[0]
    s, off = buf_state(eng, st, b)
    out = []
    avail = sub(s.len, off)
    if eng.feasible(st, avail == 0):
        s2 = st.fork()
        s2.assume(avail == 0)
        out += ok(s2, iv(0), anerr(eng, s2))
        st.assume(avail != 0)
    if eng.feasible(st):
        v = sel(eng.slice_content(st, s, byte_t(eng))[0], add(s.off, off))
        eng.typefacts(st, byte_t(eng), [v])
        _put(eng, st, b, BUF, "off", add(off, iv(1)))
        out += ok(st, v, noerr())
    return out


# ------------------------------------------------------------------ math
@model("math.Min")
def m_min(eng, fr, st, args, cv):
    a, b = [unreal(x) for x in args]
    if a is not None and b is not None:
        return ok(st, z3.If(a <= b, args[0], args[1]))
    return ok(st, z3.If(args[0] <= args[1], args[0], args[1]))


@model("math.Max")
def m_max(eng, fr, st, args, cv):
    a, b = [unreal(x) for x in args]
    if a is not None and b is not None:
        return ok(st, z3.If(a >= b, args[0], args[1]))
    return ok(st, z3.If(args[0] >= args[1], args[0], args[1]))


# ------------------------------------------------------------------ encoding/binary
def endian(eng, st, order):
    if order.dyn is None:
        le = iv(eng.tag(eng.p.tid("encoding/binary.littleEndian")))
        be = iv(eng.tag(eng.p.tid("encoding/binary.bigEndian")))
        if eng.qf_entails(st, order.tag == le):
            return "le"
        if eng.qf_entails(st, order.tag == be):
            return "be"
        if eng.qf_entails(st, Or(order.tag == le, order.tag == be)):
            return order.tag == le
        raise Unsupported("encoding/binary with an unknown byte order")
    n = eng.p.t(order.dyn[0])["str"]
    return "be" if "big" in n else "le"


def int_bytes(x, n, en):
    """bytes of the unsigned n-byte integer x, in memory order"""
    if z3.is_expr(en):
        return [z3.If(en, p, q) for p, q in zip(int_bytes(x, n, "le"), int_bytes(x, n, "be"))]
    bs = [(x / iv(1 << (8 * k))) % 256 if n > 1 else x for k in range(n)]
    return bs[::-1] if en == "be" else bs


def bytes_int(bs, en):
    if z3.is_expr(en):
        return z3.If(en, bytes_int(bs, "le"), bytes_int(bs, "be")) if len(bs) > 1 else bs[0]
    if en == "be":
        bs = bs[::-1]
    e = bs[0]
    for k, b in enumerate(bs[1:], 1):
        e = e + b * (1 << (8 * k))
    return e


def asbytes(eng, st, t, v, en):
    """(srcs arrays, off, n) for binary.Write of a value"""
    k = eng.p.kind(t)
    if k == "ptr":
        et = eng.p.elem(t)
        return asbytes(eng, st, et, eng.load(st, eng.lv_of_ptr(st, v, et)), en)
    if k == "int":
        bits, sg = eng.p.intinfo(t)
        x = v if not sg else z3.If(v < 0, v + (1 << bits), v)
        a = z3.K(I, iv(0))
        for i, b in enumerate(int_bytes(x, bits // 8, en)):
            b2 = fresh(I, "wb")
            st.assume(b2 == b)
            st.assume(z3.And(b2 >= 0, b2 <= 255))
            a = z3.Store(a, iv(i), b2)
        return [a], iv(0), iv(bits // 8)
    if k == "slice" and eng.p.kind(eng.p.elem(t)) == "int" and eng.p.intinfo(eng.p.elem(t))[0] == 8:
        return eng.slice_content(st, v, byte_t(eng)), v.off, v.len
    raise Unsupported("binary.Write of " + eng.p.t(t)["str"])


@model("encoding/binary.Write")
def m_bwrite(eng, fr, st, args, cv):
    w, order, data = args
    if w.dyn is None or eng.p.t(w.dyn[0])["str"] != "*bytes.Buffer" or data.dyn is None:
        raise Unsupported("binary.Write on unknown writer")
    eng.note("encoding/binary.Write on a bytes.Buffer writes the value's fixed-size encoding and returns nil")
    srcs, so, n = asbytes(eng, st, data.dyn[0], data.dyn[1], endian(eng, st, order))
    buf_append(eng, st, w.dyn[1], srcs, so, n)
    return ok(st, noerr())


@model("encoding/binary.Read")
def m_bread(eng, fr, st, args, cv):
    r, order, data = args
    if r.dyn is None or data.dyn is None:
        raise Unsupported("binary.Read on unknown reader")
    eng.note("encoding/binary.Read from a bytes reader reads the fixed-size encoding, or returns an error when fewer bytes remain")
    rn = eng.p.t(r.dyn[0])["str"]
    if rn == "*bytes.Reader":
        s = _get(eng, st, r.dyn[1], RDR, "s")
        off = _get(eng, st, r.dyn[1], RDR, "i")
        setoff = lambda s_, v: _put(eng, s_, r.dyn[1], RDR, "i", v)
    elif rn == "*bytes.Buffer":
        s, off = buf_state(eng, st, r.dyn[1])
        setoff = lambda s_, v: _put(eng, s_, r.dyn[1], BUF, "off", v)
    else:
        raise Unsupported("binary.Read from " + rn)
    t, v = data.dyn
    k = eng.p.kind(t)
    en = endian(eng, st, order)
    avail = sub(s.len, off)
    out = []
    if k == "ptr" and eng.p.kind(eng.p.elem(t)) == "int":
        it = eng.p.elem(t)
        bits, sg = eng.p.intinfo(it)
        n = iv(bits // 8)
    elif k == "slice" and eng.p.intinfo(eng.p.elem(t))[0] == 8:
        it, n = None, v.len
    else:
        raise Unsupported("binary.Read into " + eng.p.t(t)["str"])
    short = avail < n
    if eng.feasible(st, short):
        s2 = st.fork()
        s2.assume(short)
        setoff(s2, s.len)
        if it is None:
            eng.write_range(s2, byte_t(eng), v.ref, v.off, eng.slice_content(s2, s, byte_t(eng)), add(s.off, off), avail)
        out += ok(s2, anerr(eng, s2))
        st.assume(Not(short))
        if not eng.feasible(st):
            return out
    cont = eng.slice_content(st, s, byte_t(eng))
    if it is None:
        eng.write_range(st, byte_t(eng), v.ref, v.off, cont, add(s.off, off), n)
    else:
        bs = []
        for i in range(bits // 8):
            b = sel(cont[0], add(add(s.off, off), iv(i)))
            eng.typefacts(st, byte_t(eng), [b])
            bs.append(b)
        x = bytes_int(bs, en)
        if sg:
            x = z3.If(x >= (1 << (bits - 1)), x - (1 << bits), x)
        eng.storev(st, eng.lv_of_ptr(st, v, it), x)
    setoff(st, add(off, n))
    return out + ok(st, noerr())


# ------------------------------------------------------------------ encoding/binary byte orders called directly
def mk_get(n, en):
    def f(eng, fr, st, args, cv):
        s = args[1]
        e = en if en else endian(eng, st, args[0])
        eng.note("encoding/binary byte orders decode and encode fixed-width unsigned integers; panic on short slices")
        out = []
        short = s.len < n
        if eng.feasible(st, short):
            s2 = st.fork()
            s2.assume(short)
            out.append(Res(PANIC, s2, None, "index out of range in encoding/binary"))
            st.assume(Not(short))
            if not eng.feasible(st):
                return out
        cont = eng.slice_content(st, s, byte_t(eng))
        bs = []
        for i in range(n):
            b = sel(cont[0], add(s.off, iv(i)))
            eng.typefacts(st, byte_t(eng), [b])
            bs.append(b)
        return ok(st, bytes_int(bs, e)) + out
    return f


def mk_put(n, en):
    def f(eng, fr, st, args, cv):
        s, x = args[1], args[2]
        e = en if en else endian(eng, st, args[0])
        eng.note("encoding/binary byte orders decode and encode fixed-width unsigned integers; panic on short slices")
        out = []
        short = s.len < n
        if eng.feasible(st, short):
            s2 = st.fork()
            s2.assume(short)
            out.append(Res(PANIC, s2, None, "index out of range in encoding/binary"))
            st.assume(Not(short))
            if not eng.feasible(st):
                return out
        a = z3.K(I, iv(0))
        for i, b in enumerate(int_bytes(x, n, e)):
            b2 = fresh(I, "wb")
            st.assume(b2 == b)
            st.assume(z3.And(b2 >= 0, b2 <= 255))
            a = z3.Store(a, iv(i), b2)
        eng.write_range(st, byte_t(eng), s.ref, s.off, [a], iv(0), iv(n))
        return ok(st) + out
    return f


for _n, _w in (("16", 2), ("32", 4), ("64", 8)):
    for _o, _e in (("(encoding/binary.bigEndian).", "be"), ("(encoding/binary.littleEndian).", "le"), ("encoding/binary.ByteOrder.", None)):
        MODELS[_o + "Uint" + _n] = mk_get(_w, _e)
        MODELS[_o + "PutUint" + _n] = mk_put(_w, _e)



@model("time.Sleep")
def m_sleep(eng, fr, st, args, cv):
    eng.emit(st, "sleep", args[0])
    eng.note("time.Sleep: recorded as an event; waits at least the given duration")
    return ok(st)


# ------------------------------------------------------------------ sync/atomic
# Each operation is one indivisible step.  The value seen is the one this goroutine last saw, except where a contract declares
# interference (rely) on the location.
def mk_atomic(op, bits, sg):
    def f(eng, fr, st, args, cv):
        t = eng.p.bystr[("int" if sg else "uint") + str(bits)]
        lv = eng.lv_of_ptr(st, args[0], t)
        eng.note("sync/atomic operations are indivisible")
        import contract
        contract.rely(eng, st, lv)
        contract.ghostcode(eng, st, "atomic", [], [])
        v = eng.load(st, lv)
        if op == "Load":
            return ok(st, v)
        if op == "Store":
            eng.storev(st, lv, args[1])
            return ok(st)
        if op == "Swap":
            eng.storev(st, lv, args[1])
            return ok(st, v)
        if op == "Add":
            n = eng.wrap(st, add(v, args[1]), t)
            eng.storev(st, lv, n)
            return ok(st, n)
        if op == "CompareAndSwap":
            out = []
            c = eq(v, args[1])
            for b in (True, False):
                g = c if b else Not(c)
                if not eng.feasible(st, g):
                    continue
                s2 = st.fork()
                s2.assume(g)
                if b:
                    eng.storev(s2, lv, args[2])
                out += ok(s2, z3.BoolVal(b))
            return out
    return f


for _op in ("Load", "Store", "Swap", "Add", "CompareAndSwap"):
    for _b in (32, 64):
        for _s in (True, False):
            MODELS["sync/atomic.%s%s%d" % (_op, "Int" if _s else "Uint", _b)] = mk_atomic(_op, _b, _s)


@model("(*sync.Once).Do")
def once_do(eng, fr, st, args, cv):
    """the function runs exactly once per Once; whoever returns from Do sees it done (sync.Once serialises the callers)"""
    lv = args[0] if isinstance(args[0], LV) else eng.lv_of_ptr(st, args[0], eng.p.tid("sync.Once"))
    lv = eng.resolve(st, lv)
    if lv.kind == "global":
        key = ("#gh", "once_" + lv.ref.split(".")[-1])
        ref = lv.aidx[0] if lv.aidx else iv(0)
    elif lv.kind == "obj" and not lv.aidx:
        key, ref = ("#gh", "once_%s_%d" % (eng.rootname(lv.root), lv.off)), lv.ref
    else:
        raise Unsupported("sync.Once in " + lv.kind)
    eng.note("sync.Once runs its function once")
    done = sel(eng.hget(st, key, "I"), ref) == 1
    out = []
    s2 = st.fork()
    s2.assume(done)
    if eng.feasible(s2):
        out += ok(s2)
    st.assume(Not(done))
    if eng.feasible(st):
        st.heap[key] = store(eng.hget(st, key, "I"), ref, iv(1))
        st.log("H", key, ref)
        out += eng.call_value(fr, {}, st, {"mode": "call", "fn": args[1], "args": [], "argt": [], "sig": eng.p.bystr.get("func()")})
    return out
