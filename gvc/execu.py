"""Instruction semantics, calls, loops."""
import z3
from core import *
from engine import *

CMP = {"==", "!=", "<", "<=", ">", ">="}


def bitfn(tok, bits):
    return z3.Function("bit_%s_%d" % ({"&": "and", "|": "or", "^": "xor", "&^": "andnot"}[tok], bits), I, I, I)


class Exec(Engine):

    # ------------------------------------------------------------ operands
    def val(self, fr, env, st, o):
        k = o["k"]
        if k in ("reg", "param", "free"):
            try:
                return env[o["n"]]
            except KeyError:
                raise Unsupported("no value for %s in %s" % (o["n"], fr.fn.name))
        if k == "const":
            return self.const(o)
        if k == "global":
            t = self.p.elem(o["t"])
            return LV("global", t, o["n"], None, 0, t)
        if k == "func":
            return Closure(o["n"])
        if k == "builtin":
            return ("builtin", o["n"])
        raise Unsupported("operand " + k)

    def const(self, o):
        t = o["t"]
        if o.get("nil"):
            return self.zero(t)
        k = self.p.kind(t)
        v = o["v"]
        if k == "int":
            return iv(int(v)) if o["vk"] == "int" else iv(int(eval_frac(v)))
        if k == "bool":
            return z3.BoolVal(v)
        if k == "string":
            return self.strlit(v)
        if k == "float":
            return z3.RealVal(v)
        if k == "iface":
            raise Unsupported("const iface")
        raise Unsupported("const of kind " + k)

    # ------------------------------------------------------------ integer ops
    def rng(self, tid):
        bits, sg = self.p.intinfo(tid)
        return (-(1 << (bits - 1)), (1 << (bits - 1)) - 1) if sg else (0, (1 << bits) - 1)

    def wrap(self, st, e, tid):
        bits, sg = self.p.intinfo(tid)
        lo, hi = self.rng(tid)
        if isn(e):
            v = e.as_long() & ((1 << bits) - 1)
            if sg and v >> (bits - 1):
                v -= 1 << bits
            return iv(v)
        if self.qf_entails(st, z3.And(e >= lo, e <= hi)):
            return e
        m = e % (1 << bits)
        if sg:
            m = z3.If(m >= (1 << (bits - 1)), m - (1 << bits), m)
        r = fresh(I, "wrap")
        st.assume(r == m)
        st.assume(z3.And(r >= lo, r <= hi))
        return r

    def pow2(self, st, n):
        if isn(n):
            return iv(1 << max(0, n.as_long()))
        e = iv(0)
        for i in range(63, -1, -1):
            e = z3.If(n == i, iv(1 << i), e)
        return e

    def pow2factor(self, e):
        """largest known c with 2^c | e by syntax"""
        if isn(e):
            v = e.as_long()
            return 64 if v == 0 else (v & -v).bit_length() - 1
        if z3.is_mul(e):
            return sum(self.pow2factor(a) if isn(a) or z3.is_mul(a) else 0 for a in e.children())
        if z3.is_add(e):
            return min(self.pow2factor(a) for a in e.children())
        return 0

    def bitop(self, st, tok, x, y, tid):
        bits, sg = self.p.intinfo(tid)
        if isn(x) and isn(y):
            a, b = x.as_long(), y.as_long()
            r = {"&": a & b, "|": a | b, "^": a ^ b, "&^": a & ~b}[tok]
            return self.wrap(st, iv(r), tid)
        if tok == "&" and isn(x):
            x, y = y, x
        if tok == "&^" and isn(y):
            return self.bitop(st, "&", x, iv(~y.as_long() if sg else (~y.as_long()) & ((1 << bits) - 1)), tid)
        if tok == "&" and isn(y):
            m = y.as_long()
            if m == 0:
                return iv(0)
            if m == -1 or m == (1 << bits) - 1:
                return x
            if m > 0:
                lo = (m & -m).bit_length() - 1
                k = m >> lo
                if k & (k + 1) == 0:
                    w = k.bit_length()
                    hi_ok = lo + w == bits and not sg
                    if lo == 0:
                        if self.qf_entails(st, z3.And(x >= 0, x <= m)):
                            return x
                        return x % (1 << w)
                    return ((x / iv(1 << lo)) % (1 << w)) * (1 << lo)
        if tok in ("|", "^"):
            for a, b in ((x, y), (y, x)):
                c = self.pow2factor(a)
                if isn(a) and a.as_long() == 0:
                    return b
                if c > 0 and self.qf_entails(st, z3.And(a >= 0, b >= 0, b < (1 << min(c, 62)))):
                    return add(a, b)
        # exact bit-vector semantics through a fresh integer
        # one function for all unsigned widths: the result does not depend on the width
        f = bitfn(tok, bits if sg else 0)
        if tok in ("&", "|", "^") and x.get_id() > y.get_id():
            x, y = y, x
        e = f(x, y)
        lo, hi = self.rng(tid)
        k = ("bit", e.get_id())
        if k not in st.known:
            st.known[k] = e
            st.assume(z3.And(e >= lo, e <= hi))
            if tok != "&^":
                st.assume(e == f(y, x))
            st.assume(z3.Implies(z3.And(x >= 0, y >= 0), e >= 0))
            if tok == "&":
                st.assume(z3.Implies(x >= 0, z3.And(e >= 0, e <= x)))
                st.assume(z3.Implies(y >= 0, z3.And(e >= 0, e <= y)))
            if tok == "|":
                st.assume(z3.Implies(z3.And(x >= 0, y >= 0), z3.And(e >= x, e >= y, e <= x + y)))
            if not sg and tok in ("^", "|"):
                for w in (8, 16, 32):
                    if w < bits:
                        st.assume(z3.Implies(z3.And(x < (1 << w), y < (1 << w)), e < (1 << w)))
                if bits == 16:
                    # byte-wise
                    g = lambda a, b: f(a, b) if a.get_id() <= b.get_id() else f(b, a)
                    xl, yl, xh, yh = simp(x % 256), simp(y % 256), simp(x / 256), simp(y / 256)
                    for a, b in ((xl, yl), (xh, yh)):
                        q = g(a, b)
                        st.assume(z3.And(q >= 0, q < 256))
                        st.assume(q == f(b, a) if q.arg(0).eq(a) else q == f(a, b))
                        if tok == "^":
                            st.assume(z3.And(z3.Implies(a == 0, q == b), z3.Implies(b == 0, q == a)))
                    st.assume(e == g(xh, yh) * 256 + g(xl, yl))
            if tok == "^":
                st.assume(z3.Implies(x == y, e == 0))
                st.assume(z3.Implies(x == 0, e == y))
                st.assume(z3.Implies(y == 0, e == x))
            if self.opts.get("bits") == "exact" or (self.cur and self.cur.opts.get("bits") == "exact"):
                bx, by = z3.Int2BV(x, bits), z3.Int2BV(y, bits)
                r = {"&": bx & by, "|": bx | by, "^": bx ^ by, "&^": bx & ~by}[tok]
                st.assume(e == z3.BV2Int(r, sg))
        return e

    def binop(self, fr, st, ins, x, y):
        """list of (state, value) or panics; returns (value, paniccond or None)"""
        tok = ins["tok"]
        xt = ins["x"]["t"] if "t" in ins["x"] else ins["y"]["t"]
        k = self.p.kind(xt)
        if tok in ("==", "!="):
            r = self.equal(st, xt, x, ins["y"].get("t", xt), y)
            return (Not(r) if tok == "!=" else r), None
        if k == "int":
            if tok in ("<", "<=", ">", ">="):
                if isn(x) and isn(y):
                    a, b = x.as_long(), y.as_long()
                    return z3.BoolVal({"<": a < b, "<=": a <= b, ">": a > b, ">=": a >= b}[tok]), None
                return {"<": x < y, "<=": x <= y, ">": x > y, ">=": x >= y}[tok], None
            t = ins["t"]
            if tok == "+":
                return self.wrap(st, add(x, y), t), None
            if tok == "-":
                return self.wrap(st, sub(x, y), t), None
            if tok == "*":
                return self.wrap(st, iv(x.as_long() * y.as_long()) if isn(x) and isn(y) else x * y, t), None
            if tok in ("/", "%"):
                pan = None
                if not (isn(y) and y.as_long() != 0):
                    pan = eq(y, iv(0))
                return self.divmod(st, tok, x, y, t), pan
            if tok == "<<":
                if isn(y):
                    if y.as_long() >= self.p.intinfo(t)[0]:
                        return iv(0), None
                    if isn(x):
                        return self.wrap(st, iv(x.as_long() << y.as_long()), t), None
                    return self.wrap(st, x * (1 << y.as_long()), t), None
                pan = None
                yt = ins["y"]["t"]
                if self.p.intinfo(yt)[1]:
                    pan = y < 0
                return self.wrap(st, x * self.pow2(st, y), t), pan
            if tok == ">>":
                if isn(y):
                    if isn(x):
                        return iv(x.as_long() >> y.as_long()), None
                    return x / iv(1 << min(y.as_long(), 64)), None
                pan = None
                if self.p.intinfo(ins["y"]["t"])[1]:
                    pan = y < 0
                e = z3.If(x >= 0, iv(0), iv(-1))
                for i in range(63, -1, -1):
                    e = z3.If(y == i, x / iv(1 << i), e)
                return e, pan
            if tok in ("&", "|", "^", "&^"):
                return self.bitop(st, tok, x, y, t), None
        if k == "string":
            if tok == "+":
                r = sconcat(x, y)
                st.assume(slen(r) == slen(x) + slen(y))
                return r, None
            lt = z3.Function("slt", S, S, B)
            return {"<": lt(x, y), ">": lt(y, x), "<=": Not(lt(y, x)), ">=": Not(lt(x, y))}[tok], None
        if k == "float":
            self.note("floating-point arithmetic treated as exact real arithmetic")
            if tok == "+":
                return x + y, None
            if tok == "-":
                return x - y, None
            if tok == "*":
                return x * y, None
            if tok == "/":
                return x / y, None
            return {"<": x < y, "<=": x <= y, ">": x > y, ">=": x >= y}[tok], None
        if k == "bool":
            return {"&": z3.And(x, y), "|": z3.Or(x, y), "^": z3.Xor(x, y)}[tok], None
        raise Unsupported("binop %s on %s" % (tok, k))

    def divmod(self, st, tok, x, y, t):
        if isn(x) and isn(y) and y.as_long() != 0:
            a, b = x.as_long(), y.as_long()
            q = abs(a) // abs(b)
            if (a < 0) != (b < 0):
                q = -q
            return self.wrap(st, iv(q if tok == "/" else a - q * b), t)
        if isn(y) and y.as_long() > 0 and self.qf_entails(st, x >= 0):
            return x / y if tok == "/" else x % y
        if not isn(y) and self.qf_entails(st, z3.And(x >= 0, y > 0)):
            for f in divfacts(x, y):
                st.assume(f)
            return gdiv(x, y) if tok == "/" else gmod(x, y)
        q = z3.If(y > 0, z3.If(x >= 0, x / y, -((-x) / y)), z3.If(x >= 0, -(x / (-y)), (-x) / (-y)))
        if tok == "/":
            return self.wrap(st, q, t)
        r = fresh(I, "rem")
        st.assume(z3.Implies(y != 0, r == x - y * q))
        st.assume(z3.Implies(y > 0, z3.And(r > -y, r < y)))
        st.assume(z3.Implies(y < 0, z3.And(r > y, r < -y)))
        st.assume(z3.Implies(x >= 0, r >= 0))
        st.assume(z3.Implies(x <= 0, r <= 0))
        return r

    def equal(self, st, xt, x, yt, y):
        kx, ky = self.p.kind(xt), self.p.kind(yt)
        if kx == "iface" or ky == "iface":
            if kx != "iface":
                x = Iface(iv(self.tag(xt)), None, (xt, x))
            if ky != "iface":
                y = Iface(iv(self.tag(yt)), None, (yt, y))
            if isn(y.tag) and y.tag.as_long() == 0:
                return eq(x.tag, iv(0))
            if isn(x.tag) and x.tag.as_long() == 0:
                return eq(y.tag, iv(0))
            for a, b in ((x, y), (y, x)):
                # a known non-reference value: compare the components, not the boxes
                if a.dyn is not None and self.p.kind(a.dyn[0]) not in ("ptr", "map", "chan", "func", "slice", "array"):
                    cs = self.flatten(st, a.dyn[0], a.dyn[1])
                    if b.dyn is not None and b.dyn[0] == a.dyn[0]:
                        return And(*[eq(p, q) for p, q in zip(cs, self.flatten(st, b.dyn[0], b.dyn[1]))])
                    _, un = self.boxfns(a.dyn[0])
                    b = self.boxed(st, b)
                    return And(eq(x.tag, y.tag), *[f(b.pay) == c for f, c in zip(un, cs)])
            x, y = self.boxed(st, x), self.boxed(st, y)
            return And(eq(x.tag, y.tag), eq(x.pay, y.pay))
        if kx == "ptr":
            if isinstance(x, LV) and isinstance(y, LV):
                if x.same(y):
                    return z3.BoolVal(True)
                x2, y2 = self.resolve(st, x), self.resolve(st, y)
                if x2.kind == "local" or y2.kind == "local":
                    if x2.kind == y2.kind and x2.ref == y2.ref and x2.off == y2.off:
                        return z3.BoolVal(True)
                    return z3.BoolVal(False)
            for a, b in ((x, y), (y, x)):
                if isinstance(a, LV) and z3.is_expr(b) and isn(b) and b.as_long() == 0:
                    return z3.BoolVal(False)
            return eq(self.ref(st, x), self.ref(st, y))
        if kx == "func":
            a, b = self.flatten(st, xt, x)[0], self.flatten(st, yt, y)[0]
            return eq(a, b)
        if kx == "slice":
            if isn(y.ref) and y.ref.as_long() == 0:
                return eq(x.ref, iv(0))
            return eq(y.ref, iv(0))
        a, b = self.flatten(st, xt, x), self.flatten(st, yt, y)
        if kx == "array":
            n = self.p.u(xt)["len"]
            return And(*[eq(sel(p, iv(i)), sel(q, iv(i))) for p, q in zip(a, b) for i in range(n)])
        return And(*[eq(p, q) for p, q in zip(a, b)])

    def convert(self, st, ft, tt, x):
        fk, tk = self.p.kind(ft), self.p.kind(tt)
        if fk == "int" and tk == "int":
            fl, fh = self.rng(ft)
            tl, th = self.rng(tt)
            if fl >= tl and fh <= th:
                return x
            return self.wrap(st, x, tt)
        if fk == "int" and tk == "float":
            self.note("int-to-float conversion treated as exact")
            return z3.ToReal(x)
        if fk == "float" and tk == "int":
            self.note("float-to-int conversion truncates the exact real value; out-of-range is unspecified")
            e = unreal(x)
            lo, hi = self.rng(tt)
            if e is not None:
                if self.qf_entails(st, z3.And(e >= lo, e <= hi)):
                    return e
            else:
                e = z3.If(x >= 0, z3.ToInt(x), -z3.ToInt(-x))
            r = fresh(I, "f2i")
            st.assume(z3.Implies(z3.And(e >= lo, e <= hi), r == e))
            st.assume(z3.And(r >= lo, r <= hi))
            return r
        if fk == "float" and tk == "float":
            return x
        if fk == "slice" and tk == "string":
            c = self.slice_content(st, x, self.p.elem(ft))[0]
            f = z3.Function("str_of", AI, I, I, S)
            r = f(c, x.off, x.len)
            st.assume(slen(r) == x.len)
            j = z3.Int("j!s%d" % fresh_n())
            st.assume(z3.ForAll([j], z3.Implies(z3.And(j >= 0, j < x.len),
                                                z3.Select(sbyte(r), j) == z3.Select(c, j + x.off)),
                                patterns=[z3.Select(sbyte(r), j)]))
            return r
        if fk == "string" and tk == "slice":
            n = slen(x)
            st.assume(z3.And(n >= 0, n <= (1 << 48)))
            r = self.new_backing(st, self.p.elem(tt), [sbyte(x)])
            return Slice(r, iv(0), n, n)
        if fk == "int" and tk == "string":
            return z3.Function("str_of_rune", I, S)(x)
        return x

    # ------------------------------------------------------------ running a function
    def run(self, fn, args, st, depth=0, bind=(), deferred=False):
        """execute fn; returns list of Res"""
        f = self.p.funcs.get(fn)
        if f is None or f.blocks is None:
            raise Unsupported("no body for " + fn)
        if depth > self.opts["inline_depth"]:
            raise Unsupported("inline depth at " + fn)
        fr = Frame(f, depth, deferred=deferred)
        env = {"$defers": ()}
        for p, a in zip(f.params, args):
            env[p["n"]] = a
        for p, a in zip(f.free, bind):
            env[p["n"]] = a
        exits, backs, res = self.region(fr, [(0, None, env, st)], None, None)
        if len([r for r in res if r.kind == RET]) > self.mergen() and depth > 0:
            res = self.merge_results(res, f)
        return res

    def mergen(self):
        return int(self.cur.opts.get("paths", MERGE_N)) if self.cur else MERGE_N

    def merge_results(self, res, f):
        rets = [r for r in res if r.kind == RET]
        others = [r for r in res if r.kind != RET]
        rt = self.p.t(f.sig)["results"]
        items = [({"$r%d" % i: v for i, v in enumerate(r.val)}, r.st) for r in rets]
        types = {"$r%d" % i: t for i, t in enumerate(rt)}
        merged = self.merge_all(items, types)
        return others + [Res(RET, s, [e["$r%d" % i] for i in range(len(rt))]) for e, s in merged]

    # region execution ----------------------------------------------------
    def region(self, fr, entries, blocks, header):
        """run from entries [(block, prev, env, st)], staying inside `blocks` (None: all).
        Returns (exits [(block, prev, env, st)], backs [(prev, env, st)], results)"""
        f = fr.fn
        rpo, loops = f.an["rpo"], f.an["loops"]
        pend = {}
        exits, backs, results = [], [], []

        def put(b, prev, env, st):
            if blocks is not None and b not in blocks:
                exits.append((b, prev, env, st))
                return
            env = self.phis(fr, b, prev, env, st)
            if b == header:
                b2 = self.thread(fr, b, env)
                if b2 is not None and b2 not in blocks:
                    exits.append((b2, b, env, st))    # this pass of the header leaves the loop
                else:
                    backs.append((prev, env, st))
                return
            pend.setdefault(b, []).append((env, st))

        first = True
        for (b, prev, env, st) in entries:
            if b == header:
                pend.setdefault(b, []).append((env, st))
            else:
                put(b, prev, env, st)
        while pend:
            b = min(pend, key=lambda x: rpo[x])
            items = pend.pop(b)
            if len(items) > self.mergen() or (len(items) > 1 and self.cur and self.cur.opts.get("merge")):
                items = self.merge_all(items, self.regtypes(f))
            if len(items) > 400:
                raise Unsupported("too many paths in " + f.name)
            for env, st in items:
                self.tick()
                if b in loops and b != header:
                    ex, rs = self.loop(fr, b, env, st)
                    results += rs
                    for (b2, prev2, env2, st2) in ex:
                        if blocks is not None and b2 not in blocks:
                            # leaving the enclosing loop as well
                            exits.append((b2, prev2, env2, st2))
                        else:
                            put(b2, prev2, env2, st2)
                    continue
                outs, rs = self.block(fr, b, env, st)
                results += rs
                for (b2, env2, st2) in outs:
                    put(b2, b, env2, st2)
        return exits, backs, results

    def thread(self, fr, b, env):
        """the successor of loop header b when b only tests a flag whose value is known, else None"""
        vals = {}
        for ins in fr.fn.blocks[b].ins:
            if ins["op"] == "Phi":
                continue
            if ins["op"] == "UnOp" and ins.get("tok") == "!" and ins["x"].get("k") == "reg":
                x = vals.get(ins["x"]["n"], env.get(ins["x"]["n"]))
                if not z3.is_bool(x):
                    return None
                vals[ins["reg"]] = z3.simplify(z3.Not(x))
                continue
            if ins["op"] == "If" and ins["x"].get("k") == "reg":
                x = vals.get(ins["x"]["n"], env.get(ins["x"]["n"]))
                if not z3.is_bool(x):
                    return None
                x = z3.simplify(x)
                k = 0 if z3.is_true(x) else 1 if z3.is_false(x) else None
                return None if k is None else fr.fn.blocks[b].succs[k]
            return None
        return None

    def regtypes(self, f):
        c = getattr(f, "_regt", None)
        if c is None:
            c = {}
            for p in f.params + f.free:
                c[p["n"]] = p["t"]
            for b in f.blocks:
                for ins in b.ins:
                    if "reg" in ins and "t" in ins:
                        c[ins["reg"]] = ins["t"]
            f._regt = c
        return c

    def phis(self, fr, b, prev, env, st):
        blk = fr.fn.blocks[b]
        new = None
        for ins in blk.ins:
            if ins["op"] != "Phi":
                break
            if new is None:
                new = dict(env)
                k = blk.preds.index(prev)
            new[ins["reg"]] = self.val(fr, env, st, ins["args"][k])
        return new if new is not None else env

    # merging ---------------------------------------------------------------
    def merge_all(self, items, types):
        groups = []
        for env, st in items:
            for g in groups:
                m = self.merge2(g[0], g[1], env, st, types)
                if m is not None:
                    g[0], g[1] = m
                    break
            else:
                groups.append([env, st])
        return [(e, s) for e, s in groups]

    def merge2(self, e1, s1, e2, s2, types):
        if s1.panicking != s2.panicking or s1.old is not s2.old:
            return None
        if set(s1.locks) != set(s2.locks) or any(s1.locks[k] != s2.locks[k] for k in s1.locks):
            return None
        if s1.fwd.keys() != s2.fwd.keys() or any(not s1.fwd[k].eq(s2.fwd[k]) for k in s1.fwd):
            return None
        d1, d2 = e1.get("$defers", ()), e2.get("$defers", ())
        if len(d1) != len(d2) or any(a is not b for a, b in zip(d1, d2)):
            return None
        c1, c2 = (s1.pc.chain() if s1.pc else []), (s2.pc.chain() if s2.pc else [])
        k = 0
        while k < len(c1) and k < len(c2) and c1[k] is c2[k]:
            k += 1
        s1, s2 = s1.fork(), s2.fork()
        sel_ = fresh(B, "br")
        st = s1.fork()
        # values first (may add facts to s1/s2)
        env = {}
        try:
            for r in e1:
                if r in e2:
                    if r == "$defers":
                        env[r] = e1[r]
                        continue
                    a, b = e1[r], e2[r]
                    if same(a, b):
                        env[r] = a
                        continue
                    t = types.get(r)
                    if t is None:
                        return None
                    ca, cb = self.flatten(s1, t, a), self.flatten(s2, t, b)
                    env[r] = self.unflatten(t, [If(sel_, x, y) for x, y in zip(ca, cb)])
        except (Unsupported, AttributeError, TypeError):
            return None
        if s1.fwd.keys() != s2.fwd.keys() or any(not s1.fwd[k_].eq(s2.fwd[k_]) for k_ in s1.fwd):
            return None
        locs = {}
        for l in s1.locals:
            if l in s2.locals:
                t, ca = s1.locals[l]
                cb = s2.locals[l][1]
                cc = []
                for x, y in zip(ca, cb):
                    if same(x, y):
                        cc.append(x)
                    elif z3.is_expr(x) and z3.is_expr(y):
                        cc.append(If(sel_, x, y))
                    else:
                        return None
                locs[l] = [t, cc]
        if not s1.A.eq(s2.A):
            A = z3.If(s1.A < s2.A, s1.A, s2.A)
            st.A = fresh(I, "A")
            extraA = [st.A <= s1.A, st.A <= s2.A]
        else:
            st.A, extraA = s1.A, []
        heap = {}
        for key in set(s1.heap) | set(s2.heap):
            a = s1.heap.get(key)
            b = s2.heap.get(key)
            if a is None:
                a = self.initheap[key]
            if b is None:
                b = self.initheap[key]
            heap[key] = a if a.eq(b) else z3.If(sel_, a, b)
        st.heap, st.locals = heap, locs
        st.fwd = dict(s1.fwd)
        c1, c2 = (s1.pc.chain() if s1.pc else []), (s2.pc.chain() if s2.pc else [])
        st.pc = c1[k - 1] if k > 0 else None
        r1, r2 = [x.f for x in c1[k:]], [x.f for x in c2[k:]]
        for f in r1:
            st.assume(Implies(sel_, f))
        for f in r2:
            st.assume(Implies(Not(sel_), f))
        for f in extraA:
            st.assume(f)
        st.known = {}
        if s1.trn is not None or s2.trn is not None:
            for s in (s1, s2):
                if s.trn is None:
                    self.init_trace(s)
            st.trn = If(sel_, s1.trn, s2.trn)
            st.tra = If(sel_, s1.tra, s2.tra)
        its = {}
        for kx in s1.iters:
            if kx in s2.iters:
                a, b = s1.iters[kx], s2.iters[kx]
                its[kx] = a if a.eq(b) else z3.If(sel_, a, b)
        st.iters = its
        gh = {}
        for kx in set(s1.ghost) | set(s2.ghost):
            a, b = s1.ghost.get(kx), s2.ghost.get(kx)
            if a is None or b is None:
                return None
            gh[kx] = a if a.eq(b) else z3.If(sel_, a, b)
        st.ghost = gh
        st.acq = s1.acq | s2.acq
        st.rebased = s1.rebased | s2.rebased
        if s1.notes is not s2.notes:
            return None
        st.notes = s1.notes
        # union of write logs
        st.wlog = self.merge_log(s1.wlog, s2.wlog)
        return env, st

    def merge_log(self, a, b):
        la, lb = self.logset(a), self.logset(b)
        r = a
        ids = {id(x) for x in la}
        for e in lb:
            if id(e) not in ids:
                r = (r, e)
        return r

    def logset(self, l, stop=None):
        r = []
        while l is not None and l is not stop:
            r.append(l[1])
            l = l[0]
        r.reverse()
        return r

    # blocks ------------------------------------------------------------------
    def block(self, fr, b, env, st):
        """returns (outs [(block, env, st)], results)"""
        f = fr.fn
        blk = f.blocks[b]
        work = [(0, env, st)]
        outs, results = [], []
        while work:
            i, env, st = work.pop()
            while True:
                ins = blk.ins[i]
                op = ins["op"]
                if op == "Phi":
                    i += 1
                    continue
                if op == "Jump":
                    outs.append((blk.succs[0], env, st))
                    break
                if op == "If":
                    c = self.val(fr, env, st, ins["x"])
                    if z3.is_true(c):
                        outs.append((blk.succs[0], env, st))
                    elif z3.is_false(c):
                        outs.append((blk.succs[1], env, st))
                    else:
                        f1, f2 = self.feasible(st, c), self.feasible(st, Not(c))
                        if f1 and f2:
                            s2 = st.fork()
                            st.assume(c)
                            s2.assume(Not(c))
                            outs.append((blk.succs[0], dict(env), st))
                            outs.append((blk.succs[1], env, s2))
                        elif f1:
                            outs.append((blk.succs[0], env, st))
                        elif f2:
                            outs.append((blk.succs[1], env, st))
                    break
                if op == "Return":
                    vals = [self.val(fr, env, st, a) for a in ins["args"]]
                    results.append(Res(RET, st, vals))
                    break
                if op == "Panic":
                    self.val(fr, env, st, ins["x"])
                    results += self.raise_(fr, env, st, "explicit panic")
                    break
                env2 = dict(env)
                rs = self.step(fr, env2, st, ins)
                # rs: list of (kind, env, st[, why])
                cont = []
                for r in rs:
                    if r[0] == "ok":
                        cont.append(r)
                    else:
                        results += self.raise_(fr, r[1], r[2], r[3])
                if not cont:
                    break
                if len(cont) > self.mergen():
                    mm = self.merge_all([(r[1], r[2]) for r in cont], self.regtypes(f))
                    cont = [("ok", e, s) for e, s in mm]
                i += 1
                for r in cont[1:]:
                    work.append((i, r[1], r[2]))
                env, st = cont[0][1], cont[0][2]
        return outs, results

    def raise_(self, fr, env, st, why):
        """a panic leaves the current function: run its deferred calls"""
        if not self.feasible(st):
            return []
        st.panicking = why
        return self.unwind(fr, env, st, env.get("$defers", ()), why)

    def unwind(self, fr, env, st, defers, why):
        if not defers:
            if st.panicking is None:
                # recovered: return through the recover block
                if fr.fn.recover is not None:
                    ex, bk, rs = self.region(fr, [(fr.fn.recover, None, dict(env, **{"$defers": ()}), st)], None, None)
                    return rs
                rt = self.p.t(fr.fn.sig)["results"]
                return [Res(RET, st, [self.zero(t) for t in rt])]
            return [Res(PANIC, st, None, why)]
        out = []
        for r in self.call_value(fr, env, st, defers[-1], deferred=True):
            if r.kind == PANIC:
                r.st.panicking = r.why
                out += self.unwind(fr, env, r.st, defers[:-1], r.why)
            else:
                out += self.unwind(fr, env, r.st, defers[:-1], why)
        return out

    def run_defers(self, fr, env, st):
        """normal exit: returns list of step results"""
        out = []

        def go(st, defers):
            if not defers:
                e = dict(env)
                e["$defers"] = ()
                out.append(("ok", e, st))
                return
            for r in self.call_value(fr, env, st, defers[-1], deferred=True):
                if r.kind == PANIC:
                    e = dict(env)
                    e["$defers"] = defers[:-1]
                    out.append(("panic", e, r.st, r.why))
                else:
                    go(r.st, defers[:-1])
        go(st, env.get("$defers", ()))
        return out

    # single instruction --------------------------------------------------------
    def nilcheck(self, st, ptr):
        """panic condition of dereferencing ptr, or None"""
        if isinstance(ptr, LV):
            return None
        if isn(ptr):
            return z3.BoolVal(ptr.as_long() == 0) if ptr.as_long() == 0 else None
        k = ("nn", ptr.get_id())
        if k in st.known:
            return None
        a = self.allocs.get(ptr.get_id())
        if a is not None:
            return None
        return ptr == 0

    def guard(self, env, st, pan, why):
        """split off a panic path for condition pan; returns (panic results, ok?)"""
        if pan is None:
            return [], True
        if z3.is_true(pan):
            return [("panic", env, st, why)], False
        if not self.feasible(st, pan):
            st.assume(Not(pan))
            return [], True
        out = []
        s2 = st.fork()
        s2.assume(pan)
        out.append(("panic", dict(env), s2, why))
        st.assume(Not(pan))
        if not self.feasible(st):
            return out, False
        return out, True

    def step(self, fr, env, st, ins):
        op = ins["op"]
        h = getattr(self, "i_" + op, None)
        if h is None:
            raise Unsupported("instruction %s in %s" % (op, fr.fn.name))
        return h(fr, env, st, ins)

    def setr(self, env, st, ins, v):
        env[ins["reg"]] = v
        return [("ok", env, st)]

    def i_Alloc(self, fr, env, st, ins):
        t = self.p.elem(ins["t"])
        if self.p.kind(t) == "array":
            r = self.alloc(st)
            e = self.p.elem(t)
            for key, c in self.elemkeys(e):
                st.heap[key] = store(self.hget(st, key, c), r, z3.K(I, self.zerocomp(c)))
                st.log("H", key, r)
            return self.setr(env, st, ins, r)
        self.nlocal += 1
        lid = self.nlocal
        st.locals[lid] = [t, [self.zerocomp(c) for c in self.p.comps(t)]]
        return self.setr(env, st, ins, LV("local", t, lid, None, 0, t))

    def i_BinOp(self, fr, env, st, ins):
        x, y = self.val(fr, env, st, ins["x"]), self.val(fr, env, st, ins["y"])
        if ins["tok"] in ("/", "%") and self.p.kind(ins["x"].get("t", ins["y"].get("t"))) == "int":
            y_ = y
            if not isn(y_) or y_.as_long() == 0:
                out, ok = self.guard(env, st, eq(y_, iv(0)), "division by zero")
                if not ok:
                    return out
                v, _ = self.binop(fr, st, ins, x, y)
                return out + self.setr(env, st, ins, v)
        v, pan = self.binop(fr, st, ins, x, y)
        out, ok = self.guard(env, st, pan, "division by zero")
        return out + (self.setr(env, st, ins, v) if ok else [])

    def i_UnOp(self, fr, env, st, ins):
        tok = ins["tok"]
        x = self.val(fr, env, st, ins["x"])
        if tok == "*":
            et = self.p.elem(ins["x"]["t"])
            out, ok = self.guard(env, st, self.nilcheck(st, x), "nil dereference")
            if not ok:
                return out
            if not isinstance(x, LV):
                st.known[("nn", x.get_id())] = x
            lv = self.lv_of_ptr(st, x, et)
            return out + self.setr(env, st, ins, self.load(st, lv))
        if tok == "!":
            return self.setr(env, st, ins, Not(x))
        if tok == "-":
            if self.p.kind(ins["t"]) == "float":
                return self.setr(env, st, ins, -x)
            return self.setr(env, st, ins, self.wrap(st, sub(iv(0), x), ins["t"]))
        if tok == "^":
            bits, sg = self.p.intinfo(ins["t"])
            return self.setr(env, st, ins, sub(iv(-1), x) if sg else sub(iv((1 << bits) - 1), x))
        if tok == "<-":
            return self.recv(fr, env, st, ins, x)
        raise Unsupported("unop " + tok)

    def i_FieldAddr(self, fr, env, st, ins):
        x = self.val(fr, env, st, ins["x"])
        out, ok = self.guard(env, st, self.nilcheck(st, x), "nil dereference")
        if not ok:
            return out
        if not isinstance(x, LV):
            st.known[("nn", x.get_id())] = x
        t = self.p.elem(ins["x"]["t"])
        off, ft = self.p.fieldoff(t, ins["i"])
        lv = self.lv_of_ptr(st, x, t)
        return out + self.setr(env, st, ins, lv.sub(off, ft))

    def i_Field(self, fr, env, st, ins):
        x = self.val(fr, env, st, ins["x"])
        return self.setr(env, st, ins, x.f[ins["i"]])

    def i_IndexAddr(self, fr, env, st, ins):
        x, i = self.val(fr, env, st, ins["x"]), self.val(fr, env, st, ins["y"])
        xt = ins["x"]["t"]
        k = self.p.kind(xt)
        if k == "slice":
            et = self.p.elem(xt)
            pan = Or(i < 0, i >= x.len) if not (isn(i) and isn(x.len)) else \
                (None if 0 <= i.as_long() < x.len.as_long() else z3.BoolVal(True))
            out, ok = self.guard(env, st, pan, "index out of range")
            if not ok:
                return out
            return out + self.setr(env, st, ins, LV("elem", et, x.ref, add(x.off, i), 0, et))
        # pointer to array
        at = self.p.elem(xt)
        n = self.p.u(at)["len"]
        et = self.p.elem(at)
        if isn(i):
            pan = None if 0 <= i.as_long() < n else z3.BoolVal(True)
        else:
            pan = Or(i < 0, i >= n)
        out, ok = self.guard(env, st, pan, "index out of range")
        if not ok:
            return out
        if isinstance(x, LV):
            x = self.resolve(st, x)
            return out + self.setr(env, st, ins, LV(x.kind, x.root, x.ref, x.idx, x.off, et, x.aidx + (i,)))
        return out + self.setr(env, st, ins, LV("elem", et, x, i, 0, et))

    def i_Index(self, fr, env, st, ins):
        x, i = self.val(fr, env, st, ins["x"]), self.val(fr, env, st, ins["y"])
        xt = ins["x"]["t"]
        if self.p.kind(xt) == "string":
            out, ok = self.guard(env, st, Or(i < 0, i >= slen(x)), "index out of range")
            if not ok:
                return out
            v = z3.Select(sbyte(x), i)
            self.typefacts(st, ins["t"], [v])
            return out + self.setr(env, st, ins, v)
        n = self.p.u(xt)["len"]
        pan = (None if 0 <= i.as_long() < n else z3.BoolVal(True)) if isn(i) else Or(i < 0, i >= n)
        out, ok = self.guard(env, st, pan, "index out of range")
        if not ok:
            return out
        cs = [sel(c, i) for c in x.c]
        self.typefacts(st, ins["t"], cs)
        return out + self.setr(env, st, ins, self.unflatten(ins["t"], cs))

    def i_Store(self, fr, env, st, ins):
        x, y = self.val(fr, env, st, ins["x"]), self.val(fr, env, st, ins["y"])
        out, ok = self.guard(env, st, self.nilcheck(st, x), "nil dereference")
        if not ok:
            return out
        lv = self.lv_of_ptr(st, x, self.p.elem(ins["x"]["t"]))
        self.storev(st, lv, y)
        return out + [("ok", env, st)]

    def i_ChangeType(self, fr, env, st, ins):
        return self.setr(env, st, ins, self.val(fr, env, st, ins["x"]))

    i_ChangeInterface = i_ChangeType

    def i_Convert(self, fr, env, st, ins):
        x = self.val(fr, env, st, ins["x"])
        return self.setr(env, st, ins, self.convert(st, ins["x"]["t"], ins["t"], x))

    def i_Extract(self, fr, env, st, ins):
        return self.setr(env, st, ins, self.val(fr, env, st, ins["x"]).f[ins["i"]])

    def i_MakeInterface(self, fr, env, st, ins):
        x = self.val(fr, env, st, ins["x"])
        t = ins["x"]["t"]
        return self.setr(env, st, ins, self.mkiface(st, t, x))

    def mkiface(self, st, t, x):
        if self.p.kind(t) in ("ptr", "map", "chan") and z3.is_expr(x):
            return Iface(iv(self.tag(t)), x, (t, x))
        return Iface(iv(self.tag(t)), None, (t, x))

    def i_MakeClosure(self, fr, env, st, ins):
        b = [self.val(fr, env, st, a) for a in ins["args"]]
        return self.setr(env, st, ins, Closure(ins["fn"]["n"], b))

    def i_MakeMap(self, fr, env, st, ins):
        return self.setr(env, st, ins, self.new_map(st, ins["t"]))

    def i_MakeChan(self, fr, env, st, ins):
        n = self.val(fr, env, st, ins["x"])
        r = self.alloc(st)
        key = ("#chancap",)
        h = self.hget(st, key, "I")
        st.heap[key] = store(h, r, n)
        st.log("H", key, r)
        return self.setr(env, st, ins, r)

    def i_MakeSlice(self, fr, env, st, ins):
        n, c = self.val(fr, env, st, ins["x"]), self.val(fr, env, st, ins["y"])
        pan = Or(n < 0, c < n) if not (isn(n) and isn(c)) else None
        out, ok = self.guard(env, st, pan, "makeslice: len out of range")
        if not ok:
            return out
        if not isn(c):
            st.assume(c <= (1 << 48))
            self.note("allocations succeed and are smaller than 2^48 elements")
        r = self.new_backing(st, self.p.elem(ins["t"]))
        return out + self.setr(env, st, ins, Slice(r, iv(0), n, c))

    def i_Slice(self, fr, env, st, ins):
        x = self.val(fr, env, st, ins["x"])
        xt = ins["x"]["t"]
        k = self.p.kind(xt)
        g = lambda n: self.val(fr, env, st, ins[n]) if ins.get(n) else None
        lo, hi, mx = g("lo"), g("hi"), g("max")
        lo = lo if lo is not None else iv(0)
        if k == "string":
            n = slen(x)
            hi = hi if hi is not None else n
            out, ok = self.guard(env, st, Or(lo < 0, hi < lo, hi > n), "slice bounds out of range")
            if not ok:
                return out
            r = ssub(x, lo, hi)
            st.assume(slen(r) == hi - lo)
            j = z3.FreshConst(I, "sj")
            st.assume(z3.ForAll([j], z3.Implies(z3.And(j >= 0, j < hi - lo),
                                                z3.Select(sbyte(r), j) == z3.Select(sbyte(x), lo + j)),
                                patterns=[z3.Select(sbyte(r), j)]))
            return out + self.setr(env, st, ins, r)
        if k == "slice":
            hi = hi if hi is not None else x.len
            cp = x.cap
            m = mx if mx is not None else cp
            conds = []
            if not (isn(lo) and lo.as_long() == 0):
                conds.append(lo < 0)
            conds += [hi < lo, hi > (m if mx is not None else cp)]
            if mx is not None:
                conds.append(mx > cp)
            cs2 = []
            for c in conds:
                c = simp(c)
                if not z3.is_false(c):
                    cs2.append(c)
            out, ok = self.guard(env, st, Or(*cs2) if cs2 else None, "slice bounds out of range")
            if not ok:
                return out
            return out + self.setr(env, st, ins, Slice(x.ref, add(x.off, lo), sub(hi, lo), sub(m, lo)))
        # pointer to array
        at = self.p.elem(xt)
        n = iv(self.p.u(at)["len"])
        if isinstance(x, LV):
            raise Unsupported("slicing an embedded array")
        hi = hi if hi is not None else n
        m = mx if mx is not None else n
        c = simp(Or(lo < 0, hi < lo, hi > m, m > n))
        out, ok = self.guard(env, st, None if z3.is_false(c) else c, "slice bounds out of range")
        if not ok:
            return out
        return out + self.setr(env, st, ins, Slice(x, lo, sub(hi, lo), sub(m, lo)))

    def i_Lookup(self, fr, env, st, ins):
        x, kx = self.val(fr, env, st, ins["x"]), self.val(fr, env, st, ins["y"])
        xt = ins["x"]["t"]
        if self.p.kind(xt) == "string":
            return self.i_Index(fr, env, st, dict(ins))
        et = self.p.elem(xt)
        pres, cs = self.map_get(st, xt, x, kx)
        self.typefacts(st, et, cs)
        z = [self.zerocomp(c) for c in self.p.comps(et)]
        v = self.unflatten(et, [If(pres, a, b) for a, b in zip(cs, z)])
        return self.setr(env, st, ins, Tup([v, pres]) if ins["ok"] else v)

    def i_MapUpdate(self, fr, env, st, ins):
        m, k, v = (self.val(fr, env, st, ins[n]) for n in "xyz")
        out, ok = self.guard(env, st, self.nilcheck(st, m), "assignment to entry in nil map")
        if not ok:
            return out
        self.map_put(st, ins["x"]["t"], m, k, v)
        return out + [("ok", env, st)]

    def i_Range(self, fr, env, st, ins):
        x = self.val(fr, env, st, ins["x"])
        self.nlocal += 1
        k = self.p.kind(ins["x"]["t"])
        it = Iter(self.nlocal, x, ins["x"]["t"], k)
        if k == "map":
            ks = self.keysort(self.p.u(ins["x"]["t"])["key"])
            st.iters[it.id] = z3.K(ks, z3.BoolVal(False))
        else:
            st.iters[it.id] = iv(0)
        return self.setr(env, st, ins, it)

    def i_Next(self, fr, env, st, ins):
        it = self.val(fr, env, st, ins["x"])
        if it.kind != "map":
            pos = st.iters[it.id]
            ok = pos < slen(it.m)
            s2 = st.fork()
            s2.assume(Not(ok))
            e2 = dict(env)
            e2[ins["reg"]] = Tup([z3.BoolVal(False), iv(0), iv(0)])
            st.assume(ok)
            r = fresh(I, "rune")
            st.assume(z3.And(r >= 0, r <= 0x10FFFF))
            np = fresh(I, "np")
            st.assume(z3.And(np > pos, np <= pos + 4, np <= slen(it.m)))
            st.assume(z3.Implies(z3.Select(sbyte(it.m), pos) < 128, z3.And(np == pos + 1, r == z3.Select(sbyte(it.m), pos))))
            st.iters[it.id] = np
            st.log("IT", it.id)
            env[ins["reg"]] = Tup([z3.BoolVal(True), pos, r])
            return [("ok", env, st), ("ok", e2, s2)]
        mt = it.tid
        kt = self.p.u(mt)["key"]
        et = self.p.elem(mt)
        vis = st.iters[it.id]
        dom = self.map_dom(st, mt, it.m)
        # exhausted
        s2 = st.fork()
        ks = self.keysort(kt)
        kk = z3.Const("k!it%d" % fresh_n(), ks)
        exh = z3.Implies(z3.And(it.m != 0, z3.Select(dom, kk)), z3.Select(vis, kk))
        try:
            s2.assume(z3.ForAll([kk], exh, patterns=[z3.Select(dom, kk), z3.Select(vis, kk)]))
        except z3.Z3Exception:
            s2.assume(z3.ForAll([kk], exh))
        e2 = dict(env)
        tt = self.p.t(ins["t"])["elems"]
        e2[ins["reg"]] = Tup([z3.BoolVal(False), self.zero(kt), self.zero(et)])
        # one more
        kc = [fresh(sort(c), "rk") for c in self.p.comps(kt)]
        self.typefacts(st, kt, kc)
        kv = self.unflatten(kt, kc)
        ke = self.keyexpr(st, kt, kv)
        st.assume(it.m != 0)
        st.assume(sel(dom, ke))
        st.assume(Not(sel(vis, ke)))
        gk = ("#gh", "curkey")   # ghost: the key the latest map iteration step produced
        st.heap[gk] = store(self.hget(st, gk, "I"), iv(0), self.evint(st, ke))
        st.log("H", gk, iv(0))
        st.iters[it.id] = z3.Store(vis, ke, z3.BoolVal(True))
        st.log("IT", it.id)
        pres, cs = self.map_get(st, mt, it.m, kv)
        self.typefacts(st, et, cs)
        env[ins["reg"]] = Tup([z3.BoolVal(True), kv, self.unflatten(et, cs)])
        outs = []
        if self.feasible(st):
            outs.append(("ok", env, st))
        ln = self.map_len(s2, mt, it.m)
        outs.append(("ok", e2, s2))
        return outs

    def i_TypeAssert(self, fr, env, st, ins):
        x = self.val(fr, env, st, ins["x"])
        at = ins["at"]
        conc = self.p.kind(at) != "iface"
        tags = None
        if x.dyn is not None:
            dt = x.dyn[0]
            if conc:
                ok = z3.BoolVal(dt == at)
                v = x.dyn[1] if dt == at else self.zero(at)
            else:
                ok = z3.BoolVal(self.implements(dt, at))
                v = x if z3.is_true(ok) else self.zero(at)
        elif conc:
            ok = eq(x.tag, iv(self.tag(at)))
            if self.p.kind(at) in ("ptr", "map", "chan", "func"):
                cs = [x.pay]
            else:
                _, un = self.boxfns(at)
                cs = [f(x.pay) for f in un]
            if not z3.is_false(ok):
                s_ = st.fork()
                fs = []
                self._tf(st, at, cs, fs)
                for f in fs:
                    st.assume(Implies(ok, f))
            v = self.unflatten(at, cs)
        else:
            f = z3.Function("impl_t%d" % at, I, B)
            for tt, n in list(self.tags.items()):
                st.assume(f(iv(n)) == z3.BoolVal(self.implements(tt, at)))
            ok = And(x.tag != 0, f(x.tag))
            if isn(x.tag) and x.tag.as_long() == 0:
                ok = z3.BoolVal(False)
            elif self.p.u(ins["x"]["t"]) is self.p.u(at) or not self.p.u(at)["methods"]:
                ok = x.tag != 0
            v = x
        if ins["ok"]:
            z = self.zero(at)
            if z3.is_true(ok):
                r = v
            elif z3.is_false(ok):
                r = z
            else:
                # split: keeps python-level structure simple
                f1, f2 = self.feasible(st, ok), self.feasible(st, Not(ok))
                outs = []
                if f2:
                    s2 = st.fork() if f1 else st
                    s2.assume(Not(ok))
                    e2 = dict(env)
                    e2[ins["reg"]] = Tup([z, z3.BoolVal(False)])
                    outs.append(("ok", e2, s2))
                if f1:
                    st.assume(ok)
                    env[ins["reg"]] = Tup([v, z3.BoolVal(True)])
                    outs.insert(0, ("ok", env, st))
                return outs
            return self.setr(env, st, ins, Tup([r, ok]))
        out, good = self.guard(env, st, Not(ok), "type assertion")
        if not good:
            return out
        return out + self.setr(env, st, ins, v)

    def implements(self, dt, it):
        ms = self.p.methods.get(dt, {})
        need = self.p.u(it).get("methods", [])
        return all(m in ms for m in need)

    # channels
    def recv(self, fr, env, st, ins, ch):
        t = ins["t"]
        et = self.p.elem(ins["x"]["t"])
        return self.setr(env, st, ins, self.recvval(st, et, ch, ins["ok"]))

    def chanlen(self, ch):
        return z3.Function("chanlen", I, I)(ch)

    def chanat(self, st, et, ch, i):
        """the i-th value this receiver gets from channel ch (an arbitrary but fixed sequence)"""
        cs = [z3.Function("chanat:%s:%d" % (self.p.t(et)["str"], j), I, I, sort(c))(ch, i) for j, c in enumerate(self.p.comps(et))]
        self.typefacts(st, et, cs)
        return self.unflatten(et, cs)

    def recvval(self, st, et, ch, ok):
        key = ("#recvd",)
        h = self.hget(st, key, "I")
        n = sel(h, ch)
        st.assume(n >= 0)
        some = n < self.chanlen(ch)
        a = self.flatten(st, et, self.chanat(st, et, ch, n))
        z = self.flatten(st, et, self.zero(et))
        v = self.unflatten(et, [x if x.eq(y) else z3.If(some, x, y) for x, y in zip(a, z)])
        st.heap[key] = store(h, ch, z3.If(some, n + 1, n))
        st.log("H", key, ch)
        self.emit(st, "recv", ch, *[x for x in a[:1] + a[-1:] if z3.is_expr(x)][:2])
        return Tup([v, some]) if ok else v

    def evval(self, st, t, v):
        """a sent value as event arguments: a struct by its first and last component"""
        k = self.p.kind(t)
        if isinstance(v, Iface):
            v = self.boxed(st, v)
        cs = self.flatten(st, t, v)
        if k == "iface":
            return cs[1], cs[0]
        if k == "struct" and len(cs) > 1:
            return cs[0], cs[-1]
        return (cs[0] if cs and z3.is_expr(cs[0]) else iv(0)), iv(0)

    def i_Send(self, fr, env, st, ins):
        ch, v = self.val(fr, env, st, ins["x"]), self.val(fr, env, st, ins["y"])
        self.emit(st, "send", ch, *self.evval(st, ins["y"]["t"], v))
        if self.cur is not None and "runsent" in self.cur.opts and self.p.kind(ins["y"]["t"]) == "func":
            # the receiver runs it (its loop is under its own contract)
            self.note("%s: the functions it sends are verified as run once by the receiver" % self.curname())
            st.notes = st.notes + ({"mode": "call", "fn": v, "args": [], "argt": [], "sig": ins["y"]["t"]},)
        return [("ok", env, st)]

    def i_Select(self, fr, env, st, ins):
        outs = []
        n = len(ins["states"])
        et = self.p.t(ins["t"])["elems"]
        for k in range(n + (0 if ins["blocking"] else 1)):
            s = st.fork()
            e = dict(env)
            vals = [iv(k if k < n else -1), fresh(B, "rok")]
            rx = [c for c in ins["states"] if c["dir"] == 2]
            for j, c in enumerate(rx):
                if k < n and c is ins["states"][k]:
                    q = self.recvval(s, et[2 + j], self.val(fr, env, s, c["ch"]), True)
                    vals.append(q.f[0])
                    vals[1] = q.f[1]
                else:
                    vals.append(self.zero(et[2 + j]))
            if k < n:
                c = ins["states"][k]
                ch = self.val(fr, env, s, c["ch"])
                if z3.is_expr(ch):
                    s.assume(ch != 0)
                if c["dir"] == 1:
                    v = self.val(fr, env, s, c["v"])
                    self.emit(s, "send", ch, *self.evval(s, c["v"]["t"], v))
            e[ins["reg"]] = Tup(vals)
            if self.feasible(s):
                outs.append(("ok", e, s))
        return outs

    def i_RunDefers(self, fr, env, st, ins):
        return self.run_defers(fr, env, st)

    def i_Defer(self, fr, env, st, ins):
        cv = self.eval_call(fr, env, st, ins["call"])
        env["$defers"] = env["$defers"] + (cv,)
        return [("ok", env, st)]

    def i_Go(self, fr, env, st, ins):
        cv = self.eval_call(fr, env, st, ins["call"])
        return self.spawn(fr, env, st, cv)

    def spawn(self, fr, env, st, cv):
        nm, fid = self.callname(st, cv)
        a0 = iv(0)
        self.emit(st, "go:" + nm, fid, a0)
        import contract
        contract.onspawn(self, st, cv)
        if isinstance(cv.get("fn"), Closure) and not cv["fn"].bind:
            contract.oncall(self, st, "go:" + cv["fn"].fn, cv["args"], cv["argt"])
        f = cv.get("fn")
        if self.cur is not None and "rungo" in self.cur.opts and isinstance(f, Closure):
            c = self.cs.get(f.fn)
            if c is None or "background" not in c.opts:
                # its effects are added when the function ends, i.e. in the schedule that runs it last
                self.note("%s: the goroutines it starts are verified in the schedule that runs them after it" % self.curname())
                st.notes = st.notes + (cv,)
        return [("ok", env, st)]

    def run_spawned(self, res):
        """the goroutines started on each path (option rungo), one after the other; an unrecovered panic would end the process"""
        out = []
        for r in res:
            todo, sts = r.st.notes, [r.st]
            bad = []
            for cv in todo:
                nxt = []
                for st in sts:
                    st.notes = ()
                    for q in self.call_value(Frame(self.p.funcs[self.cur.fn], 0), {}, st, cv):
                        if q.kind == PANIC:
                            bad.append(Res(PANIC, q.st, None, "in a goroutine: %s" % q.why))
                        else:
                            nxt.append(q.st)
                sts = nxt
            out += bad + [Res(r.kind, st, r.val, r.why) for st in sts]
        return out

    def callname(self, st, cv):
        if cv["mode"] == "invoke":
            return "invoke:" + cv["method"], iv(0)
        f = cv["fn"]
        if isinstance(f, Closure):
            base = f.fn.split("$")[0] if "$" in f.fn else f.fn
            return ("closure" if "$" in f.fn and not f.fn.endswith("$bound") else f.fn), self.fnid(f)
        return "funcval", (f if z3.is_expr(f) else iv(0))

    # calls ---------------------------------------------------------------------
    def eval_call(self, fr, env, st, c):
        d = {"mode": c["mode"], "args": [self.val(fr, env, st, a) for a in c["args"]], "sig": c.get("sig"),
             "argt": [a.get("t") for a in c["args"]]}
        if c["args"] and c["mode"] != "invoke":
            d["arg0"] = c["args"][0]
        if c["mode"] == "invoke":
            d["recv"] = self.val(fr, env, st, c["recv"])
            d["method"], d["itype"] = c["method"], c["itype"]
        else:
            d["fn"] = self.val(fr, env, st, c["fn"])
        return d

    def i_Call(self, fr, env, st, ins):
        cv = self.eval_call(fr, env, st, ins["call"])
        out = []
        rs = self.call_value(fr, env, st, cv)
        for r in rs:
            e = dict(env) if len(rs) > 1 else env
            if r.kind == PANIC:
                out.append(("panic", e, r.st, r.why))
                continue
            n = self.p.kind(ins["t"])
            if n == "tuple":
                e[ins["reg"]] = Tup(r.val)
            else:
                e[ins["reg"]] = r.val[0] if r.val else None
            out.append(("ok", e, r.st))
        return out

    def call_value(self, fr, env, st, cv, deferred=False):
        """list of Res for a call"""
        if cv["mode"] == "invoke":
            return self.invoke(fr, st, cv, deferred)
        f = cv["fn"]
        if isinstance(f, tuple) and f[0] == "builtin":
            return self.builtin(fr, st, f[1], cv, deferred)
        if isinstance(f, Closure):
            return self.call_fn(fr, st, f.fn, cv["args"], f.bind, deferred, cv)
        return self.call_unknown(fr, st, f, cv)

    def call_fn(self, fr, st, fn, args, bind=(), deferred=False, cv=None):
        c = self.cs.get(fn)
        if c is not None and self.cur is not None and "inlines" in self.cur.opts and fn.split(".")[-1] in self.cur.opts["inlines"].split(","):
            c = None
        if c is not None and not c.inline and not (self.cur is not None and self.cur.fn == fn and fr.depth < 0):
            return self.apply_contract(fr, st, c, args)
        m = self.lib.MODELS.get(fn)
        if m is not None:
            return m(self, fr, st, args, cv)
        f = self.p.funcs.get(fn)
        if fn in self.lib.LOGGING and f is not None and (self.cur is None or "zlog." not in self.cur.fn):
            return self.lib.default(self, fr, st, fn, args, f)
        if f is not None and f.blocks is not None and not self.lib.opaque(fn):
            self.inlined[fn] = self.inlined.get(fn, 0) + 1
            return self.run(fn, args, st, fr.depth + 1, bind, deferred)
        return self.lib.default(self, fr, st, fn, args, f)

    def invoke(self, fr, st, cv, deferred=False):
        r = cv["recv"]
        it = self.p.t(cv["itype"])
        iname = it["str"]
        out = []
        pan = eq(r.tag, iv(0))
        if not z3.is_false(pan) and self.feasible(st, pan):
            k = ("nni", r.tag.get_id())
            if k not in st.known:
                s2 = st.fork()
                s2.assume(pan)
                out.append(Res(PANIC, s2, None, "nil interface call %s.%s" % (iname, cv["method"])))
                st.assume(Not(pan))
                if not self.feasible(st):
                    return out
                st.known[k] = r.tag
        if r.dyn is not None:
            t, x = r.dyn
            fn = self.p.methods.get(t, {}).get(cv["method"])
            if fn is None:
                raise Unsupported("no method %s on %s" % (cv["method"], self.p.t(t)["str"]))
            return out + self.call_fn(fr, st, fn, [x] + cv["args"], deferred=deferred, cv=cv)
        key = iname + "." + cv["method"]
        c = self.cs.get(key)
        if c is not None:
            return out + self.apply_contract(fr, st, c, [r] + cv["args"])
        m = self.lib.MODELS.get(key)
        if m is not None:
            return out + m(self, fr, st, [r] + cv["args"], cv)
        impls = self.cs.devirt.get(iname)
        if impls:
            todo = []
            for tn in impls:
                t = self.p.tid(tn)
                cond = eq(r.tag, iv(self.tag(t)))
                if z3.is_false(cond):
                    continue
                todo.append((t, cond))
            if not isn(r.tag):
                st.assume(Or(*[c_ for _, c_ in todo]))
            self.note("interface %s is implemented only by %s" % (iname, ", ".join(impls)))
            for j, (t, cond) in enumerate(todo):
                if not z3.is_true(cond) and not self.feasible(st, cond):
                    continue
                s = st.fork() if j < len(todo) - 1 else st
                s.assume(cond)
                if self.p.kind(t) == "ptr":
                    x = r.pay
                    fs = []
                    self._tf(s, t, [x], fs)
                    for f in fs:
                        s.assume(f)
                else:
                    _, un = self.boxfns(t)
                    cs = [f(r.pay) for f in un]
                    self.typefacts(s, t, cs)
                    x = self.unflatten(t, cs)
                fn = self.p.methods[t][cv["method"]]
                out += self.call_fn(fr, s, fn, [x] + cv["args"], deferred=deferred, cv=cv)
            return out
        return out + self.lib.default_invoke(self, fr, st, key, [r] + cv["args"], cv)

    def call_unknown(self, fr, st, f, cv):
        """call through a function value whose target is not known"""
        out = []
        pan = self.nilcheck(st, f)
        if pan is not None and self.feasible(st, pan):
            s2 = st.fork()
            s2.assume(pan)
            out.append(Res(PANIC, s2, None, "nil function call"))
            st.assume(Not(pan))
            if not self.feasible(st):
                return out
        sig = self.p.t(cv["sig"])
        c = self.cs.functypes.get(sig["str"])
        if c is None and sig["kind"] == "named":
            c = self.cs.functypes.get(self.p.u(cv["sig"])["str"])
        if c is not None:
            return out + self.apply_contract(fr, st, c, [f] + cv["args"])
        return out + self.lib.default_funcval(self, fr, st, f, cv)

    def islinear(self, fr, cv):
        o = cv.get("arg0")
        if o is None:
            return False
        if o.get("k") == "const":
            return True
        f = fr.fn
        if not hasattr(f, "linear"):
            import linear
            f.linear = linear.chains(self.p, f)
        return o.get("n") in f.linear

    def builtin(self, fr, st, n, cv, deferred):
        a, at = cv["args"], cv["argt"]
        ok = lambda *v: [Res(RET, st, list(v))]
        if n == "len":
            k = self.p.kind(at[0])
            if k == "slice":
                return ok(a[0].len)
            if k == "string":
                e = slen(a[0])
                st.assume(z3.And(e >= 0, e <= (1 << 48)))
                return ok(e)
            if k == "map":
                return ok(self.map_len(st, at[0], a[0]))
            if k == "array":
                return ok(iv(self.p.u(at[0])["len"]))
            if k == "ptr":
                return ok(iv(self.p.u(self.p.elem(at[0]))["len"]))
            if k == "chan":
                e = fresh(I, "chlen")
                st.assume(e >= 0)
                return ok(e)
        if n == "cap":
            k = self.p.kind(at[0])
            if k == "slice":
                return ok(a[0].cap)
            if k == "chan":
                e = sel(self.hget(st, ("#chancap",), "I"), a[0])
                st.assume(e >= 0)
                return ok(e)
            if k == "ptr":
                return ok(iv(self.p.u(self.p.elem(at[0]))["len"]))
        if n == "append":
            et = self.p.elem(at[0])
            b = a[1]
            if self.p.kind(at[1]) == "string":
                srcs, so, ln = [sbyte(b)], iv(0), slen(b)
            else:
                if isn(b.len) and b.len.as_long() == 0:
                    return ok(a[0])
                srcs, so, ln = self.slice_content(st, b, et), b.off, b.len
            return [Res(RET, s, [v]) for s, v in self.append(st, a[0], srcs, so, ln, et, self.islinear(fr, cv))]
        if n == "copy":
            et = self.p.elem(at[0])
            d = a[0]
            if self.p.kind(at[1]) == "string":
                srcs, so, ln = [sbyte(a[1])], iv(0), slen(a[1])
            else:
                srcs, so, ln = self.slice_content(st, a[1], et), a[1].off, a[1].len
            if self.qf_entails(st, ln <= d.len):
                m = ln
            elif self.qf_entails(st, d.len <= ln):
                m = d.len
            else:
                m = z3.If(ln <= d.len, ln, d.len)
            self.write_range(st, et, d.ref, d.off, srcs, so, m)
            return ok(m)
        if n == "delete":
            mt = at[0]
            m = a[0]
            if not (z3.is_expr(m) and m.get_id() in self.allocs):
                # delete on a nil map is a no-op
                if self.feasible(st, m == 0):
                    s2 = st.fork()
                    s2.assume(m == 0)
                    st.assume(m != 0)
                    self.map_del(st, mt, m, a[1])
                    return [Res(RET, st, []), Res(RET, s2, [])]
            self.map_del(st, mt, m, a[1])
            return ok()
        if n == "close":
            self.emit(st, "close", a[0])
            import contract
            contract.oncall(self, st, "close", [a[0]], cv["argt"])
            return ok()
        if n == "recover":
            if st.panicking is not None and fr.deferred:
                st.panicking = None
                e = Iface(fresh(I, "rt"), fresh(I, "rp"))
                st.assume(e.tag > 0)
                return ok(e)
            return ok(Iface(iv(0), iv(0)))
        if n in ("print", "println"):
            return ok()
        if n in ("min", "max"):
            r = a[0]
            for x in a[1:]:
                r = z3.If((x < r) if n == "min" else (x > r), x, r)
            return ok(r)
        if n == "ssa:wrapnilchk":
            return ok(a[0])
        if n == "clear":
            raise Unsupported("clear")
        raise Unsupported("builtin " + n)

    # contracts at call sites --------------------------------------------------
    def apply_contract(self, fr, st, c, args):
        import contract
        return contract.apply(self, fr, st, c, args)

    # loops ----------------------------------------------------------------------
    def loop(self, fr, h, env, st):
        import loops
        return loops.run_loop(self, fr, h, env, st)


def eval_frac(v):
    from fractions import Fraction
    return Fraction(v)
