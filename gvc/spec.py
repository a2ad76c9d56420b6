"""Specification expressions: Python expression syntax evaluated over symbolic states."""
import ast
import re
import z3
from core import *


class SV:
    """typed spec value: t is a Go type id, or 'int' 'bool' 'str' 'real' 'nil' 'arr' 'ev'"""
    __slots__ = ("v", "t")

    def __init__(self, v, t):
        self.v, self.t = v, t


class SpecError(Exception):
    pass


SPEC = {}   # name -> python function(ctx, *SV) -> SV


def spec(f):
    SPEC[f.__name__] = f
    return f


_parsed = {}


def parse(s):
    r = _parsed.get(s)
    if r is None:
        try:
            r = ast.parse("(" + re.sub(r"\.(in|is|from|with|lambda|class|def|pass)\b", r".\1_", s.strip()) + ")", mode="eval").body
        except SyntaxError as e:
            raise SpecError("bad spec expression: %s: %s" % (s, e))
        _parsed[s] = r
    return r


class Ctx:
    def __init__(self, eng, st, env, old=None, entry=None):
        self.e, self.st, self.env, self.old, self.entry = eng, st, env, old, entry
        self.p = eng.p
        self.goal = False
        self.where = None     # None = current state, else a State evaluated instead

    # ---------------------------------------------------------------- entry points
    def formula(self, s, goal=False):
        node = parse(s) if isinstance(s, str) else s
        g0 = self.goal
        self.goal = goal
        try:
            return self.b(self.ev(node))
        finally:
            self.goal = g0

    def cur(self):
        return self.where if self.where is not None else self.st

    def within(self, other, f):
        """evaluate f() in state `other`, keeping derived facts in the current state"""
        if other is None:
            raise SpecError("no old state here")
        t = other.fork()
        t.pc, t.known = self.st.pc, self.st.known
        # facts are keyed to terms, so they are valid in either state
        w0 = self.where
        self.where = t
        try:
            r = f()
        finally:
            self.where = w0
        self.st.pc, self.st.known = t.pc, t.known
        if self.where is not None:
            self.where.pc, self.where.known = t.pc, t.known
        return r

    # ---------------------------------------------------------------- coercions
    def b(self, x):
        if isinstance(x, SV):
            if x.t == "bool" or (isinstance(x.t, int) and self.p.kind(x.t) == "bool"):
                return x.v
            raise SpecError("boolean expected, got %s" % (x.t,))
        return x

    def i(self, x):
        v = x.v
        if not z3.is_expr(v):
            if isinstance(v, LV) or isinstance(v, Closure):
                return self.e.flatten(self.cur(), x.t, v)[0]
            raise SpecError("integer expected")
        return v

    def kind(self, x):
        if isinstance(x.t, int):
            return self.p.kind(x.t)
        return {"real": "float", "str": "string"}.get(x.t, x.t)

    # ---------------------------------------------------------------- evaluator
    def ev(self, n):
        m = getattr(self, "n_" + type(n).__name__, None)
        if m is None:
            raise SpecError("unsupported spec syntax " + ast.dump(n)[:80])
        return m(n)

    def n_Constant(self, n):
        if n.value is True or n.value is False:
            return SV(z3.BoolVal(n.value), "bool")
        if n.value is None:
            return SV(None, "nil")
        if isinstance(n.value, int):
            return SV(iv(n.value), "int")
        if isinstance(n.value, str):
            return SV(self.e.strlit(n.value), "str")
        raise SpecError("constant")

    def n_Name(self, n):
        if n.id in self.env:
            return self.env[n.id]
        if n.id == "nil":
            return SV(None, "nil")
        if n.id == "true":
            return SV(z3.BoolVal(True), "bool")
        if n.id == "false":
            return SV(z3.BoolVal(False), "bool")
        d = self.e.cs.defs.get(n.id)
        if d is not None and not d[0]:
            return self.ev(parse(d[1]))
        raise SpecError("unknown name %s" % n.id)

    def n_BoolOp(self, n):
        if isinstance(n.op, ast.And):
            return SV(And(*[self.b(self.ev(x)) for x in n.values]), "bool")
        g = self.goal
        self.goal = False if len(n.values) > 1 else g
        # positive polarity is kept for disjunctions: skolemisation under Or is sound for goals
        self.goal = g
        return SV(Or(*[self.b(self.ev(x)) for x in n.values]), "bool")

    def n_UnaryOp(self, n):
        if isinstance(n.op, ast.Not):
            g = self.goal
            self.goal = False
            x = self.b(self.ev(n.operand))
            self.goal = g
            return SV(Not(x), "bool")
        if isinstance(n.op, ast.USub):
            x = self.ev(n.operand)
            return SV(sub(iv(0), x.v) if x.v.sort() == I else -x.v, "int" if x.v.sort() == I else "real")
        raise SpecError("unary")

    def n_BinOp(self, n):
        x, y = self.ev(n.left), self.ev(n.right)
        a, b = x.v, y.v
        if a.sort() == R or b.sort() == R:
            a = z3.ToReal(a) if a.sort() == I else a
            b = z3.ToReal(b) if b.sort() == I else b
            t = "real"
            return SV({ast.Add: lambda: a + b, ast.Sub: lambda: a - b, ast.Mult: lambda: a * b,
                       ast.Div: lambda: a / b}[type(n.op)](), t)
        op = type(n.op)
        if op is ast.Add:
            return SV(add(a, b), "int")
        if op is ast.Sub:
            return SV(sub(a, b), "int")
        if op is ast.Mult:
            return SV(a * b, "int")
        if op is ast.FloorDiv:
            return SV(a / b, "int")
        if op is ast.Mod:
            return SV(a % b, "int")
        if op is ast.Pow:
            return SV(iv(a.as_long() ** b.as_long()), "int")
        raise SpecError("binop")

    def n_IfExp(self, n):
        g = self.goal
        self.goal = False
        c = self.b(self.ev(n.test))
        self.goal = g
        x, y = self.ev(n.body), self.ev(n.orelse)
        return self.ite(c, x, y)

    def ite(self, c, x, y):
        if x.t == "nil" and y.t != "nil":
            x = SV(self.e.zero(y.t), y.t)
        elif y.t == "nil" and x.t != "nil":
            y = SV(self.e.zero(x.t), x.t)
        if isinstance(x.v, Slice):
            return SV(Slice(*[If(c, p, q) for p, q in zip((x.v.ref, x.v.off, x.v.len, x.v.cap),
                                                          (y.v.ref, y.v.off, y.v.len, y.v.cap))]), x.t)
        if isinstance(x.v, Iface) or isinstance(x.v, LV) or isinstance(x.v, Struct):
            a, b = self.e.flatten(self.cur(), x.t, x.v), self.e.flatten(self.cur(), y.t, y.v)
            return SV(self.e.unflatten(x.t, [If(c, p, q) for p, q in zip(a, b)]), x.t)
        return SV(If(c, x.v, y.v), x.t)

    def n_Compare(self, n):
        out = []
        l = self.ev(n.left)
        for op, rn in zip(n.ops, n.comparators):
            r = self.ev(rn)
            out.append(self.cmp(op, l, r))
            l = r
        return SV(And(*out), "bool")

    def cmp(self, op, l, r):
        if isinstance(op, (ast.In, ast.NotIn)):
            x = self.contains(l, r)
            return Not(x) if isinstance(op, ast.NotIn) else x
        if isinstance(op, (ast.Eq, ast.Is)):
            return self.equal(l, r)
        if isinstance(op, (ast.NotEq, ast.IsNot)):
            return Not(self.equal(l, r))
        a, b = l.v, r.v
        if a.sort() == R or b.sort() == R:
            a = z3.ToReal(a) if a.sort() == I else a
            b = z3.ToReal(b) if b.sort() == I else b
        elif isn(a) and isn(b):
            a, b = a.as_long(), b.as_long()
            return z3.BoolVal({ast.Lt: a < b, ast.LtE: a <= b, ast.Gt: a > b, ast.GtE: a >= b}[type(op)])
        return {ast.Lt: lambda: a < b, ast.LtE: lambda: a <= b, ast.Gt: lambda: a > b, ast.GtE: lambda: a >= b}[type(op)]()

    def isnil(self, x):
        k = self.kind(x)
        if k == "iface":
            return eq(x.v.tag, iv(0))
        if k == "slice":
            return eq(x.v.ref, iv(0))
        if isinstance(x.v, (LV, Closure)):
            return z3.BoolVal(False)
        return eq(x.v, iv(0))

    def equal(self, l, r):
        if l.t == "nil" and r.t == "nil":
            return z3.BoolVal(True)
        if r.t == "nil":
            return self.isnil(l)
        if l.t == "nil":
            return self.isnil(r)
        if isinstance(l.v, Slice) and isinstance(r.v, Slice):
            return And(eq(l.v.ref, r.v.ref), eq(l.v.off, r.v.off), eq(l.v.len, r.v.len))
        if isinstance(l.t, int) and isinstance(r.t, int):
            return self.e.equal(self.cur(), l.t, l.v, r.t, r.v)
        a, b = l.v, r.v
        if isinstance(a, (LV, Closure)):
            a = self.e.flatten(self.cur(), l.t, a)[0]
        if isinstance(b, (LV, Closure)):
            b = self.e.flatten(self.cur(), r.t, b)[0]
        if isinstance(a, Iface):
            a = self.e.boxed(self.cur(), a).pay
        if isinstance(b, Iface):
            b = self.e.boxed(self.cur(), b).pay
        if a.sort() == R and b.sort() == I:
            b = z3.ToReal(b)
        elif b.sort() == R and a.sort() == I:
            a = z3.ToReal(a)
        return eq(a, b)

    def contains(self, k, m):
        if self.kind(m) == "map":
            ke = self.keyof(m, k)
            return And(m.v != 0 if not isn(m.v) or m.v.as_long() == 0 else z3.BoolVal(True),
                       sel(self.e.map_dom(self.cur(), m.t, m.v), ke))
        if m.t == "arr":
            return sel(m.v, k.v)
        raise SpecError("in")

    def keyof(self, m, k):
        kt = self.p.u(m.t)["key"]
        if isinstance(k.t, int):
            return self.e.keyexpr(self.cur(), kt, k.v)
        return k.v

    # ---------------------------------------------------------------- memory
    def n_Attribute(self, n):
        x = self.ev(n.value)
        return self.field(x, n.attr[:-1] if n.attr.endswith("_") else n.attr)

    def field(self, x, name):
        st = self.cur()
        if isinstance(x.v, Slice):
            return SV(getattr(x.v, name), "int")
        if isinstance(x.v, Iface):
            if name == "tag":
                return SV(x.v.tag, "int")
            if name == "pay":
                return SV(self.e.boxed(st, x.v).pay, "int")
            impls = self.e.cs.devirt.get(self.p.t(x.t)["str"])
            if x.v.dyn is not None:
                return self.field(SV(x.v.dyn[1], x.v.dyn[0]), name)
            if impls and len(impls) == 1:
                return self.field(SV(x.v.pay, self.p.tid(impls[0])), name)
            raise SpecError("field %s of interface" % name)
        if isinstance(x.v, Struct):
            path = self.p.findfield(x.t, name)
            cs = self.e.flatten(st, x.t, x.v)
            off, ft = path[0]
            return SV(self.e.unflatten(ft, cs[off:off + len(self.p.comps(ft))]), ft)
        if self.kind(x) != "ptr":
            raise SpecError("field %s of non-pointer %s" % (name, x.t))
        t = self.p.elem(x.t)
        path = self.p.findfield(t, name)
        if path is None:
            raise SpecError("type %s has no field %s" % (self.p.t(t)["str"], name))
        lv = self.e.lv_of_ptr(st, x.v, t)
        for k, (off, ft) in enumerate(path):
            l2 = lv.sub(off, ft)
            if k == len(path) - 1:
                return SV(self.rd(st, l2), ft)
            v = self.rd(st, l2)
            t = self.p.elem(ft)
            lv = self.e.lv_of_ptr(st, v, t)

    def rd(self, st, lv):
        """spec-level read: no lock discipline"""
        g = self.e.opts.get("noguard")
        self.e.opts["noguard"] = True
        try:
            return self.e.load(st, lv)
        finally:
            self.e.opts["noguard"] = g

    def n_Subscript(self, n):
        x, i = self.ev(n.value), self.ev(n.slice)
        return self.index(x, i)

    def index(self, x, i):
        st = self.cur()
        k = self.kind(x)
        if k == "seq":
            cs = [sel(c, add(x.v[1], i.v)) for c in x.v[0]]
            if x.v[3] is None:
                return SV(cs[0], "int")
            self.e.typefacts(st, x.v[3], cs)
            return SV(self.e.unflatten(x.v[3], cs), x.v[3])
        if k == "slice":
            et = self.p.elem(x.t)
            return SV(self.rd(st, LV("elem", et, x.v.ref, add(x.v.off, i.v), 0, et)), et)
        if k == "map":
            et = self.p.elem(x.t)
            ke = self.keyof(x, i)
            dom, vals, ln = self.e.mapkeys(x.t)
            cs = [sel(sel(self.e.hget(st, key, c), x.v), ke) for key, c in vals]
            self.e.typefacts(st, et, cs)
            return SV(self.e.unflatten(et, cs), et)
        if k == "array":
            et = self.p.elem(x.t)
            cs = [sel(c, i.v) for c in x.v.c]
            self.e.typefacts(st, et, cs)
            return SV(self.e.unflatten(et, cs), et)
        if k == "string":
            return SV(z3.Select(sbyte(x.v), i.v), "int")
        if x.t == "arr":
            return SV(sel(x.v, i.v), "int" if x.v.sort().range() == I else "bool" if x.v.sort().range() == B else "arr")
        if k == "ptr" and self.p.kind(self.p.elem(x.t)) == "array":
            et = self.p.elem(self.p.elem(x.t))
            if not isinstance(x.v, LV):
                return SV(self.rd(st, LV("elem", et, x.v, i.v, 0, et)), et)
        raise SpecError("index of %s" % k)

    # ---------------------------------------------------------------- calls
    def n_Call(self, n):
        if not isinstance(n.func, ast.Name):
            raise SpecError("call")
        f = n.func.id
        m = getattr(self, "f_" + f, None)
        if m is not None and f not in self.e.cs.defs:     # a contract file's own definitions come first
            return m(n.args)
        d = self.e.cs.defs.get(f)
        if d is not None:
            params, body = d
            args = [self.ev(a) for a in n.args]
            if len(args) != len(params):
                raise SpecError("arity of " + f)
            e0 = self.env
            self.env = dict(e0)
            self.env.update(zip(params, args))
            try:
                return self.ev(parse(body))
            finally:
                self.env = e0
        if f in SPEC:
            g = self.goal
            self.goal = False
            try:
                args = [self.ev(a) for a in n.args]
            finally:
                self.goal = g
            return SPEC[f](self, *args)
        raise SpecError("unknown spec function " + f)

    def f_old(self, a):
        return self.within(self.old, lambda: self.ev(a[0]))

    def f_entry(self, a):
        return self.within(self.entry, lambda: self.ev(a[0]))

    def f_implies(self, a):
        g = self.goal
        self.goal = False
        c = self.b(self.ev(a[0]))
        self.goal = g
        return SV(Implies(c, self.b(self.ev(a[1]))), "bool")

    def f_iff(self, a):
        g = self.goal
        self.goal = False
        c, d = self.b(self.ev(a[0])), self.b(self.ev(a[1]))
        self.goal = g
        if z3.is_true(c):
            return SV(d, "bool")
        if z3.is_true(d):
            return SV(c, "bool")
        return SV(c == d, "bool")

    def f_len(self, a):
        x = self.ev(a[0])
        k = self.kind(x)
        if k == "seq":
            return SV(x.v[2], "int")
        if k == "slice":
            return SV(x.v.len, "int")
        if k == "string":
            return SV(slen(x.v), "int")
        if k == "map":
            return SV(self.e.map_len(self.cur(), x.t, x.v), "int")
        if k == "array":
            return SV(iv(self.p.u(x.t)["len"]), "int")
        raise SpecError("len of %s" % k)

    def f_cap(self, a):
        return SV(self.ev(a[0]).v.cap, "int")

    def quant(self, a, forall):
        lam = a[0]
        if not isinstance(lam, ast.Lambda):
            raise SpecError("forall needs a lambda")
        names = [x.arg for x in lam.args.args]
        types = [ast.literal_eval(t) for t in a[1:1 + len(names)]] if len(a) > 1 else []
        types += ["int"] * (len(names) - len(types))
        vs, svs = [], []
        for nm, t in zip(names, types):
            srt = {"int": I, "string": S, "bool": B}.get(t, I)
            c = z3.Const("%s!q%d" % (nm, fresh_n()), srt)
            vs.append(c)
            if t in ("int", "string", "bool"):
                svs.append(SV(c, {"string": "str"}.get(t, t)))
            else:
                svs.append(SV(c, self.p.tid(t)))
        e0 = self.env
        self.env = dict(e0)
        self.env.update(zip(names, svs))
        st = self.cur()
        try:
            if (forall and self.goal):
                for nm, sv, t in zip(names, svs, types):
                    if t not in ("int", "string", "bool"):
                        self.e.typefacts(st, sv.t, [sv.v])
                return SV(self.b(self.ev(lam.body)), "bool")
            g = self.goal
            self.goal = False
            pc0, known0 = st.pc, dict(st.known)
            w = self.st
            body = self.b(self.ev(lam.body))
            # facts learned about terms that mention the bound variables
            facts = []
            x = st.pc
            ids = {v.get_id() for v in vs}
            while x is not None and x is not pc0:
                facts.append(x.f)
                x = x.up
            st.pc = pc0
            st.known = known0
            if self.where is not None:
                self.st.pc, self.st.known = pc0, known0
            self.goal = g
            inner = []
            for f in reversed(facts):
                if mentions(f, ids):
                    inner.append(f)
                else:
                    st.assume(f)
            if forall:
                return SV(z3.ForAll(vs, And(body, *inner) if inner else body), "bool")
            return SV(z3.Exists(vs, And(body, *inner) if inner else body), "bool")
        finally:
            self.env = e0

    def overidx(self, a, forall):
        """some(s, lambda i: P) / every(s, lambda i: P): P of some / every index of slice s;
        written out when the length is a known number"""
        x = self.ev(a[0])
        lam = a[1]
        nm = lam.args.args[0].arg
        n = x.v.len
        e0 = self.env
        if isn(n) and n.as_long() <= 32:
            out = []
            try:
                for i in range(n.as_long()):
                    self.env = dict(e0)
                    self.env[nm] = SV(iv(i), "int")
                    out.append(self.b(self.ev(lam.body)))
            finally:
                self.env = e0
            return SV(And(*out) if forall else Or(*out), "bool")
        cond = ast.parse("0 <= %s < len(%s)" % (nm, ast.unparse(a[0])), mode="eval").body
        if forall:
            body = ast.Call(ast.Name("implies", ast.Load()), [cond, lam.body], [])
        else:
            body = ast.BoolOp(ast.And(), [cond, lam.body])
        return self.quant([ast.Lambda(lam.args, body)], forall)

    def f_some(self, a):
        return self.overidx(a, False)

    def f_every(self, a):
        return self.overidx(a, True)

    def f_forall(self, a):
        return self.quant(a, True)

    def f_exists(self, a):
        return self.quant(a, False)

    def f_typeis(self, a):
        x = self.ev(a[0])
        t = self.p.tid(ast.literal_eval(a[1]))
        return SV(eq(x.v.tag, iv(self.e.tag(t))), "bool")

    def f_implements(self, a):
        """implements(iface value, 'T'): non-nil with a dynamic type that implements interface T"""
        x = self.ev(a[0])
        t = self.p.tid(ast.literal_eval(a[1]))
        f = z3.Function("impl_t%d" % t, I, B)
        return SV(And(x.v.tag != 0, f(x.v.tag)), "bool")

    def f_cast(self, a):
        """cast(iface, 'T'): the dynamic value, assuming its type is T"""
        x = self.ev(a[0])
        t = self.p.tid(ast.literal_eval(a[1]))
        if isinstance(x.v, Iface):
            if x.v.dyn is not None:
                return SV(x.v.dyn[1], t)
            if self.p.kind(t) in ("ptr", "map", "chan", "func"):
                return SV(self.e.unflatten(t, [x.v.pay]), t)
            _, un = self.e.boxfns(t)
            return SV(self.e.unflatten(t, [f(x.v.pay) for f in un]), t)
        return SV(x.v, t)

    def f_ptr(self, a):
        """ptr(int, '*T'): the pointer of that type with the given reference"""
        x = self.ev(a[0])
        t = self.p.tid(ast.literal_eval(a[1]))
        return SV(self.e.unflatten(t, [self.asint(x)]), t)

    def f_glob(self, a):
        n = ast.literal_eval(a[0])
        g = self.p.globals.get(n)
        if g is None:
            raise SpecError("unknown global " + n)
        lv = LV("global", g["t"], n, None, 0, g["t"])
        return SV(self.rd(self.cur(), lv), g["t"])

    def f_fresh(self, a):
        """object allocated during the call"""
        x = self.ev(a[0])
        v = x.v
        if isinstance(v, Slice):
            v = v.ref
        elif isinstance(v, Iface):
            v = self.e.boxed(self.cur(), v).pay
        elif isinstance(v, LV):
            if v.kind == "local" and v.ref not in self.st.fwd:
                return SV(z3.BoolVal(True), "bool")
            v = self.e.ref(self.cur(), v)
        return SV(v < self.old.A, "bool")

    def f_deref(self, a):
        x = self.ev(a[0])
        t = self.p.elem(x.t)
        return SV(self.rd(self.cur(), self.e.lv_of_ptr(self.cur(), x.v, t)), t)

    def f_ref(self, a):
        """reference of a slice/map/pointer as an integer"""
        x = self.ev(a[0])
        if isinstance(x.v, Slice):
            return SV(x.v.ref, "int")
        if isinstance(x.v, Iface):
            return SV(self.e.boxed(self.cur(), x.v).pay, "int")
        return SV(self.e.ref(self.cur(), x.v), "int")

    def f_off(self, a):
        """offset of a slice in its backing array"""
        return SV(self.ev(a[0]).v.off, "int")

    def f_bytesat(self, a):
        """bytesat(ref, off, n): the byte slice with that backing array, offset and length"""
        r, o, n = [self.ev(x).v for x in a]
        return SV(Slice(r, o, n, n), self.p.tid("[]byte"))

    def f_fnid(self, a):
        x = self.ev(a[0])
        return SV(self.e.flatten(self.cur(), x.t, x.v)[0], "int")

    def f_func(self, a):
        """function constant by name"""
        return SV(self.e.fnid(Closure(ast.literal_eval(a[0]))), "int")

    def f_gh(self, a):
        """ghost field: gh(obj, 'name')"""
        x = self.ev(a[0])
        o = x.v
        if isinstance(o, Iface):
            o = self.e.boxed(self.cur(), o).pay
        elif isinstance(o, LV):
            o = self.e.ref(self.cur(), o)
        elif isinstance(o, Slice):
            o = o.ref
        key = ("#gh", ast.literal_eval(a[1]))
        return SV(sel(self.e.hget(self.cur(), key, "I"), o), "int")

    # trace
    def f_ntrace(self, a):
        st = self.cur()
        if st.trn is None:
            self.e.init_trace(st)
        return SV(st.trn, "int")

    def f_ev(self, a):
        """ev(i, 'kind'[, a[, b[, c]]]): event i of the trace is that event"""
        st = self.cur()
        if st.trn is None:
            self.e.init_trace(st)
        i = self.ev(a[0]).v
        kind = ast.literal_eval(a[1])
        e = sel(st.tra, i) if True else None
        out = [Ev.kind(e) == self.e.evkind(kind)]
        for f, x in zip((Ev.a, Ev.b, Ev.c), a[2:]):
            if isinstance(x, ast.Constant) and x.value is Ellipsis:
                continue
            v = self.ev(x)
            out.append(f(e) == self.asint(v))
        return SV(And(*[simp(o) for o in out]), "bool")

    def asint(self, v):
        if isinstance(v.v, Iface):
            return self.e.boxed(self.cur(), v.v).pay
        if isinstance(v.v, (LV, Closure)):
            return self.e.flatten(self.cur(), v.t, v.v)[0]
        if isinstance(v.v, Slice):
            return v.v.ref
        if z3.is_expr(v.v) and v.v.sort() in (S, B):
            return self.e.evint(self.cur(), v.v)
        return v.v

    def f_evk(self, a):
        st = self.cur()
        return SV(simp(Ev.kind(sel(st.tra, self.ev(a[0]).v))), "int")

    def f_evarg(self, a):
        st = self.cur()
        if st.trn is None:
            self.e.init_trace(st)
        k = ast.literal_eval(a[1])
        return SV(simp([Ev.a, Ev.b, Ev.c][k](sel(st.tra, self.ev(a[0]).v))), "int")

    def f_kind(self, a):
        return SV(iv(self.e.evkind(ast.literal_eval(a[0]))), "int")

    def f_chanlen(self, a):
        """number of values the channel ever delivers to this receiver before it is closed"""
        return SV(self.e.chanlen(self.ev(a[0]).v), "int")

    def f_nrecv(self, a):
        """number of values received so far"""
        return SV(sel(self.e.hget(self.cur(), ("#recvd",), "I"), self.ev(a[0]).v), "int")

    def f_chanat(self, a):
        """chanat(ch, i): the i-th value the channel delivers to this receiver"""
        x, i = self.ev(a[0]), self.ev(a[1])
        et = self.p.elem(x.t)
        return SV(self.e.chanat(self.cur(), et, x.v, i.v), et)

    def f_contents(self, a):
        x = self.ev(a[0])
        return SV(self.e.slice_content(self.cur(), x.v, self.p.elem(x.t))[0], "arr")

    def f_dom(self, a):
        x = self.ev(a[0])
        return SV(self.e.map_dom(self.cur(), x.t, x.v), "arr")

    def f_visited(self, a):
        """visited(k): key already produced by the (single live) map iterator"""
        k = self.ev(a[0])
        its = self.cur().iters
        if not its:
            raise SpecError("no iterator")
        lid = self.env.get("$iter")
        v = its[lid.v if lid else max(its)]
        return SV(sel(v, k.v), "bool")

    def f_held(self, a):
        x = self.ev(a[0])
        ref = self.e.ref(self.cur(), x.v)
        rn = self.e.rootname(self.p.elem(x.t))
        return SV(Or(z3.BoolVal(False), *[k[2] == ref for k in self.cur().locks if k[0] == "o" and k[1] == rn]), "bool")

    def f_sameelems(self, a):
        """sameelems(x, y): equal length and element-wise equal (x evaluated now, y anywhere)"""
        x, y = self.ev(a[0]), self.ev(a[1])
        return SV(self.seq_eq(x, y, self.cur(), self.cur()), "bool")

    def f_seqeq(self, a):
        """seqeq(x, xoff, y, yoff, n): x[xoff..xoff+n) == y[yoff..) ; arguments may be old(...) slices
        only when their backing is not modified"""
        x, xo, y, yo, n = [self.ev(q) for q in a]
        cx, cy = self.content(x), self.content(y)
        out = []
        for p, q in zip(cx, cy):
            out.append(self.arr_eq(p, add(self.off(x), xo.v), q, add(self.off(y), yo.v), n.v))
        return SV(And(*out), "bool")

    def f_snap(self, a):
        """immutable snapshot of a slice's elements in the state where it is evaluated"""
        x = self.ev(a[0])
        if self.kind(x) == "string":
            return SV(([sbyte(x.v)], iv(0), slen(x.v), None), "seq")
        et = self.p.elem(x.t)
        return SV((self.e.slice_content(self.cur(), x.v, et), x.v.off, x.v.len, et), "seq")

    def content(self, x):
        if x.t == "arr":
            return [x.v]
        if x.t == "seq":
            return x.v[0]
        if self.kind(x) == "string":
            return [sbyte(x.v)]
        return self.e.slice_content(self.cur(), x.v, self.p.elem(x.t))

    def off(self, x):
        if x.t == "seq":
            return x.v[1]
        if x.t == "arr" or self.kind(x) == "string":
            return iv(0)
        return x.v.off

    def arr_eq(self, p, po, q, qo, n):
        if self.goal:
            j = fresh(I, "sk")
            return Implies(z3.And(j >= 0, j < n), sel(p, add(po, j)) == sel(q, add(qo, j)))
        j = z3.Int("j!e%d" % fresh_n())
        # quantify over absolute index of p so that the pattern p[j] is usable
        body = z3.Implies(z3.And(j >= po, j < po + n), z3.Select(p, j) == z3.Select(q, j - po + qo))
        try:
            return z3.ForAll([j], body, patterns=[z3.Select(p, j)])
        except z3.Z3Exception:          # p is not a term a pattern may contain
            return z3.ForAll([j], body)


def mentions(f, ids):
    seen, st = set(), [f]
    while st:
        x = st.pop()
        i = x.get_id()
        if i in seen:
            continue
        seen.add(i)
        if i in ids:
            return True
        if z3.is_quantifier(x):
            st.append(x.body())
        else:
            st.extend(x.children())
    return False
