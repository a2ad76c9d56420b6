"""Modular symbolic execution of Go SSA against contracts."""
import time
import os
import subprocess
import z3
from core import *
from ir import Prog

MERGE_N = 6
PANIC = "panic"
RET = "ret"


class Res:
    __slots__ = ("kind", "st", "val", "why")

    def __init__(self, kind, st, val=None, why=None):
        self.kind, self.st, self.val, self.why = kind, st, val, why


PORTFOLIO = (["/usr/bin/z3", "-smt2", "smt.mbqi=false", "auto_config=false", "-in"], ["/usr/bin/z3", "-smt2", "-in"],
             ["/usr/local/bin/z3-new", "-smt2", "-in"], ["/usr/bin/z3", "-smt2", "smt.mbqi=false", "auto_config=false", "smt.random_seed=3", "-in"],
             ["/usr/bin/z3", "-smt2", "smt.mbqi=false", "auto_config=false", "smt.arith.solver=2", "smt.random_seed=7", "-in"])


def portfolio(smt, timeout):
    """several solvers on the same query; the first 'unsat' (or 'sat') wins"""
    ps = []
    import tempfile
    with tempfile.TemporaryFile("w+") as f:
        f.write(smt)
        f.flush()
        name = "/proc/%d/fd/%d" % (os.getpid(), f.fileno())
        for c in PORTFOLIO:
            try:
                fd = open(name)
                ps.append(subprocess.Popen(c, stdin=fd, stdout=subprocess.PIPE, stderr=subprocess.DEVNULL))
                fd.close()
            except OSError:
                pass
        end = time.time() + timeout
        res = "unknown"
        live = list(ps)
        try:
            while live and time.time() < end and res == "unknown":
                time.sleep(0.01)
                for p in list(live):
                    if p.poll() is not None:
                        o = p.stdout.read().decode().split()
                        live.remove(p)
                        if o[:1] == ["unsat"]:
                            res = "proved"
                        elif o[:1] == ["sat"]:
                            res = "failed"
        finally:
            for p in ps:
                if p.poll() is None:
                    p.kill()
                p.wait()
                p.stdout.close()
    return res


class Frame:
    __slots__ = ("fn", "depth", "top", "parent", "deferred")

    def __init__(self, fn, depth, parent=None, deferred=False):
        self.fn, self.depth, self.parent, self.deferred = fn, depth, parent, deferred


class Budget(Exception):
    pass


class Engine:
    def __init__(self, prog, contracts, opts=None):
        self.p = prog
        self.cs = contracts
        self.opts = dict(timeout=10000, inline_depth=14, unroll=40, max_states=4000, time=240)
        self.opts.update(opts or {})
        self.axioms = []          # global axioms: list of (name, formula)
        self.base = []            # quantifier-free base facts about constants
        self.lits = {}
        self.tags = {}
        self.fnids = {}
        self.idfns = {}
        self.iptrs = {}
        self.allocs = {}
        self.acqterm = {}
        self.evk = {}
        self.initheap = {}
        self.qf = Solver()
        self.qfl = None
        self.cur = None
        self.obls = []
        self.dry = 0
        self.nouser = 0
        self.deadcands = {}
        self.assumed = {}         # assumption text -> count
        self.inlined = {}
        self.used_contracts = {}
        self.unsupported = []
        self.solver_time = 0.0
        self.nlocal = 0
        self.deadline = None
        self.cur = None           # contract being verified
        self.loopcache = {}
        self.loop_reports = []
        import lib
        self.lib = lib

    # ------------------------------------------------------------ utilities
    def note(self, s):
        self.assumed[s] = self.assumed.get(s, 0) + 1

    def addbase(self, f):
        self.base.append(f)
        self.qf.axioms.append(f)
        self.qf.reset()

    def tag(self, tid):
        t = self.tags.get(tid)
        if t is None:
            t = len(self.tags) + 1
            self.tags[tid] = t
        return t

    def tagtype(self, n):
        for k, v in self.tags.items():
            if v == n:
                return k
        return None

    def strlit(self, s):
        c = self.lits.get(s)
        if c is None:
            c = z3.Const("lit!%d" % len(self.lits), S)
            litid = z3.Function("litid", S, I)
            self.lits[s] = c
            self.addbase(litid(c) == len(self.lits))
            b = s.encode("utf-8", "surrogateescape")
            self.addbase(slen(c) == len(b))
            if len(b) <= 32:
                for i, x in enumerate(b):
                    self.addbase(z3.Select(sbyte(c), iv(i)) == x)
        return c

    def fnid(self, clo):
        if not clo.bind:
            k = clo.fn
            if k not in self.fnids:
                self.fnids[k] = 1000000 + len(self.fnids)
                self.idfns[self.fnids[k]] = clo
            return iv(self.fnids[k])
        for n, c in self.idfns.items():
            if c.same(clo):
                return iv(n)
        n = 2000000 + len(self.idfns)
        self.idfns[n] = clo
        return iv(n)

    def evkind(self, name):
        if name not in self.evk:
            self.evk[name] = len(self.evk) + 1
        return self.evk[name]

    def inst(self, st, f):
        st.assume(f)

    # ------------------------------------------------------------ solver
    def tick(self):
        if self.deadline and time.time() > self.deadline:
            raise Budget("time budget exhausted")

    def feasible(self, st, cond=None):
        self.tick()
        if cond is not None and z3.is_false(cond):
            return False
        qf = self.qf
        if self.cur is not None and "linear" in self.cur.opts:
            # path pruning without non-linear reasoning (prunes less, never more)
            if self.qfl is None:
                self.qfl = Solver(self.qf.axioms, linear=True)
            qf = self.qfl
        r = qf.check(st.pc, cond if cond is not None else z3.BoolVal(True))
        return r != z3.unsat

    def qf_entails(self, st, g):
        if z3.is_true(g):
            return True
        self.tick()
        return self.qf.check(st.pc, Not(g)) == z3.unsat

    def solve(self, facts, goal, timeout):
        s = z3.Solver()
        s.set("timeout", timeout)
        for a in self.base:
            s.add(a)
        for n, a in self.axioms:
            s.add(a)
        for f in facts:
            s.add(f)
        s.add(Not(goal))
        t = time.time()
        r = s.check()
        self.solver_time += time.time() - t
        return r, s

    def entails(self, st, g, timeout=None):
        """'proved' | 'failed' | 'unknown', model"""
        if z3.is_true(g):
            return "proved", None
        if z3.is_and(g):
            for c in g.children():
                r, m = self.entails(st, c, timeout)
                if r != "proved":
                    return r, m
            return "proved", None
        if z3.is_implies(g) and z3.is_and(g.arg(1)) and g.arg(1).num_args() > 1:
            for c in g.arg(1).children():
                r, m = self.entails(st, Implies(g.arg(0), c), timeout)
                if r != "proved":
                    return r, m
            return "proved", None
        if not has_quant(g) and self.qf_entails(st, g):
            return "proved", None
        facts = [x.f for x in st.pc.chain()] if st.pc else []
        timeout = timeout or self.opts["timeout"]
        r, s = self.solve(facts, g, min(timeout, 500))
        if r == z3.unsat:
            return "proved", None
        if r == z3.sat:
            try:
                return "failed", s.model()
            except z3.Z3Exception:
                return "failed", None
        t = time.time()
        self.tick()
        if self.ground(facts, g, min(timeout, 4000)):
            self.solver_time += time.time() - t
            return "proved", None
        r = portfolio(self.smt2(st, g), timeout / 1000.0)
        self.solver_time += time.time() - t
        if r != "proved" and os.environ.get("GVC_Q"):
            self.nq = getattr(self, "nq", 0) + 1
            open("%s/q%03d-%s.smt2" % (os.environ["GVC_Q"], self.nq, r), "w").write(self.smt2(st, g))
        return r, None

    def ground(self, facts, g, timeout, lim=(12, 40, 1500)):
        """Help the solver with quantified facts: skolemise the goal and add the instances of
        the quantified facts at its skolem constants and at the array indices it mentions
        (every added formula follows from the facts, so nothing is weakened)."""
        import itertools
        sk, hyps = [], []
        while True:
            if z3.is_quantifier(g) and g.is_forall():
                vs = [z3.FreshConst(g.var_sort(i), "gsk") for i in range(g.num_vars())]
                sk += vs
                g = z3.substitute_vars(g.body(), *reversed(vs))
            elif z3.is_implies(g):
                hyps.append(g.arg(0))
                g = g.arg(1)
            else:
                break
        hyps.append(Not(g))
        qs, extra, nsk = [], [], [0]

        def add(f, out):
            """split a fact into quantified facts (qs) and ground ones (out)"""
            if z3.is_not(f) and z3.is_quantifier(f.arg(0)) and not f.arg(0).is_lambda():
                q = f.arg(0)
                if q.is_exists():
                    vs = [z3.FreshConst(q.var_sort(i), "nq") for i in range(q.num_vars())]
                    body = Not(z3.substitute_vars(q.body(), *reversed(vs)))
                    qs.append(z3.ForAll(vs, body))
                    return
            if z3.is_quantifier(f) and f.is_forall():
                qs.append(f)
            elif z3.is_quantifier(f) and f.is_exists() and nsk[0] < lim[0]:
                vs = [z3.FreshConst(f.var_sort(i), "gsk") for i in range(f.num_vars())]
                nsk[0] += len(vs)
                sk.extend(vs)
                add(z3.substitute_vars(f.body(), *reversed(vs)), out)
            elif z3.is_and(f):
                for c in f.children():
                    add(c, out)
            elif z3.is_implies(f) and z3.is_quantifier(f.arg(1)) and f.arg(1).is_forall():
                q = f.arg(1)
                vs = [z3.FreshConst(q.var_sort(i), "lq") for i in range(q.num_vars())]
                qs.append(z3.ForAll(vs, Implies(f.arg(0), z3.substitute_vars(q.body(), *reversed(vs)))))
            elif z3.is_implies(f) and z3.is_and(f.arg(1)) and has_quant(f.arg(1)):
                for c in f.arg(1).children():
                    add(Implies(f.arg(0), c), out)
            elif z3.is_implies(f) and z3.is_quantifier(f.arg(1)) and f.arg(1).is_exists() and nsk[0] < lim[0]:
                q = f.arg(1)
                vs = [z3.FreshConst(q.var_sort(i), "gsk") for i in range(q.num_vars())]
                nsk[0] += len(vs)
                sk.extend(vs)
                out.append(Implies(f.arg(0), z3.substitute_vars(q.body(), *reversed(vs))))
            else:
                out.append(f)
        base = []
        for f in facts:
            if has_quant(f):
                add(f, base)
            else:
                base.append(f)
        focus = []
        for f in hyps:
            add(f, focus)
        if not qs or len(qs) > 120:
            return False
        seen = set()
        idx, strs = {}, {}

        def scan(f):
            work = [f]
            while work:
                x = work.pop()
                if x.get_id() in seen or not z3.is_app(x):
                    continue
                seen.add(x.get_id())
                if x.num_args() == 0:
                    if "!q" in x.decl().name() and not any(x.eq(y) for y in sk):
                        sk.append(x)
                    continue
                if z3.is_select(x):
                    a, i = x.children()
                    if i.sort() == I and len(idx) < 400:
                        idx[x.get_id()] = (a, i)
                if x.sort() == S and len(strs) < 12:
                    strs[x.get_id()] = x
                work.extend(x.children())

        def root(a):
            while z3.is_store(a):
                a = a.arg(0)
            return a

        def alike(a, b):
            if a.sort() != b.sort():
                return False
            if a.eq(b):
                return True
            if z3.is_select(a) and z3.is_select(b):
                return a.arg(1).eq(b.arg(1)) or a.arg(1).sort() != I
            return root(a).eq(root(b))
        pats = {}

        def flat(e, sg):
            if z3.is_add(e):
                return [t for c in e.children() for t in flat(c, sg)]
            if z3.is_sub(e):
                cs = e.children()
                return flat(cs[0], sg) + [t for c in cs[1:] for t in flat(c, -sg)]
            return [(sg, e)]

        def patterns(q):
            """index patterns of the bound Int variables: {var: [(array, offset)]}"""
            k = q.get_id()
            if k in pats:
                return pats[k]
            vs = [z3.FreshConst(q.var_sort(i), "pv") for i in range(q.num_vars())]
            body = z3.substitute_vars(q.body(), *reversed(vs))
            ids = {v.get_id(): n for n, v in enumerate(vs)}
            out = {n: [] for n in range(len(vs))}

            def mentions(e):
                w, sn = [e], set()
                while w:
                    y = w.pop()
                    if y.get_id() in sn:
                        continue
                    sn.add(y.get_id())
                    if y.get_id() in ids:
                        return True
                    w.extend(y.children())
                return False
            w, sn = [body], set()
            while w:
                y = w.pop()
                if y.get_id() in sn:
                    continue
                sn.add(y.get_id())
                if z3.is_select(y):
                    a, i = y.children()
                    if i.get_id() in ids:
                        if not mentions(a):
                            out[ids[i.get_id()]].append((a, None))
                    elif (z3.is_add(i) or z3.is_sub(i)) and not mentions(a):
                        terms = flat(i, 1)
                        vv = [(sg, c) for sg, c in terms if c.get_id() in ids]
                        rest = [(sg, c) for sg, c in terms if c.get_id() not in ids]
                        if len(vv) == 1 and vv[0][0] == 1 and rest and not any(mentions(c) for _, c in rest):
                            out[ids[vv[0][1].get_id()]].append((a, z3.Sum([c if sg == 1 else -c for sg, c in rest])))
                w.extend(y.children())
            pats[k] = out
            return out
        n0 = len(sk)
        for f in focus:
            scan(f)
        if lim[0] > 12:
            sk[:] = sk[n0:] + sk[:n0]        # the goal's own constants first
        for f in base[-40:]:
            scan(f)
        done = set()
        new = []
        for rnd in range(3):
            fresh_ = []
            for q in list(qs):
                n = q.num_vars()
                if n > 3:
                    continue
                pt = patterns(q)
                cands = []
                for i in range(n):
                    so = q.var_sort(i)
                    c = [x for x in sk if x.sort() == so]
                    if so == I:
                        for a, off in pt[i]:
                            for a2, ix in list(idx.values()):
                                if alike(a, a2):
                                    t = ix if off is None else z3.simplify(ix - off)
                                    if not any(t.eq(y) for y in c):
                                        c.append(t)
                                if len(c) > 10:
                                    break
                    elif so == S:
                        for x in list(strs.values())[:10]:
                            if not any(x.eq(y) for y in c):
                                c.append(x)
                    cands.append(c)
                for tup in itertools.islice(itertools.product(*cands), lim[1]):
                    key = (q.get_id(),) + tuple(t.get_id() for t in tup)
                    if key in done:
                        continue
                    done.add(key)
                    new.append(tup)     # keep the terms alive: ids must stay unique
                    out = []
                    add(z3.substitute_vars(q.body(), *reversed(tup)), out)
                    fresh_ += out
                    if len(done) > lim[2]:
                        break
            if not fresh_:
                break
            extra += fresh_
            for f in fresh_:
                scan(f)
        if not extra:
            return False
        r, s = self.solve(base + focus + qs + extra, z3.BoolVal(False), timeout)
        if r != z3.unsat:
            r, s = self.solve([f for f in base + focus + extra if not has_quant(f)], z3.BoolVal(False), timeout)
        return r == z3.unsat

    def oblige(self, st, name, g, info=""):
        """record and discharge an obligation"""
        if self.dry:
            return True
        t = time.time()
        r, m = self.entails(st, g)
        o = {"name": name, "status": r, "time": round(time.time() - t, 3), "info": info}
        if r != "proved":
            o["model"] = self.modelstr(st, m)
            if self.opts.get("dump"):
                o["goal"] = str(g)[:2000]
                o["pc"] = [str(x.f)[:300] for x in (st.pc.chain() if st.pc else [])]
        else:
            if self.opts.get("cross") and not z3.is_true(g):
                o["smt2"] = self.smt2(st, g)
        self.obls.append(o)
        return r == "proved"

    def smt2(self, st, g):
        s = z3.Solver()
        for a in self.base:
            s.add(a)
        for n, a in self.axioms:
            s.add(a)
        for x in (st.pc.chain() if st.pc else []):
            s.add(x.f)
        s.add(Not(g))
        return s.to_smt2()

    def modelstr(self, st, m):
        if m is None:
            return ""
        out = []
        try:
            for d in m.decls():
                if d.arity() == 0:
                    v = m[d]
                    sv = str(v).replace("\n", " ")
                    if len(sv) < 160:
                        out.append("%s=%s" % (d.name(), sv))
        except Exception:
            pass
        return "; ".join(sorted(out))[:4000]

    # ------------------------------------------------------------ values
    def zero(self, tid):
        return self.unflatten(tid, [self.zerocomp(c) for c in self.p.comps(tid)])

    def zerocomp(self, c):
        if c == "I":
            return iv(0)
        if c == "B":
            return z3.BoolVal(False)
        if c == "R":
            return z3.RealVal(0)
        if c == "S":
            return self.strlit("")
        return z3.K(I, self.zerocomp(c[1:]))

    def freshcomps(self, tid, hint="v"):
        return [fresh(sort(c), hint) for c in self.p.comps(tid)]

    def freshval(self, st, tid, hint="v"):
        cs = self.freshcomps(tid, hint)
        self.typefacts(st, tid, cs)
        return self.unflatten(tid, cs)

    def typefacts(self, st, tid, cs, nil_ok=True):
        """assume the type invariants of flat components"""
        fs = []
        self._tf(st, tid, cs, fs)
        for f in fs:
            if z3.is_true(f):
                continue
            k = f.get_id()
            if k not in st.known:
                st.known[k] = f
                st.assume(f)

    def _tf(self, st, tid, cs, fs):
        k = self.p.kind(tid)
        if k == "int":
            e = cs[0]
            if not z3.is_expr(e) or isn(e):
                return
            bits, sg = self.p.intinfo(tid)
            lo, hi = (-(1 << (bits - 1)), (1 << (bits - 1)) - 1) if sg else (0, (1 << bits) - 1)
            fs.append(z3.And(e >= lo, e <= hi))
        elif k in ("ptr", "map", "chan"):
            e = cs[0]
            if z3.is_expr(e) and not isn(e):
                fs.append(e >= st.A)
        elif k == "slice":
            r, o, l, c = cs
            if isn(r) and isn(l) and isn(o) and isn(c):
                return
            fs.append(z3.And(r >= st.A, o >= 0, l >= 0, l <= c, c <= (1 << 48), o <= (1 << 48),
                             z3.Implies(r == 0, z3.And(c == 0, o == 0))))
        elif k == "iface":
            t, p_ = cs
            if isn(t):
                return
            fs.append(z3.And(t >= 0, z3.Implies(t == 0, p_ == 0)))
        elif k == "string":
            if z3.is_const(cs[0]) and cs[0].decl().name().startswith("lit!"):
                return
            fs.append(z3.And(slen(cs[0]) >= 0, slen(cs[0]) <= (1 << 48)))
        elif k == "struct":
            i = 0
            for f in self.p.u(tid)["fields"]:
                n = len(self.p.comps(f["type"]))
                self._tf(st, f["type"], cs[i:i + n], fs)
                i += n
        elif k == "tuple":
            i = 0
            for e in self.p.t(tid)["elems"]:
                n = len(self.p.comps(e))
                self._tf(st, e, cs[i:i + n], fs)
                i += n

    def unflatten(self, tid, cs):
        k = self.p.kind(tid)
        if k in ("int", "bool", "string", "float", "map", "chan", "other"):
            return cs[0]
        if k == "ptr":
            e = cs[0]
            if z3.is_expr(e):
                lv = self.iptrs.get(e.get_id())
                if lv is not None:
                    return lv[1]
            return e
        if k == "func":
            e = cs[0]
            if z3.is_expr(e) and isn(e) and e.as_long() in self.idfns:
                return self.idfns[e.as_long()]
            return e
        if k == "slice":
            return Slice(*cs)
        if k == "iface":
            if isinstance(cs[1], Iface):
                return cs[1]
            return Iface(cs[0], cs[1])
        if k == "struct":
            r, i = [], 0
            for f in self.p.u(tid)["fields"]:
                n = len(self.p.comps(f["type"]))
                r.append(self.unflatten(f["type"], cs[i:i + n]))
                i += n
            return Struct(r)
        if k == "tuple":
            r, i = [], 0
            for e in self.p.t(tid)["elems"]:
                n = len(self.p.comps(e))
                r.append(self.unflatten(e, cs[i:i + n]))
                i += n
            return Tup(r)
        if k == "array":
            return Arr(cs)
        return cs[0]

    def flatten(self, st, tid, v, soft=False):
        """components; soft=True keeps python-level pointers/closures (for local cells)"""
        k = self.p.kind(tid)
        if k in ("int", "bool", "string", "float", "map", "chan", "other"):
            return [v]
        if k == "ptr":
            if isinstance(v, LV):
                return [v if soft else self.ref(st, v)]
            return [v]
        if k == "func":
            if isinstance(v, Closure):
                return [v if soft else self.fnid(v)]
            return [v]
        if k == "slice":
            return [v.ref, v.off, v.len, v.cap]
        if k == "iface":
            if v.dyn is not None and v.pay is None:
                if soft:
                    return [v.tag, v]
                v = self.boxed(st, v)
            return [v.tag, v.pay]
        if k == "struct":
            r = []
            for f, x in zip(self.p.u(tid)["fields"], v.f):
                r += self.flatten(st, f["type"], x, soft)
            return r
        if k == "tuple":
            r = []
            for e, x in zip(self.p.t(tid)["elems"], v.f):
                r += self.flatten(st, e, x, soft)
            return r
        if k == "array":
            return list(v.c)
        raise Unsupported("flatten " + k)

    def hard(self, st, cs):
        """turn soft components into SMT terms"""
        r = []
        for i, c in enumerate(cs):
            if isinstance(c, LV):
                c = self.ref(st, c)
            elif isinstance(c, Closure):
                c = self.fnid(c)
            elif isinstance(c, Iface):
                c = self.boxed(st, c).pay
            r.append(c)
        return r

    def boxfns(self, tid):
        cs = self.p.comps(tid)
        key = "t%d" % tid
        un = [z3.Function("unbox_%s_%d" % (key, i), I, sort(c)) for i, c in enumerate(cs)]
        bx = z3.Function("box_%s" % key, *([sort(c) for c in cs] + [I]))
        return bx, un

    def boxed(self, st, v):
        """give an Iface with python dynamic value an SMT payload"""
        if v.pay is not None:
            return v
        tid, x = v.dyn
        if self.p.kind(tid) in ("ptr", "map", "chan", "func"):
            pay = self.flatten(st, tid, x)[0]
        else:
            cs = self.flatten(st, tid, x)
            bx, un = self.boxfns(tid)
            if cs:
                pay = bx(*cs)
                for f, c in zip(un, cs):
                    st.assume(f(pay) == c)
            else:
                pay = iv(1)
        return Iface(v.tag, pay, v.dyn)

    def ref(self, st, v):
        """object reference (Int term) of a pointer value"""
        if not isinstance(v, LV):
            return v
        v = self.resolve(st, v)
        if v.kind == "obj" and v.off == 0 and not v.aidx and v.tid == v.root:
            return v.ref
        if v.kind == "local" and v.off == 0 and not v.aidx and v.tid == st.locals[v.ref][0]:
            return self.materialize(st, v.ref)
        if v.kind == "local":
            self.materialize(st, v.ref)
            v = self.resolve(st, v)
        for k, (c, lv) in self.iptrs.items():
            if lv.same(v):
                return c
        c = z3.Const("iptr!%d" % len(self.iptrs), I)
        self.iptrs[c.get_id()] = (c, v)
        self.addbase(c > (1 << 40) + len(self.iptrs))
        self.addbase(c < (1 << 40) + len(self.iptrs) + 2)
        return c

    def alloc(self, st):
        r = add(st.A, iv(-1))
        st.A = r
        self.allocs[r.get_id()] = (fresh_n(), r)
        st.log("A")
        for n in sorted(self.cs.newghosts):
            # ghost fields named new_* are zero when an object is created
            st.assume(sel(self.hget(st, ("#gh", n), "I"), r) == 0)
        return r

    def materialize(self, st, lid):
        if lid in st.fwd:
            return st.fwd[lid]
        r = self.alloc(st)
        tid, cs = st.locals[lid]
        st.fwd[lid] = r
        cs = self.hard(st, cs)
        for i, c in enumerate(cs):
            key = (self.rootname(tid), i)
            st.heap[key] = store(self.hget(st, key, self.p.comps(tid)[i]), r, c)
            st.log("H", key, r)
        return r

    def resolve(self, st, lv):
        if lv.kind == "local" and lv.ref in st.fwd:
            t = st.locals[lv.ref][0]
            return LV("obj", t, st.fwd[lv.ref], None, lv.off, lv.tid, lv.aidx)
        return lv

    def rootname(self, tid):
        t = self.p.t(tid)
        return t["str"] if t["kind"] == "named" else "cell:" + t["str"]

    # ------------------------------------------------------------ memory
    def hget(self, st, key, comp):
        """current SMT array (or scalar for globals) of a heap key"""
        h = st.heap.get(key)
        if h is None:
            h = self.initheap.get(key)
            if h is None:
                srt = sort(comp)
                if key[0] == "#g":
                    pass
                elif key[0] == "#elem":
                    srt = z3.ArraySort(I, z3.ArraySort(I, srt))
                elif key[0] in ("#mapdom", "#mapval"):
                    srt = z3.ArraySort(I, z3.ArraySort(key[2], srt))
                else:
                    srt = z3.ArraySort(I, srt)
                h = z3.Const("H0:" + ":".join(str(x) for x in key), srt)
                h = self.constinit(key, h)
                self.initheap[key] = h
            st.heap[key] = h
        return h

    def constinit(self, key, h):
        """initial contents of never-changing package variables"""
        cg = self.p.constglobals()
        if key[0] == "#elem":
            live = self.liveglobals()
            cg = {k: v for k, v in cg.items() if k in live or v[0] != "slice"}
        if key[0] == "#g" and key[1] in cg:
            c = cg[key[1]]
            if c[0] == "const":
                return self.const(c[1])
            if c[0] == "array" and key[2] == 0:
                return self.constarr(c[1], h.sort().range())
            if c[0] == "slice":
                r = (1 << 41) + sorted(cg).index(key[1])
                return [iv(r), iv(0), iv(c[2]), iv(c[2])][key[2]]
        if key[0] == "#elem" and key[2] == 0:
            for i, n in enumerate(sorted(self.p.constglobals())):
                c = cg.get(n)
                if c is None:
                    continue
                if c[0] == "slice" and self.p.t(self.p.elem(self.p.elem(self.p.globals[n]["pt"]) if "pt" in self.p.globals[n] else self.p.globals[n]["t"]))["str"] == key[1]:
                    self.addbase(z3.Select(h, iv((1 << 41) + i)) == self.constarr(c[1], h.sort().range().range()))
        return h

    def liveglobals(self):
        """package variables mentioned by the function under verification or its callees without contract"""
        if self.cur is None or not hasattr(self.cur, "fn"):
            return set()
        r = self.loopcache.get(("live", self.cur.fn))
        if r is not None:
            return r
        out, seen, todo = set(), set(), [self.cur.fn]

        def walk(o):
            if isinstance(o, dict):
                if o.get("k") == "global":
                    out.add(o["n"])
                elif o.get("k") == "func":
                    c = self.cs.get(o["n"])
                    if c is None or c.inline:
                        todo.append(o["n"])
                for v in o.values():
                    walk(v)
            elif isinstance(o, list):
                for v in o:
                    walk(v)
        while todo:
            n = todo.pop()
            f = self.p.funcs.get(n)
            if n in seen or f is None or not f.blocks:
                continue
            seen.add(n)
            for b in f.blocks:
                walk(b.ins)
        self.loopcache[("live", self.cur.fn)] = out
        return out

    def constarr(self, vals, rng):
        if rng == I:
            n = max(vals) + 1 if vals else 0
            return consttab([self.const(vals[i]).as_long() if i in vals else 0 for i in range(n)])
        a = z3.Const("tab!%d" % fresh_n(), z3.ArraySort(I, rng))
        for i in sorted(vals):
            self.addbase(z3.Select(a, iv(i)) == self.const(vals[i]))
        return a

    def global_init(self, name, tid):
        return None

    def lv_of_ptr(self, st, ptr, tid_elem):
        """pointer value (LV or Int) to elements of type tid_elem -> LV"""
        if isinstance(ptr, LV):
            return self.resolve(st, ptr)
        return LV("obj", tid_elem, ptr, None, 0, tid_elem)

    def load(self, st, lv, facts=True):
        lv = self.resolve(st, lv)
        cs = self.loadc(st, lv)
        if facts:
            exprs = [c for c in cs]
            if all(z3.is_expr(c) for c in exprs):
                self.typefacts(st, lv.tid, exprs)
        return self.unflatten(lv.tid, cs)

    def loadc(self, st, lv):
        n = len(self.p.comps(lv.tid))
        if lv.kind == "local":
            t, cells = st.locals[lv.ref]
            cs = cells[lv.off:lv.off + n]
        elif lv.kind == "obj":
            if self.p.kind(lv.root) == "array":
                # pointer to array object lives in element memory
                e = self.p.elem(lv.root)
                cs = []
                for i, c in enumerate(self.p.comps(e)):
                    key = ("#elem", self.p.t(e)["str"], i)
                    cs.append(sel(self.hget(st, key, c), lv.ref))
                return cs[lv.off:lv.off + n]
            self.access(st, lv, False)
            cs = []
            rc = self.p.comps(lv.root)
            rn = self.rootname(lv.root)
            for i in range(lv.off, lv.off + n):
                key = (rn, i)
                a = self.hget(st, key, rc[i])
                h0 = self.initheap.get(key)
                cs.append(sel(a, lv.ref))
                # references stored in the initial heap are pre-existing objects
                if h0 is not None and rc[i] == "I":
                    self.initfact(st, lv.root, i, h0, lv.ref)
        elif lv.kind == "elem":
            cs = []
            rc = self.p.comps(lv.root)
            en = self.p.t(lv.root)["str"]
            for i in range(lv.off, lv.off + n):
                key = ("#elem", en, i)
                a = sel(self.hget(st, key, rc[i]), lv.ref)
                cs.append(sel(a, lv.idx))
        elif lv.kind == "global":
            self.access(st, lv, False)
            cs = []
            rc = self.p.comps(lv.root)
            for i in range(lv.off, lv.off + n):
                cs.append(self.hget(st, ("#g", lv.ref, i), rc[i]))
        else:
            raise Unsupported("load " + lv.kind)
        for ix in lv.aidx:
            cs = [sel(c, ix) for c in cs]
        return cs

    def isrefcomp(self, root, i):
        """is flat component i of root a reference (ptr/map/chan/slice ref)?"""
        key = ("refc", root)
        c = self.loopcache.get(key)
        if c is None:
            c = []

            def go(t):
                k = self.p.kind(t)
                if k in ("ptr", "map", "chan"):
                    c.append(True)
                elif k == "slice":
                    c.extend([True, False, False, False])
                elif k == "struct":
                    for f in self.p.u(t)["fields"]:
                        go(f["type"])
                else:
                    c.extend([False] * len(self.p.comps(t)))
            go(root)
            self.loopcache[key] = c
        return c[i]

    def initfact(self, st, root, i, h0, ref):
        if not self.isrefcomp(root, i):
            return
        f = z3.Select(h0, ref) >= 0
        k = f.get_id()
        if k not in st.known:
            st.known[k] = f
            # only meaningful for pre-existing objects
            st.assume(z3.Implies(ref >= 0, f))

    def storev(self, st, lv, v):
        lv = self.resolve(st, lv)
        if lv.kind == "local":
            cs = self.flatten(st, lv.tid, v, soft=True)
            lv = self.resolve(st, lv)
        if lv.kind != "local":
            cs = self.flatten(st, lv.tid, v)
        self.storec(st, lv, cs)

    def storec(self, st, lv, cs):
        n = len(cs)
        if lv.aidx:
            base = LV(lv.kind, lv.root, lv.ref, lv.idx, lv.off, lv.tid)
            old = self.loadc_raw(st, base, n)
            new = []
            for o, c in zip(old, cs):
                if len(lv.aidx) == 1:
                    new.append(store(o, lv.aidx[0], c))
                elif len(lv.aidx) == 2:
                    new.append(store(o, lv.aidx[0], store(sel(o, lv.aidx[0]), lv.aidx[1], c)))
                else:
                    raise Unsupported("array nesting")
            cs = new
            lv = base
        if lv.kind == "local":
            cells = st.locals[lv.ref][1]
            cells[lv.off:lv.off + n] = cs
            st.log("L", lv.ref)
        elif lv.kind == "obj":
            if self.p.kind(lv.root) == "array":
                e = self.p.elem(lv.root)
                for i, c in enumerate(cs):
                    key = ("#elem", self.p.t(e)["str"], lv.off + i)
                    st.heap[key] = store(self.hget(st, key, self.p.comps(e)[lv.off + i]), lv.ref, c)
                    st.log("H", key, lv.ref)
                return
            self.access(st, lv, True)
            rc = self.p.comps(lv.root)
            rn = self.rootname(lv.root)
            for j, c in enumerate(cs):
                key = (rn, lv.off + j)
                st.heap[key] = store(self.hget(st, key, rc[lv.off + j]), lv.ref, c)
                st.log("H", key, lv.ref)
        elif lv.kind == "elem":
            rc = self.p.comps(lv.root)
            en = self.p.t(lv.root)["str"]
            for j, c in enumerate(cs):
                key = ("#elem", en, lv.off + j)
                h = self.hget(st, key, rc[lv.off + j])
                st.heap[key] = store(h, lv.ref, store(sel(h, lv.ref), lv.idx, c))
                st.log("H", key, lv.ref)
        elif lv.kind == "global":
            self.access(st, lv, True)
            for j, c in enumerate(cs):
                key = ("#g", lv.ref, lv.off + j)
                st.heap[key] = c
                st.log("G", key)
        else:
            raise Unsupported("store " + lv.kind)

    def loadc_raw(self, st, lv, n):
        l2 = LV(lv.kind, lv.root, lv.ref, lv.idx, lv.off, lv.tid)
        if lv.kind == "local":
            return st.locals[lv.ref][1][lv.off:lv.off + n]
        if lv.kind == "global":
            rc = self.p.comps(lv.root)
            return [self.hget(st, ("#g", lv.ref, i), rc[i]) for i in range(lv.off, lv.off + n)]
        if lv.kind == "obj":
            rc = self.p.comps(lv.root)
            rn = self.rootname(lv.root)
            return [sel(self.hget(st, (rn, i), rc[i]), lv.ref) for i in range(lv.off, lv.off + n)]
        if lv.kind == "elem":
            rc = self.p.comps(lv.root)
            en = self.p.t(lv.root)["str"]
            return [sel(sel(self.hget(st, ("#elem", en, i), rc[i]), lv.ref), lv.idx) for i in range(lv.off, lv.off + n)]
        raise Unsupported("raw")

    # access discipline for lock-guarded state
    def access(self, st, lv, write):
        if lv.kind == "global":
            gi = self.cs.guard_global.get(lv.ref)
            if gi is None:
                return
            lk = ("g", gi)
            ok = lk in st.locks and (not write or st.locks[lk] == "w")
            if not ok:
                self.guardfail(st, "global " + lv.ref, write)
            return
        for g in self.cs.guard.get(self.rootname(lv.root), ()):
            for i in range(lv.off, lv.off + len(self.p.comps(lv.tid))):
                if i in g["fields"]:
                    if self.isfreshref(st, lv.ref):
                        return
                    mode = self.heldmode(st, lv.root, lv.ref, g["lockoff"])
                    if mode is None or (write and mode != "w"):
                        self.guardfail(st, g["names"][i], write)
                    break

    def isfreshref(self, st, ref):
        a = self.allocs.get(ref.get_id())
        return a is not None

    def heldmode(self, st, root, ref, off):
        for k, m in st.locks.items():
            if k[0] == "o" and k[1] == self.rootname(root) and k[3] == off:
                if k[2].eq(ref):
                    return m
        for k, m in st.locks.items():
            if k[0] == "o" and k[1] == self.rootname(root) and k[3] == off:
                if self.qf_entails(st, k[2] == ref):
                    return m
        return None

    def guardfail(self, st, what, write):
        if self.dry or self.opts.get("noguard") or (self.cur is not None and "noguard" in self.cur.opts):
            return
        nm = "%s#guarded:%s" % (self.curname(), what)
        if not self.feasible(st):
            return
        self.obls.append({"name": nm, "status": "failed", "time": 0.0,
                          "info": "%s of %s without holding its lock" % ("write" if write else "read", what), "model": ""})

    def curname(self):
        return self.cur.fn if self.cur else "?"

    # ------------------------------------------------------------ slices
    def elemkeys(self, et):
        en = self.p.t(et)["str"]
        return [(("#elem", en, i), c) for i, c in enumerate(self.p.comps(et))]

    def new_backing(self, st, et, contents=None):
        """fresh backing array; contents: list of SMT arrays per component or None for zeroes"""
        r = self.alloc(st)
        for i, (key, c) in enumerate(self.elemkeys(et)):
            a = contents[i] if contents is not None else z3.K(I, self.zerocomp(c))
            st.heap[key] = store(self.hget(st, key, c), r, a)
            st.log("H", key, r)
        return r

    def arr_copy(self, st, comp, dst, doff, src, soff, n):
        """array equal to dst except dst[doff..doff+n) = src[soff..]"""
        if isn(n):
            k = n.as_long()
            if k <= 0:
                return dst
            if k <= 20:
                vals = [sel(src, add(soff, iv(i))) for i in range(k)]
                for i, v in enumerate(vals):
                    dst = store(dst, add(doff, iv(i)), v)
                return dst
        r = fresh(z3.ArraySort(I, sort(comp)), "cp")
        j = z3.Int("j!cp%d" % fresh_n())
        st.assume(z3.ForAll([j], z3.Select(r, j) == z3.If(z3.And(j >= doff, j < doff + n),
                                                          z3.Select(src, j - doff + soff), z3.Select(dst, j)),
                            patterns=[z3.Select(r, j)]))
        # instantiate at the first element, which most proofs need
        return r

    def slice_content(self, st, sl, et):
        return [sel(self.hget(st, key, c), sl.ref) for key, c in self.elemkeys(et)]

    def write_range(self, st, et, dref, doff, srcs, soff, n):
        for i, (key, c) in enumerate(self.elemkeys(et)):
            h = self.hget(st, key, c)
            a = self.arr_copy(st, c, sel(h, dref), doff, srcs[i], soff, n)
            st.heap[key] = store(h, dref, a)
            st.log("H", key, dref)

    def append(self, st, a, srcs, soff, n, et, linear=False):
        """returns list of (state, Slice) for append of n elements taken from arrays srcs at soff"""
        if isn(n) and n.as_long() == 0:
            return [(st, a)]
        nl = add(a.len, n)
        outs = []
        fits = nl <= a.cap
        if linear and not isn(n) and self.feasible(st, n == 0):
            s0 = st.fork()
            s0.assume(n == 0)
            outs.append((s0, a))
            if not self.feasible(st, n > 0):
                return outs
            st = st.fork()
            st.assume(n > 0)
        elif linear:
            pass
        elif not isn(n) and not isn(a.cap) and self.feasible(st, z3.And(n == 0, a.cap == 0)):
            # nothing appended to an empty slice: no array is written
            s0 = st.fork()
            s0.assume(n == 0)
            outs.append((s0, a))
            st = st.fork()
            st.assume(n > 0)
        if linear:
            # reuse of the backing array cannot be observed (linear.py)
            can_fit, can_grow = False, True
        elif isn(nl) and isn(a.cap):
            can_fit, can_grow = nl.as_long() <= a.cap.as_long(), nl.as_long() > a.cap.as_long()
        else:
            can_fit = self.feasible(st, fits)
            can_grow = self.feasible(st, Not(fits))
        if can_fit:
            s1 = st.fork() if can_grow else st
            if can_grow:
                s1.assume(fits)
            self.write_range(s1, et, a.ref, add(a.off, a.len), srcs, soff, n)
            outs.append((s1, Slice(a.ref, a.off, nl, a.cap)))
        if can_grow:
            s2 = st
            if can_fit:
                s2 = st.fork()
                # note: fork before assumption; s1 was forked from same st
                s2.assume(Not(fits))
            conts = []
            old = self.slice_content(s2, a, et)
            for i, (key, c) in enumerate(self.elemkeys(et)):
                if isn(a.len) and a.len.as_long() == 0:
                    base = z3.K(I, self.zerocomp(c))
                else:
                    base = self.arr_copy(s2, c, z3.K(I, self.zerocomp(c)), iv(0), old[i], a.off, a.len)
                conts.append(self.arr_copy(s2, c, base, a.len, srcs[i], soff, n))
            r = self.new_backing(s2, et, conts)
            cap = fresh(I, "cap")
            s2.assume(z3.And(cap >= nl, cap <= (1 << 48)))
            outs.append((s2, Slice(r, iv(0), nl, cap)))
        return outs

    # ------------------------------------------------------------ maps
    def mapkeys(self, mt):
        u = self.p.u(mt)
        ks = self.keysort(u["key"])
        ts = self.p.t(mt)["str"] if False else "map[%s]%s" % (self.p.t(u["key"])["str"], self.p.t(u["elem"])["str"])
        dom = ("#mapdom", ts, ks)
        vals = [(("#mapval", ts, ks, i), c) for i, c in enumerate(self.p.comps(u["elem"]))]
        ln = ("#maplen", ts)
        return dom, vals, ln

    def keysort(self, kt):
        cs = self.p.comps(kt)
        if len(cs) == 1:
            return sort(cs[0])
        return I

    def keyexpr(self, st, kt, k):
        cs = self.flatten(st, kt, k)
        if len(cs) == 1:
            return cs[0]
        if self.p.kind(kt) == "iface" and isn(cs[0]):
            pass
        f = z3.Function("mkkey_%d" % len(cs), *([sort(c) for c in self.p.comps(kt)] + [I]))
        e = f(*cs)
        for i, (c, x) in enumerate(zip(self.p.comps(kt), cs)):
            g = z3.Function("unkey_%d_%d" % (len(cs), i), I, sort(c))
            st.assume(g(e) == x)
        return e

    def unkey(self, kt, ke):
        cs = self.p.comps(kt)
        if len(cs) == 1:
            return [ke]
        return [z3.Function("unkey_%d_%d" % (len(cs), i), I, sort(c))(ke) for i, c in enumerate(cs)]

    def map_dom(self, st, mt, m):
        dom, _, _ = self.mapkeys(mt)
        return sel(self.hget(st, dom, "B"), m)

    def map_len(self, st, mt, m):
        _, _, ln = self.mapkeys(mt)
        e = sel(self.hget(st, ln, "I"), m)
        if not isn(e):
            k = ("ml", e.get_id())
            if k not in st.known:
                st.known[k] = e
                st.assume(z3.And(e >= 0, e <= (1 << 48)))
                st.assume(z3.Implies(m == 0, e == 0))
        return e

    def map_get(self, st, mt, m, k):
        """(present, value comps)"""
        u = self.p.u(mt)
        dom, vals, ln = self.mapkeys(mt)
        ke = self.keyexpr(st, u["key"], k)
        pres = And(m != 0, sel(self.map_dom(st, mt, m), ke))
        cs = [sel(sel(self.hget(st, key, c), m), ke) for key, c in vals]
        return pres, cs

    def map_put(self, st, mt, m, k, v):
        u = self.p.u(mt)
        dom, vals, ln = self.mapkeys(mt)
        ke = self.keyexpr(st, u["key"], k)
        d = self.hget(st, dom, "B")
        was = sel(sel(d, m), ke)
        l0 = self.map_len(st, mt, m)
        st.heap[dom] = store(d, m, store(sel(d, m), ke, z3.BoolVal(True)))
        st.log("H", dom, m)
        cs = self.flatten(st, u["elem"], v)
        for (key, c), x in zip(vals, cs):
            h = self.hget(st, key, c)
            st.heap[key] = store(h, m, store(sel(h, m), ke, x))
            st.log("H", key, m)
        h = self.hget(st, ln, "I")
        st.heap[ln] = store(h, m, If(was, l0, add(l0, iv(1))))
        st.log("H", ln, m)

    def map_del(self, st, mt, m, k):
        u = self.p.u(mt)
        dom, vals, ln = self.mapkeys(mt)
        ke = self.keyexpr(st, u["key"], k)
        d = self.hget(st, dom, "B")
        was = sel(sel(d, m), ke)
        l0 = self.map_len(st, mt, m)
        st.assume(z3.Implies(was, l0 >= 1))
        st.heap[dom] = store(d, m, store(sel(d, m), ke, z3.BoolVal(False)))
        st.log("H", dom, m)
        h = self.hget(st, ln, "I")
        st.heap[ln] = store(h, m, If(was, sub(l0, iv(1)), l0))
        st.log("H", ln, m)

    def new_map(self, st, mt):
        r = self.alloc(st)
        dom, vals, ln = self.mapkeys(mt)
        ks = dom[2]
        st.heap[dom] = store(self.hget(st, dom, "B"), r, z3.K(ks, z3.BoolVal(False)))
        st.log("H", dom, r)
        h = self.hget(st, ln, "I")
        st.heap[ln] = store(h, r, iv(0))
        st.log("H", ln, r)
        return r

    # ------------------------------------------------------------ trace
    def emit(self, st, kind, a=None, b=None, c=None):
        z = iv(0)
        if st.trn is None:
            self.init_trace(st)
        a, b, c = [self.evint(st, x) for x in (a, b, c)]
        e = Ev.mk(iv(self.evkind(kind)), a if a is not None else z, b if b is not None else z, c if c is not None else z)
        st.tra = z3.Store(st.tra, st.trn, e)
        st.trn = add(st.trn, iv(1))
        st.log("T")

    def evint(self, st, x):
        """an event argument as an integer: strings through an injection, booleans as 0/1"""
        if x is None or not z3.is_expr(x):
            return x
        if x.sort() == S:
            r = strid(x)
            if ("strid", r.get_id()) not in st.known:
                st.known[("strid", r.get_id())] = r
                st.assume(unstrid(r) == x)
            return r
        if x.sort() == B:
            return z3.If(x, iv(1), iv(0))
        return x if x.sort() == I else iv(0)

    def init_trace(self, st):
        st.trn = iv(0)
        st.tra = z3.Const("TR0", EvArr)
