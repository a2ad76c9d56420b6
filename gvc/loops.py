"""Loops: cut at the header, invariants by Houdini over typed templates."""
import time
import itertools
import time
import z3
from core import *
from engine import RET, PANIC, Res
from spec import Ctx, SV, SpecError

PURE = {"FieldAddr", "UnOp", "BinOp", "Convert", "ChangeType", "Call", "Field", "Extract", "IndexAddr"}


class WSet:
    def __init__(self):
        self.inv = {}      # key -> {id: ref}
        self.fresh = set()
        self.whole = set()
        self.glob = set()
        self.loc = set()
        self.iters = set()
        self.flags = set()
        self.mat = set()
        self.acq = set()
        self.ghost = set()

    def size(self):
        return (sum(len(v) for v in self.inv.values()), len(self.fresh), len(self.whole), len(self.glob), len(self.loc),
                len(self.iters), len(self.flags), len(self.mat), len(self.acq), len(self.ghost))


def run_loop(eng, fr, h, env, st):
    r = try_unroll(eng, fr, h, env, st)
    if r is not None:
        return r
    return cut(eng, fr, h, env, st)


def try_unroll(eng, fr, h, env, st):
    f = fr.fn
    blk = f.blocks[h]
    term = blk.ins[-1]
    has_const = False
    for ins in blk.ins:
        if ins["op"] != "Phi":
            break
        v = env.get(ins["reg"])
        if v is not None and z3.is_expr(v) and isn(v):
            has_const = True
    if not has_const:
        return None
    body = f.an["loops"][h]
    nob, unsup = len(eng.obls), None
    # quick test: is the first header decision determined?
    frontier = [(dict(env), st.fork())]
    exits, results = [], []
    for it in range(eng.opts["unroll"] + 1):
        nxt = []
        for e, s in frontier:
            for ins in blk.ins:
                if ins["op"] == "Phi" and z3.is_expr(e[ins["reg"]]) and isn(e[ins["reg"]]):
                    break
            else:
                del eng.obls[nob:]
                return None
            ex, bk, rs = one(eng, fr, h, body, e, s, decided=not (eng.cur is not None and "unrollall" in eng.cur.opts))
            if ex is None:
                del eng.obls[nob:]
                return None
            exits += ex
            results += rs
            nxt += [(e2, s2) for (_, e2, s2) in bk]
        if not nxt:
            return exits, results
        if len(nxt) > 16:
            nxt = eng.merge_all(nxt, eng.regtypes(f))
            if len(nxt) > 64:
                break
        frontier = nxt
        if eng.opts.get("debug"): print("   unroll", f.name, h, it, len(nxt), round(time.time()%10000,1))
    del eng.obls[nob:]
    return None


def one(eng, fr, h, body, env, st, decided=False):
    """one iteration from the header"""
    if decided:
        blk = fr.fn.blocks[h]
        if blk.ins[-1]["op"] == "If" and any(s not in body for s in blk.succs):
            eng.dry += 1
            try:
                outs, rs = eng.block(fr, h, dict(env), st.fork())
            finally:
                eng.dry -= 1
            if len({o[0] for o in outs}) > 1:
                return None, None, None
        elif blk.ins[-1]["op"] != "If":
            return None, None, None
    return eng.region(fr, [(h, None, env, st)], body, h)


# ------------------------------------------------------------------ havoc

def havoc(eng, fr, h, entry, env, W, phis):
    s = entry.fork()
    for lid in W.mat:
        if lid not in s.fwd and lid in s.locals:
            eng.materialize(s, lid)
    base = s.fork()
    mark = now()
    if "A" in W.flags:
        A = fresh(I, "A")
        s.assume(A <= s.A)
        s.A = A
        s.log("A")
    Ae = base.A
    for key in set(W.inv) | W.fresh | W.whole:
        h0 = s.heap.get(key)
        if h0 is None:
            h0 = eng.initheap[key]
        if key in W.whole:
            s.heap[key] = fresh(h0.sort(), "lw")
            s.log("HK", key)
            continue
        hh = h0
        if key in W.fresh:
            hh = fresh(h0.sort(), "lf")
            r = z3.Int("r!lf%d" % fresh_n())
            s.assume(z3.ForAll([r], z3.Implies(r >= Ae, z3.Select(hh, r) == z3.Select(h0, r)), patterns=[z3.Select(hh, r)]))
            s.log("HF", key)
        for ref in W.inv.get(key, {}).values():
            hh = store(hh, ref, fresh(h0.sort().range(), "li"))
            s.log("H", key, ref)
        s.heap[key] = hh
    for key in W.glob:
        g0 = s.heap.get(key)
        if g0 is None:
            g0 = eng.initheap[key]
        s.heap[key] = fresh(g0.sort(), "lg")
        s.log("G", key)
    for lid in W.loc:
        if lid in s.locals and lid not in s.fwd:
            t = s.locals[lid][0]
            cs = eng.freshcomps(t, "ll")
            eng.typefacts(s, t, cs)
            s.locals[lid] = [t, cs]
            s.log("L", lid)
    for it in W.iters:
        if it in s.iters:
            s.iters[it] = fresh(s.iters[it].sort(), "it")
            if s.iters[it].sort() == I:
                s.assume(s.iters[it] >= 0)
            s.log("IT", it)
    if "T" in W.flags:
        import contract
        contract.havoc_trace(eng, s)
    for g in W.ghost:
        if g in s.ghost:
            s.ghost[g] = fresh(s.ghost[g].sort(), "lgh")
    s.acq = s.acq | frozenset(W.acq)
    e = dict(env)
    for ins in phis:
        e[ins["reg"]] = eng.freshval(s, ins["t"], "phi_" + (ins.get("comment") or "x").replace(" ", ""))
    return s, e, mark, base


def collect(eng, W, s0, mark, backs, base=None, roots=()):
    for (prev, e, b) in backs:
        for ent in eng.logset(b.wlog, s0.wlog):
            k = ent[0]
            if k == "H":
                key, ref = ent[1], ent[2]
                if key in W.whole:
                    continue
                if newest(ref) < mark and not (ref.get_id() in eng.allocs and eng.allocs[ref.get_id()][0] >= mark):
                    W.inv.setdefault(key, {})[ref.get_id()] = ref
                    continue
                a = eng.allocs.get(ref.get_id())
                if a is not None and a[0] >= mark:
                    W.fresh.add(key)
                    continue
                if eng.qf_entails(b, ref < s0.A):
                    W.fresh.add(key)
                    continue
                # allocated inside the loop, or one of the objects the loop variables had on entry
                A0 = base.A if base is not None else s0.A
                if eng.qf_entails(b, Or(ref < A0, *[ref == r0 for r0 in roots])):
                    W.fresh.add(key)
                    for r0 in roots:
                        if eng.feasible(b, ref == r0):
                            W.inv.setdefault(key, {})[r0.get_id()] = r0
                    continue
                if any(eng.qf_entails(b, ref == r0) for r0 in W.inv.get(key, {}).values()):
                    continue
                W.whole.add(key)
            elif k == "HF":
                W.fresh.add(ent[1])
            elif k == "HK":
                W.whole.add(ent[1])
            elif k == "G":
                W.glob.add(ent[1])
            elif k == "L":
                if ent[1] in s0.locals:
                    W.loc.add(ent[1])
            elif k == "IT":
                if ent[1] in s0.iters:
                    W.iters.add(ent[1])
            elif k in ("A", "T"):
                W.flags.add(k)
        for lid in b.fwd:
            if lid not in s0.fwd and lid in s0.locals:
                W.mat.add(lid)
        # a lock reached through a per-iteration value is taken to be a different object in each iteration
        W.acq |= {a for a in b.acq - s0.acq if a not in eng.acqterm or newest(eng.acqterm[a]) < mark}


# ------------------------------------------------------------------ candidates

def defs_of(f):
    d = getattr(f, "_defs", None)
    if d is None:
        d = {}
        for b in f.blocks:
            for ins in b.ins:
                if "reg" in ins:
                    d[ins["reg"]] = (b.i, ins)
        f._defs = d
    return d


def heval(eng, fr, env, st, o, depth=0, body=None):
    """evaluate an operand at the loop header, re-evaluating pure instructions of the body; None if impossible"""
    if o["k"] != "reg":
        try:
            return eng.val(fr, env, st, o)
        except (Unsupported, KeyError):
            return None
    d = defs_of(fr.fn).get(o["n"])
    if d is None:
        return env.get(o["n"])
    b, ins = d
    if body is not None and b not in body or ins["op"] == "Phi":
        return env.get(o["n"])
    if ins["op"] not in PURE or depth > 6:
        return None
    if ins["op"] == "Call":
        c = ins["call"]
        if c["mode"] != "call" or c["fn"]["k"] != "builtin" or c["fn"]["n"] not in ("len", "cap"):
            return None
        a = heval(eng, fr, env, st, c["args"][0], depth + 1, body)
        if a is None or isinstance(a, Iter):
            return None
        r = eng.builtin(fr, st, c["fn"]["n"], {"args": [a], "argt": [c["args"][0]["t"]]}, False)
        return r[0].val[0]
    e2 = dict(env)
    for k in ("x", "y"):
        if k in ins and isinstance(ins[k], dict) and ins[k]["k"] == "reg":
            v = heval(eng, fr, env, st, ins[k], depth + 1, body)
            if v is None:
                return None
            e2[ins[k]["n"]] = v
    eng.dry += 1
    g = eng.opts.get("noguard")
    eng.opts["noguard"] = True
    try:
        rs = eng.step(fr, e2, st, ins)
    except Exception:
        return None
    finally:
        eng.dry -= 1
        eng.opts["noguard"] = g
    ok = [r for r in rs if r[0] == "ok"]
    if len(ok) != 1:
        return None
    if ok[0][2] is not st:
        return None
    return ok[0][1].get(ins["reg"])


class Cand:
    __slots__ = ("key", "fn", "user")

    def __init__(self, key, fn, user=False):
        self.key, self.fn, self.user = key, fn, user


def candidates(eng, fr, h, env, st, phis, body, W):
    f = fr.fn
    out = []

    def addc(key, fn, user=False):
        out.append(Cand(key, fn, user))

    ent = dict(env)
    est = st
    for ins in phis:
        r, t = ins["reg"], ins["t"]
        k = eng.p.kind(t)
        v0 = env[r]
        if k == "int":
            addc((r, ">=entry"), lambda e, s, en, r=r, v0=v0: e[r] >= v0)
            addc((r, "<=entry"), lambda e, s, en, r=r, v0=v0: e[r] <= v0)
        elif k == "slice":
            addc((r, "ref"), lambda e, s, en, r=r, v0=v0: eq(e[r].ref, v0.ref))
            addc((r, "off"), lambda e, s, en, r=r, v0=v0: eq(e[r].off, v0.off))
            addc((r, "end"), lambda e, s, en, r=r, v0=v0: e[r].off + e[r].len == v0.off + v0.len)
            addc((r, "capend"), lambda e, s, en, r=r, v0=v0: e[r].off + e[r].cap == v0.off + v0.cap)
            addc((r, "len<="), lambda e, s, en, r=r, v0=v0: e[r].len <= v0.len)
            addc((r, "len>="), lambda e, s, en, r=r, v0=v0: e[r].len >= v0.len)
            addc((r, "fresh"), lambda e, s, en, r=r, A0=st.A: Or(e[r].ref < A0, e[r].ref == 0, e[r].cap == 0))
            addc((r, "owned"), lambda e, s, en, r=r: Or(e[r].ref < 0, e[r].ref == 0, e[r].cap == 0))
            addc((r, "freshorentry"), lambda e, s, en, r=r, A0=st.A, v0=v0: Or(e[r].ref < A0, e[r].ref == v0.ref, e[r].cap == 0))
        elif k == "ptr":
            addc((r, "nonnil"), lambda e, s, en, r=r, t=t: eng.flatten(s, t, e[r])[0] != 0)
            addc((r, "owned"), lambda e, s, en, r=r, t=t: eng.flatten(s, t, e[r])[0] < 0)
            addc((r, "same"), lambda e, s, en, r=r, t=t, v0=v0: eng.flatten(s, t, e[r])[0] == eng.flatten(s, t, v0)[0])
        elif k == "iface":
            addc((r, "nonnil"), lambda e, s, en, r=r: e[r].tag != 0)
            addc((r, "nil"), lambda e, s, en, r=r: e[r].tag == 0)
        elif k == "bool":
            addc((r, "=entry"), lambda e, s, en, r=r, v0=v0: e[r] == v0)
    for lid, (t, cs) in list(st.locals.items()):
        if lid in st.fwd or lid not in W.loc:
            continue
        if eng.p.kind(t) == "int" and z3.is_expr(cs[0]):
            addc(("L", lid, ">="), lambda e, s, en, lid=lid, v0=cs[0]: s.locals[lid][1][0] >= v0)
            addc(("L", lid, "<="), lambda e, s, en, lid=lid, v0=cs[0]: s.locals[lid][1][0] <= v0)
        elif eng.p.kind(t) == "slice":
            addc(("L", lid, "owned"), lambda e, s, en, lid=lid: Or(s.locals[lid][1][0] < 0, s.locals[lid][1][0] == 0, s.locals[lid][1][3] == 0))
        elif eng.p.kind(t) == "iface":
            addc(("L", lid, "nil"), lambda e, s, en, lid=lid: s.locals[lid][1][0] == 0)
    # comparisons occurring in the loop
    for b in sorted(body):
        for n, ins in enumerate(f.blocks[b].ins):
            if ins["op"] == "BinOp" and ins["tok"] in ("<", "<=", ">", ">=", "!=", "==") and eng.p.kind(ins["x"].get("t", 0)) == "int":
                def ge(e, s, en, ins=ins, w=0):
                    x = heval(eng, fr, e, s, ins["x"], 0, body)
                    y = heval(eng, fr, e, s, ins["y"], 0, body)
                    if x is None or y is None or not z3.is_expr(x) or not z3.is_expr(y):
                        return None
                    return [x <= y, x < y, x >= y, x > y][w]
                for w in range(4):
                    addc((b, n, w), lambda e, s, en, ge=ge, w=w: ge(e, s, en, w=w))
    # lengths of slices compared with integer loop variables
    ints = [ins["reg"] for ins in phis if eng.p.kind(ins["t"]) == "int"]
    sls = [ins["reg"] for ins in phis if eng.p.kind(ins["t"]) == "slice"]
    for i, j in itertools.permutations(ints, 2):
        if i < j:
            addc((i, j, "diff"), lambda e, s, en, i=i, j=j, d=sub(env[i], env[j]): e[i] - e[j] == d)
        addc((i, j, "<="), lambda e, s, en, i=i, j=j: e[i] <= e[j])
    for i in ints:
        for sname in sls:
            addc((i, sname, "len"), lambda e, s, en, i=i, sname=sname, d=sub(env[i], env[sname].len): e[i] - e[sname].len == d)
            addc((i, sname, "lenle"), lambda e, s, en, i=i, sname=sname: e[sname].len <= e[i])
    # user templates
    c = eng.cur
    if c is not None:
        pool = []
        for ins in phis:
            # a range index phi starts at -1: bind the number of completed iterations instead
            pool.append((ins["reg"], ins["t"], "phi+1" if "rangeindex" in (ins.get("comment") or "") else "phi"))
        for lid, (t, cs) in st.locals.items():
            if lid not in st.fwd and (lid in W.loc):
                pool.append((lid, t, "loc"))
        anyp = list(pool)
        seen = {x[0] for x in anyp}
        rt = eng.regtypes(f)
        for r, v in env.items():
            if r not in seen and r in rt and v is not None and not r.startswith("$") and not isinstance(v, Iter):
                anyp.append((r, rt[r], "reg"))
        itreg = None
        for b in body:
            for ins in f.blocks[b].ins:
                if ins["op"] == "Next" and isinstance(env.get(ins["x"].get("n")), Iter):
                    itreg = env[ins["x"]["n"]].id
        for tlab, holes, expr in c.templates:
            if "visited(" in expr and itreg is None:
                continue
            opts = []
            for hn, ht in holes:
                src = pool
                if ht.startswith("any "):
                    ht, src = ht[4:], anyp
                elif ht.startswith("outer "):
                    # a variable of an enclosing loop
                    ophis = {i["reg"] for b in f.blocks for i in b.ins if i["op"] == "Phi"}
                    ht, src = ht[6:], [x for x in anyp if x[0] in ophis and x[0] not in {y[0] for y in pool}]
                opts.append([x for x in src if tmatch(eng, x[1], ht)])
            n = 1
            for o in opts:
                n *= len(o)
            if n > 400:
                continue
            for combo in itertools.product(*opts):
                if len({x[0] for x in combo}) < len(combo):
                    continue

                def fn(e, s, en, holes=holes, combo=combo, expr=expr):
                    ev = dict(eng.topenv)
                    for (hn, ht), (r, t, kd) in zip(holes, combo):
                        if kd == "loc":
                            if r in s.fwd:
                                v = eng.load(s, LV("local", t, r, None, 0, t))
                            else:
                                v = eng.unflatten(t, s.locals[r][1])
                        elif kd == "phi+1":
                            v = add(e[r], iv(1))
                        else:
                            v = e[r]
                        ev[hn] = SV(v, t)
                    if itreg is not None:
                        ev["$iter"] = SV(itreg, "int")
                    return (ev, expr)
                addc((tlab,) + tuple(x[0] for x in combo), fn, True)
    return out


def tmatch(eng, t, ht):
    if ht == "int":
        return eng.p.kind(t) == "int"
    if "|" in ht:
        return any(tmatch(eng, t, x.strip()) for x in ht.split("|"))
    if ht in ("slice", "ptr", "iface", "map"):
        return eng.p.kind(t) == ht
    s = eng.p.t(t)["str"]
    norm = lambda x: x.replace("[]byte", "[]uint8").replace("interface{}", "any")
    return norm(s) == norm(ht) or s.split(".")[-1] == ht


def ceval(eng, c, e, s, en, goal):
    """formula of a candidate in a state; None if it cannot be evaluated"""
    try:
        r = c.fn(e, s, en)
        if r is None:
            return None
        if isinstance(r, tuple):
            ctx = Ctx(eng, s, r[0], old=eng.topold, entry=en)
            return ctx.formula(r[1], goal=goal)
        return r
    except (SpecError, KeyError, z3.Z3Exception, AttributeError, Unsupported) as ex:
        if c.user and eng.opts.get("debug"):
            print("   template %s not evaluable: %s" % (c.key, ex))
        return None


def cut(eng, fr, h, env, st):
    f = fr.fn
    body = f.an["loops"][h]
    phis = [ins for ins in f.blocks[h].ins if ins["op"] == "Phi"]
    env = dict(env)
    for ins in phis:
        v = env[ins["reg"]]
        if isinstance(v, Iter):
            continue
        env[ins["reg"]] = eng.unflatten(ins["t"], eng.flatten(st, ins["t"], v))
    W = WSet()
    roots = [env[ins["reg"]].ref for ins in phis if isinstance(env[ins["reg"]], Slice)]
    roots += [env[ins["reg"]] for ins in phis if z3.is_expr(env[ins["reg"]]) and eng.p.kind(ins["t"]) in ("ptr", "map")]
    debug = eng.opts.get("debug")
    key = (f.name, h)
    # phase 1: write set with no invariants
    # (loops nested in this one leave the user's templates out until this one uses its own)
    nouser0 = eng.nouser
    ckey = (f.name, h, fr.depth)
    failed = set()
    eng.dry += 1
    try:
        eng.nouser = nouser0 + 1
        for rnd in range(12):
            s, e, mark, base = havoc(eng, fr, h, st, env, W, phis)
            ex, bk, rs = eng.region(fr, [(h, None, dict(e), s.fork())], body, h)
            sz = W.size()
            collect(eng, W, s, mark, bk, base, roots)
            if debug:
                print("   round", rnd, W.size(), len(bk))
            if W.size() == sz:
                break
        else:
            raise Unsupported("loop write set did not stabilise in " + f.name)
        hasuser = False
        for attempt in range(4):
            eng.nouser = nouser0 + (1 if attempt == 0 else 0)
            # phase 2: candidates that hold on entry
            st0 = st.fork()
            for lid in W.mat:
                if lid not in st0.fwd and lid in st0.locals:
                    eng.materialize(st0, lid)
            cands = []
            for c in candidates(eng, fr, h, env, st0, phis, body, W):
                if c.user and (nouser0 or c.key in eng.deadcands.get(ckey, ())):
                    continue
                if attempt == 0 and c.user:
                    hasuser = True
                    continue
                s1 = st0.fork()
                g = ceval(eng, c, env, s1, st0, True)
                if g is None:
                    continue
                if c.user:
                    r, _ = eng.entails(s1, g, int(eng.cur.opts.get("ctime", 0)) or eng.opts["timeout"])
                else:
                    r = "proved" if eng.qf_entails(s1, g) else "failed"
                if r == "proved":
                    cands.append(c)
                elif c.user:
                    failed.add(c.key)
                    if debug:
                        print("   %s b%d: template %s fails on entry (%s)" % (f.name, h, c.key, r))
            # phase 3: Houdini
            nrun = 0
            while True:
                nrun += 1
                eng.tick()
                s, e, mark, base = havoc(eng, fr, h, st, env, W, phis)
                for c in cands:
                    g = ceval(eng, c, e, s, base, False)
                    if g is not None:
                        s.assume(g)
                ex, bk, rs = eng.region(fr, [(h, None, dict(e), s.fork())], body, h)
                sz = W.size()
                collect(eng, W, s, mark, bk, base, roots)
                grew = W.size() != sz
                keep = []
                for c in cands:
                    ok = True
                    for (prev, e2, b) in bk:
                        b1 = b.fork()
                        g = ceval(eng, c, e2, b1, base, True)
                        if g is None:
                            ok = False
                            break
                        if c.user:
                            r, m = eng.entails(b1, g, int(eng.cur.opts.get("ctime", 0)) or eng.opts["timeout"])
                            if r != "proved":
                                failed.add(c.key)
                                if debug:
                                    print("   %s b%d: template %s not preserved (%s)" % (f.name, h, c.key, r))
                                    if debug == 2:
                                        print(eng.modelstr(b1, m))
                                ok = False
                                break
                        elif not eng.qf_entails(b1, g):
                            ok = False
                            break
                    if ok:
                        keep.append(c)
                changed = len(keep) != len(cands)
                cands = keep
                if not changed and not grew:
                    break
                if nrun > 40:
                    raise Unsupported("invariant inference did not converge in " + f.name)
            # the invariants may show that less is written than assumed: start again with the smaller write set
            W2 = WSet()
            W2.mat, W2.ghost, W2.acq = set(W.mat), set(W.ghost), set(W.acq)
            W2.inv = {k: dict(v) for k, v in W.inv.items()}
            collect(eng, W2, s, mark, bk, base, roots)
            less = W.whole - W2.whole
            if less:
                W = W2
            elif attempt > 0 or not hasuser:
                break
    finally:
        eng.dry -= 1
        eng.nouser = nouser0
    alive = {c.key for c in cands if c.user}
    if eng.dry and not nouser0:
        labs = {k[0] for k in alive}
        eng.deadcands.setdefault(ckey, set()).update(k for k in failed - alive if k[0] in labs)
    if debug:
        print("   loop %s b%d: %d invariants: %s; W=%s" % (f.name, h, len(cands), [c.key for c in cands if c.user or debug == 3], W.size()))
        if debug == 3:
            print("     whole:", W.whole, "fresh:", W.fresh, "inv:", {k: list(v.values()) for k, v in W.inv.items()}, "loc", W.loc)
    # final pass with obligations on
    s, e, mark, base = havoc(eng, fr, h, st, env, W, phis)
    for c in cands:
        g = ceval(eng, c, e, s, base, False)
        if g is not None:
            s.assume(g)
    if not eng.dry:
        for c in cands:
            if c.user:
                eng.obls.append({"name": "%s#loop-invariant:%s" % (eng.curname(), c.key[0]), "status": "proved", "time": 0,
                                 "info": "established on entry and preserved (%s)" % f.name})
        for (prev, e2, b) in bk:
            if set(b.locks) != set(s.locks):
                eng.oblige(b, "%s#locks-balanced" % eng.curname(), z3.BoolVal(False), "lock held across loop iterations")
    cm = eng.cur.measures if eng.cur else []
    ex, bk, rs = eng.region(fr, [(h, None, dict(e), s.fork())], body, h)
    if eng.cur is not None and eng.cur.opts.get("terminates") and not eng.dry:
        terminate(eng, fr, h, e, s, base, bk, phis, body)
    return ex, rs


def terminate(eng, fr, h, e, s, base, bk, phis, body):
    """some integer measure decreases and is bounded below on every back edge"""
    ms = []
    f = fr.fn
    for b in sorted(body):
        for ins in f.blocks[b].ins:
            if ins["op"] == "BinOp" and ins["tok"] in ("<", "<=", ">", ">=", "!=") and eng.p.kind(ins["x"].get("t", 0)) == "int":
                for sg in (1, -1):
                    def fn(e, s, ins=ins, sg=sg):
                        x = heval(eng, fr, e, s, ins["x"], 0, body)
                        y = heval(eng, fr, e, s, ins["y"], 0, body)
                        return None if x is None or y is None else (y - x if sg == 1 else x - y)
                    ms.append(fn)
    for ins in phis:
        if eng.p.kind(ins["t"]) == "slice":
            ms.append(lambda e, s, r=ins["reg"]: e[r].len)
    for m in eng.cur.measures:
        def fn(e, s, m=m):
            try:
                return Ctx(eng, s, eng.topenv, old=eng.topold, entry=base).ev(__import__("spec").parse(m)).v
            except SpecError:
                return None
        ms.append(fn)
    for ins in phis:                     # a flag that ends the loop: lexicographic with a boolean
        if eng.p.kind(ins["t"]) == "bool":
            for m in list(dict.fromkeys(ms[-4:] + ms[:8])) + [lambda e, s: z3.IntVal(0)]:
                for sg in (0, 1):
                    def fn(e, s, m=m, sg=sg, r=ins["reg"]):
                        v = m(e, s)
                        return None if v is None else 2 * v + z3.If(e[r], z3.IntVal(sg), z3.IntVal(1 - sg))
                    ms.append(fn)
    for fn in ms:
        s1 = s.fork()
        v0 = fn(e, s1)
        if v0 is None:
            continue
        good = bool(bk)
        for (prev, e2, b) in bk:
            b1 = b.fork()
            v1 = fn(e2, b1)
            if v1 is None:
                good = False
                break
            r, _ = eng.entails(b1, z3.And(v1 < v0, v0 >= 0), 3000)
            if r != "proved":
                good = False
                break
        if good or not bk:
            eng.obls.append({"name": "%s#terminates" % eng.curname(), "status": "proved", "time": 0, "info": "measure found"})
            return
    eng.obls.append({"name": "%s#terminates" % eng.curname(), "status": "failed", "time": 0,
                     "info": "no decreasing measure for the loop in %s" % fr.fn.name, "model": ""})
