"""Contract files, use of contracts at call sites, verification of functions against contracts."""
import os
import re
import time
import z3
from core import *
from engine import RET, PANIC, Res, Frame, Budget
from spec import Ctx, SV, SpecError

KW = ("property", "requires", "ensures", "modifies", "template", "option", "panics", "lock", "invariant", "emits",
      "atomic", "trusted", "measure", "inline", "def", "devirt", "assume", "pure", "guardglobal", "nopanic", "note", "ghostset",
      "axiom", "lemma", "replay", "raises", "onpanic", "event", "oncall", "onspawn", "ghoston", "rely")


class Contract:
    def __init__(self, fn, params, results):
        self.fn, self.params, self.results = fn, params, results
        self.props = []
        self.requires, self.ensures = [], []
        self.modifies = []
        self.templates = []
        self.opts = {}
        self.panics = None
        self.emits = False
        self.atomic = []
        self.trusted = None
        self.inline = False
        self.pure = False
        self.measures = []
        self.kind = "func"
        self.notes = []
        self.ghostset = []
        self.raises = False
        self.assumes = []
        self.onpanic = []
        self.events = []
        self.oncall = []
        self.onspawn = []
        self.ghoston = []
        self.rely = []

    def label(self, lst, i):
        return lst[i][0] or str(i + 1)


class Contracts:
    def __init__(self):
        self.funcs = {}
        self.functypes = {}
        self.types = []
        self.guard = {}
        self.guard_global = {}
        self.devirt = {}
        self.defs = {}
        self.on_go = None
        self.lemmas = []
        self.axioms = []
        self.files = []
        self.newghosts = set()

    def get(self, fn):
        return self.funcs.get(fn)

    # ------------------------------------------------------------------ parsing
    def load(self, path):
        self.files.append(path)
        cur = None
        clause = None

        def flush():
            nonlocal clause
            if clause is not None:
                self.clause(cur, clause[0], clause[1].strip(), path)
            clause = None
        for raw in open(path):
            line = raw.split("#", 1)[0].rstrip() if not raw.lstrip().startswith("//") else ""
            if not line.strip():
                continue
            s = line.strip()
            self.newghosts |= set(re.findall(r'"(new_\w+)"', s))
            if not raw[0].isspace():
                flush()
                w = re.match(r"\w+", s).group(0)
                if w in ("func", "iface", "functype"):
                    m = re.match(r"(func|iface|functype)\s+(\S.*?)\s*\(([^()]*)\)\s*(?:->\s*\(([^()]*)\))?$", s)
                    if not m:
                        raise SpecError("%s: bad header %s" % (path, s))
                    sp = lambda x: [y.strip() for y in x.split(",") if y.strip()] if x else []
                    c = Contract(m.group(2), sp(m.group(3)), sp(m.group(4)))
                    c.kind = m.group(1)
                    cur = c
                    if c.kind == "functype":
                        self.functypes[c.fn] = c
                    else:
                        self.funcs[c.fn] = c
                elif w == "type":
                    cur = {"type": s.split(None, 1)[1], "lock": None, "guards": [], "inv": [], "deep": []}
                    self.types.append(cur)          # one block per lock
                elif w in ("def", "devirt", "guardglobal", "axiom", "lemma"):
                    cur = None
                    clause = [w, s[len(w):].strip()]
                else:
                    raise SpecError("%s: bad line %s" % (path, s))
                continue
            w = re.match(r"[a-z]+", s)
            if w and w.group(0) in KW and (len(s) == len(w.group(0)) or s[len(w.group(0))] in " [:"):
                flush()
                clause = [w.group(0), s[len(w.group(0)):]]
            elif clause is not None:
                clause[1] += " " + s
            else:
                raise SpecError("%s: stray line %s" % (path, s))
        flush()

    def clause(self, c, kw, s, path):
        lab = None
        m = re.match(r"\[([^\]]+)\]\s*(.*)$", s, re.S)
        if m:
            lab, s = m.group(1), m.group(2)
        if kw == "def":
            m = re.match(r"(\w+)\s*(?:\(([^)]*)\))?\s*=\s*(.*)$", s, re.S)
            self.defs[m.group(1)] = ([x.strip() for x in (m.group(2) or "").split(",") if x.strip()], m.group(3))
            return
        if kw == "devirt":
            a, b = s.split("->")
            self.devirt[a.strip()] = [x.strip() for x in b.split(",")]
            return
        if kw == "guardglobal":
            a, b = s.split("by")
            self.guard_global[a.strip()] = b.strip()
            return
        if kw == "lemma":
            m = re.match(r"([\w ,]+?)\s*\(([^)]*)\)\s*:\s*(.*)$", s, re.S)
            hyp, goal = m.group(3).split("==>", 1) if "==>" in m.group(3) else ("True", m.group(3))
            self.lemmas.append((lab, (m.group(2), hyp.strip(), goal.strip()), m.group(1).replace(",", " ").split()))
            return
        if kw == "axiom":
            self.axioms.append((lab, s))
            return
        if isinstance(c, dict):
            if kw == "lock":
                m = re.match(r"(\S+)\s+guards\s+(.*)$", s)
                c["lock"] = m.group(1)
                c["guards"] = [x.strip() for x in m.group(2).split(",")]
            elif kw == "invariant":
                c["inv"].append((lab or str(len(c["inv"]) + 1), s))
            else:
                raise SpecError("%s: %s in type" % (path, kw))
            return
        if kw == "property":
            c.props += s.replace(",", " ").split()
        elif kw in ("requires", "ensures", "onpanic"):
            l = getattr(c, kw)
            l.append((lab or str(len(l) + 1), s))
        elif kw == "event":
            m = re.match(r"(\S+?)\s*\((.*)\)$", s, re.S)
            c.events.append((m.group(1), [x.strip() for x in split_top(m.group(2)) if x.strip()]))
        elif kw == "oncall":
            m = re.match(r"(\S.*?)\s*\(([^()]*)\)\s*:\s*(.*)$", s, re.S)
            c.oncall.append((lab or str(len(c.oncall) + 1), m.group(1), [x.strip() for x in m.group(2).split(",") if x.strip()], m.group(3)))
        elif kw == "modifies":
            c.modifies += [x.strip() for x in split_top(s) if x.strip()]
        elif kw == "template":
            m = re.match(r"\(([^)]*)\)\s*:?\s*(.*)$", s, re.S)
            holes = []
            for h in split_top(m.group(1)):
                if h.strip():
                    n, t = h.split(":")
                    holes.append((n.strip(), t.strip()))
            c.templates.append((lab or "T%d" % (len(c.templates) + 1), holes, m.group(2)))
        elif kw == "ghoston":
            m = re.match(r"(\S.*?)\s*\(([^()]*)\)\s*:\s*(.*)\.(\w+)\s*:=\s*(.*)$", s, re.S)
            c.ghoston.append((m.group(1), [x.strip() for x in m.group(2).split(",") if x.strip()], m.group(3), m.group(4), m.group(5)))
        elif kw == "rely":
            # rely[label] (item, ...): relation between the state before (old) and after the steps of other goroutines
            m = re.match(r"\((.*?)\)\s*:\s*(.*)$", s, re.S)
            c.rely.append((lab or "rely", [x.strip() for x in m.group(1).split(",")], m.group(2)))
        elif kw == "onspawn":
            m = re.match(r"\(([^)]*)\)\s*:\s*(.*)$", s, re.S)
            c.onspawn.append((lab or str(len(c.onspawn) + 1), [tuple(y.strip() for y in x.split(":")) for x in m.group(1).split(",") if x.strip()], m.group(2)))
        elif kw == "measure":
            c.measures.append(s)
        elif kw == "option":
            for x in s.split():
                k, _, v = x.partition("=")
                c.opts[k] = v or True
        elif kw == "panics":
            c.panics = s
        elif kw == "raises":
            c.raises = True
        elif kw == "emits":
            c.emits = True
        elif kw == "atomic":
            c.atomic += [x.strip() for x in s.split(",") if x.strip()]
        elif kw == "trusted":
            c.trusted = s or "assumed contract"
        elif kw == "inline":
            c.inline = True
        elif kw == "pure":
            c.pure = True
        elif kw == "note":
            c.notes.append(s)
        elif kw == "assume":
            c.assumes.append((lab or str(len(c.assumes) + 1), s))
        elif kw == "ghostset":
            m = re.match(r"(.*)\.(\w+)\s*:=\s*(.*)$", s)
            c.ghostset.append((m.group(1), m.group(2), m.group(3)))
        else:
            raise SpecError("%s: clause %s" % (path, kw))

    # ------------------------------------------------------------------ binding to a program
    def bind(self, eng):
        p = eng.p
        for d in self.types:
            tn = d["type"]
            if tn not in p.bystr:
                continue
            tid = p.tid(tn)
            d["tid"] = tid
            if not d["lock"]:
                continue
            f = p.findfield(tid, d["lock"])
            if f is None:
                continue
            fields, names = set(), {}
            for g in d["guards"]:
                q = p.findfield(tid, g)
                if q is None:
                    continue
                off, ft = q[0]
                for i in range(off, off + len(p.comps(ft))):
                    fields.add(i)
                    names[i] = "%s.%s" % (tn, g)
            self.guard.setdefault(tn, []).append({"lockoff": f[0][0], "fields": fields, "names": names, "tid": tid, "decl": d})
        eng.initdone = True


def split_top(s):
    out, d, cur = [], 0, ""
    for ch in s:
        if ch in "([{":
            d += 1
        elif ch in ")]}":
            d -= 1
        if ch == "," and d == 0:
            out.append(cur)
            cur = ""
        else:
            cur += ch
    out.append(cur)
    return out


# ---------------------------------------------------------------------- locks

def lockkey(eng, st, lv):
    lv = eng.resolve(st, lv)
    if lv.kind == "obj":
        return ("o", eng.rootname(lv.root), lv.ref, lv.off)
    if lv.kind == "elem":
        return ("e", eng.rootname(lv.root), z3.simplify(lv.ref * (1 << 50) + lv.idx), lv.off)
    if lv.kind == "local":
        return ("l", eng.rootname(lv.root), lv.ref, lv.off)
    return ("g", lv.ref, None, lv.off)


def findlock(eng, st, key):
    for k in st.locks:
        if k[0] == key[0] and k[1] == key[1] and k[3] == key[3]:
            if k[0] in ("g", "l"):
                if k[2] == key[2]:
                    return k
            elif k[2].eq(key[2]) or eng.qf_entails(st, k[2] == key[2]):
                return k
    return None


def acqid(key, eng=None):
    if eng is not None and z3.is_expr(key[2]):
        eng.acqterm[(key[0], key[1], key[2].get_id(), key[3])] = key[2]
    return (key[0], key[1], key[2].get_id() if z3.is_expr(key[2]) else key[2], key[3])


def do_lock(eng, fr, st, lv, mode):
    if not isinstance(lv, LV):
        # pointer to a bare mutex object
        t = eng.p.tid("sync.Mutex") if "sync.Mutex" in eng.p.bystr else None
        key = ("o", "sync", lv, 0)
    else:
        key = lockkey(eng, st, lv)
    k = findlock(eng, st, key)
    if k is not None and not (mode == "r" and st.locks[k] == "r"):
        eng.oblige(st, "%s#deadlock" % eng.curname(), z3.BoolVal(False), "lock %s acquired while already held" % (key[1],))
        return
    st.locks[key if k is None else k] = mode
    if key[0] == "g":
        return
    for g in eng.cs.guard.get(key[1], ()):
        if g["lockoff"] != key[3] or key[0] != "o":
            continue
        a = acqid(key, eng)
        if a in st.acq:
            havoc_guarded(eng, st, g, key[2])
        st.acq = st.acq | {a}
        assume_inv(eng, st, g, key[2])
        oncall(eng, st, "lock", [key[2]], [eng.p.ptr_to(g["tid"])])


def havoc_guarded(eng, st, g, ref):
    tid = g["tid"]
    rn = eng.rootname(tid)
    cs = eng.p.comps(tid)
    # contents reachable through guarded maps / slices first
    for f in g["decl"]["guards"]:
        q = eng.p.findfield(tid, f)
        if q is None:
            continue
        off, ft = q[0]
        n = len(eng.p.comps(ft))
        new = []
        for i in range(off, off + n):
            key = (rn, i)
            v = fresh(sort(cs[i]), "hv")
            st.heap[key] = store(eng.hget(st, key, cs[i]), ref, v)
            st.log("H", key, ref)
            new.append(v)
        eng.typefacts(st, ft, new)
        havoc_deep(eng, st, ft, new)


def havoc_deep(eng, st, ft, comps):
    k = eng.p.kind(ft)
    if k == "map":
        dom, vals, ln = eng.mapkeys(ft)
        for key, c in [(dom, "B")] + vals + [(ln, "I")]:
            h = eng.hget(st, key, c)
            st.heap[key] = store(h, comps[0], fresh(h.sort().range(), "hvm"))
            st.log("H", key, comps[0])
    elif k == "slice":
        for key, c in eng.elemkeys(eng.p.elem(ft)):
            h = eng.hget(st, key, c)
            st.heap[key] = store(h, comps[0], fresh(h.sort().range(), "hvs"))
            st.log("H", key, comps[0])


def assume_inv(eng, st, g, ref):
    pt = eng.p.ptr_to(g["tid"])
    ctx = Ctx(eng, st, {"self": SV(ref, pt)})
    for lab, s in g["decl"]["inv"]:
        st.assume(ctx.formula(s))


def check_inv(eng, st, g, ref, where):
    pt = eng.p.ptr_to(g["tid"])
    for lab, s in g["decl"]["inv"]:
        ctx = Ctx(eng, st, {"self": SV(ref, pt)})
        eng.oblige(st, "%s#invariant:%s.%s" % (eng.curname(), g["decl"]["type"].split(".")[-1], lab),
                   ctx.formula(s, goal=True), where)


def do_unlock(eng, fr, st, lv, mode):
    key = lockkey(eng, st, lv) if isinstance(lv, LV) else ("o", "sync", lv, 0)
    k = findlock(eng, st, key)
    if k is None:
        eng.oblige(st, "%s#unlock" % eng.curname(), z3.BoolVal(False), "unlock of a lock that is not held")
        return
    if st.locks[k] != mode:
        eng.oblige(st, "%s#unlock" % eng.curname(), z3.BoolVal(False), "unlock mode mismatch")
    for g in eng.cs.guard.get(key[1], ()) if key[0] == "o" else ():
        if g["lockoff"] == key[3]:
            oncall(eng, st, "unlock", [key[2]], [eng.p.ptr_to(g["tid"])])
    m = st.locks.pop(k)
    if key[0] != "o":
        return
    for g in eng.cs.guard.get(key[1], ()):
        if g["lockoff"] == key[3] and m == "w":
            check_inv(eng, st, g, key[2], "lock released")


# ---------------------------------------------------------------------- environment helpers

def bindenv(eng, c, args, types):
    env = {}
    for n, a, t in zip(c.params, args, types):
        env[n] = SV(a, t)
    return env


def contract_types(eng, c):
    """parameter and result type ids of the function or interface method under contract"""
    if c.kind == "func":
        f = eng.p.funcs[c.fn]
        sig = eng.p.t(f.sig)
        if not f.params and (sig["params"] or c.fn.startswith("(")):
            recv = []
            if c.fn.startswith("("):
                recv = [eng.p.tid(c.fn[1:c.fn.index(")")])]
            return recv + list(sig["params"]), sig["results"]
        return [x["t"] for x in f.params], sig["results"]
    if c.kind == "iface":
        tn, m = c.fn.rsplit(".", 1)
        tid = eng.p.tid(tn)
        sg = eng.p.u(tid).get("msigs", {}).get(m)
        if sg is not None:
            return [tid] + eng.p.u(sg)["params"], eng.p.u(sg)["results"]
        # signature from any implementer recorded in method tables
        for t, ms in eng.p.methods.items():
            if m in ms and eng.implements(t, tid):
                f = eng.p.funcs.get(ms[m])
                if f is not None and f.params:
                    ps = [x["t"] for x in f.params]
                    return [tid] + ps[1:], eng.p.t(f.sig)["results"]
        raise SpecError("no implementer for " + c.fn)
    tid = eng.p.tid(c.fn)
    sig = eng.p.u(tid)
    return [tid] + sig["params"], sig["results"]


def lvs_of_modifies(eng, ctx, item):
    """list of ('H', key, comp, ref) | ('G', key) | ('all',) for one modifies item"""
    import ast
    st = ctx.cur()
    p = eng.p
    if item == "everything":
        return [("all",)]
    if item == "trace":
        return [("T",)]
    m = re.match(r"global\s+(\S+)$", item)
    if m:
        g = p.globals[m.group(1)]
        return [("G", ("#g", m.group(1), i), c) for i, c in enumerate(p.comps(g["t"]))]
    m = re.match(r"ghost\s+(.*?)\s*\.\s*(\w+)$", item)
    if m:
        x = ctx.ev(__import__("spec").parse(m.group(1)))
        return [("H", ("#gh", m.group(2)), "I", ctx.asint(x))]
    m = re.match(r"anyghost\s+(\w+)$", item)
    if m:
        return [("HK", ("#gh", m.group(1)), "I")]
    m = re.match(r"elems\((.*)\)$", item)
    if m:
        x = ctx.ev(__import__("spec").parse(m.group(1)))
        et = p.elem(x.t)
        return [("H", key, c, x.v.ref) for key, c in eng.elemkeys(et)]
    m = re.match(r"map\((.*)\)$", item)
    if m:
        x = ctx.ev(__import__("spec").parse(m.group(1)))
        dom, vals, ln = eng.mapkeys(x.t)
        return [("H", k, c, x.v) for k, c in [(dom, "B")] + vals + [(ln, "I")]]
    m = re.match(r"any\s+(\S+)\.(\S+)$", item)   # any T.f : field f of every T
    if m:
        tid = p.tid(m.group(1))
        off, ft = (0, tid) if m.group(2) == "*" else p.findfield(tid, m.group(2))[0]
        return [("HK", (eng.rootname(tid), i), p.comps(tid)[i]) for i in range(off, off + len(p.comps(ft)))]
    m = re.match(r"anyelems\s+(\S+)$", item)
    if m:
        return [("HK", k, c) for k, c in eng.elemkeys(p.tid(m.group(1)))]
    m = re.match(r"anymap\s+(\S+)$", item)
    if m:
        dom, vals, ln = eng.mapkeys(p.tid(m.group(1)))
        return [("HK", k, c) for k, c in [(dom, "B")] + vals + [(ln, "I")]]
    base, _, fld = item.rpartition(".")
    x = ctx.ev(__import__("spec").parse(base))
    if isinstance(x.v, Iface):
        if x.v.dyn is not None:
            x = SV(x.v.dyn[1], x.v.dyn[0])
        else:
            impls = eng.cs.devirt.get(p.t(x.t)["str"])
            x = SV(x.v.pay, p.tid(impls[0]))
    t = p.elem(x.t)
    lv = eng.lv_of_ptr(st, x.v, t)
    if fld == "*":
        off, ft = 0, t
    else:
        path = p.findfield(t, fld)
        if path is None:
            raise SpecError("modifies: no field %s in %s" % (fld, p.t(t)["str"]))
        for (o, ft_) in path[:-1]:
            v = ctx.rd(st, lv.sub(o, ft_))
            t = p.elem(ft_)
            lv = eng.lv_of_ptr(st, v, t)
        off, ft = path[-1]
    lv = lv.sub(off, ft)
    out = []
    if lv.kind == "local":
        return [("L", lv.ref, i, p.comps(st.locals[lv.ref][0])[i]) for i in range(lv.off, lv.off + len(p.comps(ft)))]
    if lv.kind == "elem":
        return [("H", ("#elem", p.t(lv.root)["str"], i), p.comps(lv.root)[i], lv.ref) for i in range(lv.off, lv.off + len(p.comps(ft)))]
    for i in range(lv.off, lv.off + len(p.comps(ft))):
        out.append(("H", (eng.rootname(lv.root), i), p.comps(lv.root)[i], lv.ref))
    return out


def havoc_items(eng, st, items):
    for it in items:
        if it[0] == "H":
            _, key, c, ref = it
            h = eng.hget(st, key, c)
            st.heap[key] = store(h, ref, fresh(h.sort().range(), "mod"))
            st.log("H", key, ref)
        elif it[0] == "HK":
            _, key, c = it
            h = eng.hget(st, key, c)
            st.heap[key] = fresh(h.sort(), "modk")
            st.log("HK", key)
        elif it[0] == "G":
            _, key, c = it
            st.heap[key] = fresh(eng.hget(st, key, c).sort(), "modg")
            st.log("G", key)
        elif it[0] == "L":
            _, lid, i, c = it
            st.locals[lid][1][i] = fresh(sort(c), "modl")
            st.log("L", lid)
        elif it[0] == "T":
            pass
        elif it[0] == "all":
            havoc_all(eng, st)


def havoc_all(eng, st):
    for key in list(st.heap):
        st.heap[key] = fresh(st.heap[key].sort(), "hvall")
        st.log("HK" if key[0] != "#g" else "G", key)


def havoc_trace(eng, st):
    if st.trn is None:
        eng.init_trace(st)
    n0, a0 = st.trn, st.tra
    st.trn, st.tra = fresh(I, "trn"), fresh(EvArr, "tra")
    st.assume(st.trn >= n0)
    j = z3.Int("j!tr%d" % fresh_n())
    st.assume(z3.ForAll([j], z3.Implies(j < n0, z3.Select(st.tra, j) == z3.Select(a0, j)), patterns=[z3.Select(st.tra, j)]))
    st.log("T")


# ---------------------------------------------------------------------- call sites

def rely(eng, st, lv):
    """interference by other goroutines just before an atomic operation: any number of their steps, as described by the relation
    the function under verification declares (each function with a rely clause is itself shown to only make such steps)"""
    for lab, items, s in getattr(eng.cur, "rely", ()):
        old = st.fork()
        its = []
        for m in items:
            its += lvs_of_modifies(eng, Ctx(eng, st, eng.topenv, old=old), m)
        havoc_items(eng, st, its)
        st.assume(Ctx(eng, st, eng.topenv, old=old).formula(s))
        eng.note("%s: other goroutines act on shared words between atomic operations as its rely clause says" % eng.curname())


def ghostcode(eng, st, fn, args, pt):
    for callee, prm, o, name, v in getattr(eng.cur, "ghoston", ()):
        if callee == fn:
            env = dict(eng.topenv)
            for n, a, t in zip(prm, args, pt):
                env[n] = SV(a, t)
            cx = Ctx(eng, st, env, old=eng.topold)
            P = __import__("spec").parse
            ref, val = cx.asint(cx.ev(P(o))), cx.asint(cx.ev(P(v)))
            key = ("#gh", name)
            st.heap[key] = store(eng.hget(st, key, "I"), ref, val)
            st.log("H", key, ref)


def onspawn(eng, st, cv):
    """what the goroutine started here is assumed to deliver (its own body is under its own contract); stated in the evidence"""
    import itertools
    from loops import tmatch
    cur = eng.cur
    if not getattr(cur, "onspawn", ()):
        return
    pool = list(zip(cv["args"], cv["argt"]))
    f = cv.get("fn")
    if isinstance(f, Closure):
        fv = eng.p.funcs[f.fn].free if hasattr(eng.p.funcs[f.fn], "free") else []
        for b, d in zip(f.bind, fv):
            pool.append((b, d["t"]))
            if eng.p.kind(d["t"]) == "ptr" and isinstance(b, LV):
                try:
                    pool.append((eng.load(st, b), eng.p.elem(d["t"])))
                except Exception:
                    pass
    for lab, holes, s in cur.onspawn:
        for combo in itertools.product(*[[x for x in pool if tmatch(eng, x[1], t)] for _, t in holes]):
            env = dict(eng.topenv)
            for (n, _), (v, t) in zip(holes, combo):
                env[n] = SV(v, t)
            st.assume(Ctx(eng, st, env, old=eng.topold).formula(s))
            eng.note("%s assumes of the goroutine it starts: %s" % (cur.fn, lab))


def oncall(eng, st, fn, args, pt):
    """obligations the function being verified attaches to its calls of fn"""
    for lab, callee, prm, s in getattr(eng.cur, "oncall", ()):
        if callee == fn:
            env = dict(eng.topenv)
            for n, a, t in zip(prm, args, pt):
                env[n] = SV(a, t)
            eng.oblige(st, "%s#oncall:%s" % (eng.curname(), lab), Ctx(eng, st, env, old=eng.topold).formula(s, goal=True), "at a call of " + fn)
    # ghost code of the function being verified, run before the call
    ghostcode(eng, st, fn, args, pt)


def apply(eng, fr, st, c, args):
    """use contract c at a call: list of Res"""
    eng.used_contracts[c.fn] = eng.used_contracts.get(c.fn, 0) + 1
    if c.trusted:
        eng.note("%s: %s" % (c.fn, c.trusted))
    pt, rt = contract_types(eng, c)
    # python-level pointers that the contract may talk about become references
    args = [eng.ref(st, a) if isinstance(a, LV) and a.kind == "local" else a for a in args]
    args = [eng.boxed(st, a) if isinstance(a, Iface) and a.pay is None else a for a in args]
    env = bindenv(eng, c, args, pt)
    ctx = Ctx(eng, st, env, old=st)
    for lab, s in c.requires:
        eng.oblige(st, "%s#pre:%s:%s" % (eng.curname(), c.fn, lab), ctx.formula(s, goal=True), "precondition at call site")
        st.assume(Ctx(eng, st, env, old=st).formula(s))
    oncall(eng, st, c.fn, args, pt)
    for a in c.atomic:
        x = ctx.ev(__import__("spec").parse(a))
        ref = eng.ref(st, x.v)
        rn = eng.rootname(eng.p.elem(x.t))
        for g in eng.cs.guard.get(rn, ()):
            key = ("o", rn, ref, g["lockoff"])
            if findlock(eng, st, key) is not None:
                eng.oblige(st, "%s#deadlock" % eng.curname(), z3.BoolVal(False), "%s called with its lock held" % c.fn)
            if acqid(key) in st.acq:
                havoc_guarded(eng, st, g, ref)
            st.acq = st.acq | {acqid(key, eng)}
            assume_inv(eng, st, g, ref)
    out = []
    if c.panics is not None:
        g = Ctx(eng, st, env, old=st).formula(c.panics)
        if eng.feasible(st, g):
            s2 = st.fork()
            s2.assume(g)
            if eng.feasible(s2):
                out.append(Res(PANIC, s2, None, "%s panics" % c.fn))
            st.assume(Not(g))
            if not eng.feasible(st):
                return out
    old = st.fork()
    items = []
    for m in c.modifies:
        items += lvs_of_modifies(eng, Ctx(eng, st, env, old=st), m)
    havoc_items(eng, st, items)
    if c.emits:
        havoc_trace(eng, st)
    if c.raises or c.onpanic:
        s2 = st.fork()
        for lab, s in c.onpanic:
            s2.assume(Ctx(eng, s2, env, old=old).formula(s))
        out.append(Res(PANIC, s2, None, "%s may panic" % c.fn))
    if not c.pure:
        A = fresh(I, "A")
        st.assume(A <= st.A)
        st.A = A
        st.log("A")
    res = [eng.freshval(st, t, "r") for t in rt]
    env2 = dict(env)
    for n, v, t in zip(c.results, res, rt):
        env2[n] = SV(v, t)
    ctx = Ctx(eng, st, env2, old=old)
    # a formula over the trace speaks of what the callee itself did: its own trace starts empty
    own = None
    if not c.trusted and ("trace" in c.modifies or any(tracespec(eng, s) for _, s in c.ensures)):
        if st.trn is None:
            eng.init_trace(st)
        own = (fresh(I, "trc"), fresh(EvArr, "tra"))
        st.assume(own[0] >= 0)
    for lab, s in c.ensures:
        if own is not None and tracespec(eng, s):
            s1, o1 = st.fork(), old.fork()
            s1.trn, s1.tra = own
            o1.trn, o1.tra = iv(0), own[1]
            st.assume(Ctx(eng, s1, env2, old=o1).formula(s))
        else:
            st.assume(ctx.formula(s))
    if own is not None and not c.events:             # an event stands for all the callee did
        n0, a0 = st.trn, st.tra
        if z3.is_int_value(z3.simplify(n0)) and z3.simplify(n0).as_long() == 0:
            st.trn, st.tra = own
        else:
            st.trn, st.tra = n0 + own[0], fresh(EvArr, "tra")
            j = z3.Int("j!tr%d" % fresh_n())
            st.assume(z3.ForAll([j], z3.Select(st.tra, j) == z3.If(j < n0, z3.Select(a0, j), z3.Select(own[1], j - n0)),
                                patterns=[z3.Select(st.tra, j)]))
        st.log("T")
    if not eng.feasible(st):
        if "noreturn" not in c.opts and eng.feasible(old):
            eng.oblige(old, "%s#consistent:%s" % (eng.curname(), c.fn), z3.BoolVal(False), "the contract of the callee contradicts the state at the call")
        return out
    for kind, xs in c.events:
        eng.emit(st, kind, *[ctx.asint(ctx.ev(__import__("spec").parse(x))) for x in xs])
    out.insert(0, Res(RET, st, res))
    return out


def tracespec(eng, s):
    """does the formula speak of the trace (directly or through a definition)?"""
    memo = eng.cs.__dict__.setdefault("_tracememo", {})
    def go(t, seen):
        if re.search(r"\b(ntrace|ev|evarg)\(", t):
            return True
        return any(n in eng.cs.defs and n not in seen and go(eng.cs.defs[n][1], seen | {n}) for n in set(re.findall(r"[A-Za-z_]\w*", t)))
    if s not in memo:
        memo[s] = go(s, frozenset())
    return memo[s]


# ---------------------------------------------------------------------- verification of one function

def verify(eng, c, dump=False):
    """generate and discharge all obligations of the function under contract c"""
    f = eng.p.funcs.get(c.fn)
    rep = {"function": c.fn, "file": f.file if f else None, "status": "ok", "paths": 0}
    t0 = time.time()
    if f is None or f.blocks is None:
        eng.obls.append({"name": c.fn + "#exists", "status": "failed", "time": 0,
                         "info": "function under contract is missing from the source", "model": ""})
        rep["status"] = "missing"
        return rep
    if "deterministic" in c.opts:
        why = nondeterminism(eng.p, c.fn)
        eng.obls.append({"name": c.fn + "#deterministic", "status": "failed" if why else "proved", "time": 0,
                         "info": "the result depends on the argument values only" + (": " + why if why else ""), "model": ""})
    eng.cur = c
    eng.deadline = time.time() + float(c.opts.get("time", eng.opts["time"]))
    if "timeout" in c.opts:
        eng.opts["timeout"] = int(c.opts["timeout"])
    st = State()
    eng.init_trace(st)
    pts = [x["t"] for x in f.params]
    rts = eng.p.t(f.sig)["results"]
    try:
        if len(pts) != len(c.params) or len(rts) != len(c.results):
            raise SpecError("signature of %s differs from its contract" % c.fn)
        args = []
        for prm, n in zip(f.params, c.params):
            v = eng.freshval(st, prm["t"], "arg_" + n)
            k = eng.p.kind(prm["t"])
            args.append(v)
            # arguments are pre-existing objects
            for e, isref in zip(eng.flatten(st, prm["t"], v), [eng.isrefcomp(prm["t"], i) for i in range(len(eng.p.comps(prm["t"])))]):
                if isref:
                    st.assume(e >= 0)
                    st.assume(e < (1 << 40))
        env = bindenv(eng, c, args, pts)
        ctx = Ctx(eng, st, env, old=st)
        for lab, s in c.requires:
            st.assume(ctx.formula(s))
        for lab, s in c.assumes:
            st.assume(ctx.formula(s))
            eng.note("%s assumes: %s" % (c.fn, s))
        if not eng.feasible(st):
            eng.obls.append({"name": c.fn + "#vacuity", "status": "failed", "time": 0,
                             "info": "precondition is unsatisfiable", "model": ""})
            return rep
        eng.obls.append({"name": c.fn + "#vacuity:pre", "status": "proved", "time": 0, "info": "precondition satisfiable (cover)", "cover": True})
        st.old = st
        old = st.fork()
        st.wlog = None
        eng.topenv = env
        eng.topold = old
        res = eng.run(c.fn, args, st, depth=0)
        if "rungo" in c.opts or "runsent" in c.opts:
            res = eng.run_spawned(res)
        nret = 0
        for r in res:
            if not eng.feasible(r.st):
                continue
            rep["paths"] += 1
            if r.kind == PANIC:
                if c.panics is not None:
                    g = Ctx(eng, r.st, env, old=old).within(old, lambda: None)
                    cx = Ctx(eng, r.st, env, old=old)
                    g = cx.within(old, lambda: cx.formula(c.panics, goal=True))
                    eng.oblige(r.st, "%s#panics-only-when" % c.fn, g, r.why)
                if c.onpanic:
                    for lab, s in c.onpanic:
                        s1 = r.st.fork()
                        eng.oblige(s1, "%s#onpanic:%s" % (c.fn, lab), Ctx(eng, s1, env, old=old).formula(s, goal=True), r.why)
                    check_frame(eng, r.st, c, env, old)
                elif c.panics is None:
                    eng.oblige(r.st, "%s#nopanic" % c.fn, z3.BoolVal(False), "panic reachable: %s" % r.why)
                check_locks(eng, r.st, c)
                continue
            nret += 1
            env2 = dict(env)
            for n, v, t in zip(c.results, r.val, rts):
                env2[n] = SV(v, t)
            if c.panics is not None:
                cx = Ctx(eng, r.st, env, old=old)
                g = cx.within(old, lambda: cx.formula(c.panics))
                eng.oblige(r.st, "%s#must-panic" % c.fn, Not(g), "returned although the panic condition holds")
            for o, name, v in c.ghostset:                # ghost code at the return
                cx = Ctx(eng, r.st, env2, old=old)
                P = __import__("spec").parse
                ref, val = cx.asint(cx.ev(P(o))), cx.asint(cx.ev(P(v)))
                r.st.heap[("#gh", name)] = store(eng.hget(r.st, ("#gh", name), "I"), ref, val)
                r.st.log("H", ("#gh", name), ref)
            for lab, s in c.ensures:
                s1 = r.st.fork()
                cx = Ctx(eng, s1, env2, old=old)
                g = cx.formula(s, goal=True)
                eng.oblige(s1, "%s#ensures:%s" % (c.fn, lab), g, s)
            check_frame(eng, r.st, c, env, old)
            check_locks(eng, r.st, c)
        if nret == 0 and not c.opts.get("noreturn"):
            eng.obls.append({"name": c.fn + "#vacuity:exit", "status": "failed", "time": 0, "info": "no feasible normal exit", "model": ""})
        else:
            eng.obls.append({"name": c.fn + "#vacuity:exit", "status": "proved", "time": 0, "info": "normal exit reachable (cover)", "cover": True})
    except (Unsupported, SpecError, Budget) as e:
        rep["status"] = "undecided"
        eng.obls.append({"name": c.fn + "#decidable", "status": "unknown", "time": 0,
                         "info": "%s: %s" % (type(e).__name__, e), "model": ""})
    except Exception as e:  # engine error: never silently accepted
        import traceback
        rep["status"] = "undecided"
        eng.obls.append({"name": c.fn + "#decidable", "status": "unknown", "time": 0,
                         "info": "engine error: " + traceback.format_exc()[-3500:], "model": ""})
    rep["wall"] = round(time.time() - t0, 2)
    return rep


PUREPKG = ("strings.", "unicode/utf8.", "math/bits.", "strconv.", "hash/crc32.", "hash/fnv.", "bytes.")


def nondeterminism(p, fn, seen=()):
    """None if the result of fn can only depend on its argument values, else what else it may depend on"""
    if fn in seen:
        return None
    f = p.funcs.get(fn)
    if f is None or f.blocks is None:
        return None if fn.startswith(PUREPKG) else "call of " + fn
    own = set()
    for b in f.blocks:
        for i in b.ins:
            if i["op"] == "Alloc" or i["op"] in ("FieldAddr", "IndexAddr") and i["x"].get("n") in own or i["op"] in ("MakeSlice", "MakeMap"):
                own.add(i["reg"])
    for b in f.blocks:
        for i in b.ins:
            for k in ("x", "y"):
                if isinstance(i.get(k), dict) and i[k].get("k") == "global":
                    return "global " + i[k]["n"]
            if i["op"] in ("Go", "Select", "Range", "Send", "MakeChan", "MakeClosure", "Defer") and not (i["op"] == "Range" and p.kind(i["x"]["t"]) == "string"):
                return i["op"]
            if i["op"] == "UnOp" and i["tok"] in ("*", "<-") and i["x"].get("n") not in own:
                return "memory read on line %s" % i.get("line")
            if i["op"] == "Call":
                c = i["call"]
                if c["mode"] == "invoke":
                    return "call through an interface"
                k, n = c["fn"].get("k"), c["fn"].get("n")
                if k == "builtin":
                    continue
                if k not in ("func", "fn", "function"):
                    return "indirect call"
                r = nondeterminism(p, n, seen + (fn,))
                if r:
                    return r
    return None


def verify_lemma(eng, lab):
    """a lemma over the contracts' vocabulary: integers universally quantified, hypotheses ==> goal"""
    (prm, hyp, goal), = [d for l, d, _ in eng.cs.lemmas if l == lab]
    rep = {"function": "lemma:" + lab, "file": None, "status": "ok", "paths": 1}
    t0 = time.time()
    try:
        st = State()
        eng.init_trace(st)
        t = eng.p.bystr["int"]
        env = {n.strip(): SV(fresh(I, n.strip()), t) for n in prm.split(",") if n.strip()}
        ctx = Ctx(eng, st, env, old=st)
        eng.deadline = time.time() + eng.opts["time"]
        st.assume(ctx.formula(hyp))
        if not eng.feasible(st):
            eng.obls.append({"name": "lemma:%s#vacuity" % lab, "status": "failed", "time": 0, "info": "hypotheses unsatisfiable", "model": ""})
            return rep
        eng.obls.append({"name": "lemma:%s#vacuity" % lab, "status": "proved", "time": 0, "info": "hypotheses satisfiable (cover)", "cover": True})
        eng.oblige(st, "lemma:" + lab, ctx.formula(goal, goal=True), goal)
    except Exception as e:
        import traceback
        rep["status"] = "undecided"
        eng.obls.append({"name": "lemma:%s#decidable" % lab, "status": "unknown", "time": 0,
                         "info": "engine error: " + traceback.format_exc()[-3500:], "model": ""})
    rep["wall"] = round(time.time() - t0, 2)
    return rep


def check_locks(eng, st, c):
    for k in st.locks:
        eng.oblige(st, "%s#locks-released" % c.fn, z3.BoolVal(False), "lock of %s still held at exit" % (k[1],))


def check_frame(eng, st, c, env, old):
    if c.opts.get("noframe"):
        return
    entries = eng.logset(st.wlog)
    written, whole, glob, trace = {}, set(), set(), False
    for e in entries:
        if e[0] == "H":
            written.setdefault(e[1], {})[e[2].get_id()] = e[2]
        elif e[0] == "HK":
            whole.add(e[1])
        elif e[0] == "G":
            glob.add(e[1])
        elif e[0] == "T":
            trace = True
    s1 = st.fork()
    cx = Ctx(eng, s1, env, old=old)
    allowed, allk, alln = {}, set(), False
    for m in c.modifies:
        for it in cx.within(old, lambda: lvs_of_modifies(eng, cx, m)):
            if it[0] == "H":
                allowed.setdefault(it[1], []).append(it[3])
            elif it[0] in ("HK", "G"):
                allk.add(it[1])
            elif it[0] == "all":
                alln = True
    if alln:
        return
    for key in set(written) | whole:
        if key in allk or key in (("#recvd",), ("#gh", "curkey")):
            continue
        fin = s1.heap[key]
        ini = old.heap.get(key)
        if ini is None:
            ini = eng.initheap.get(key)
        if ini is None:
            continue
        al = allowed.get(key, [])
        if key in whole:
            r = fresh(I, "fr")
            g = Implies(And(r >= 0, *[r != a for a in al]), sel(fin, r) == sel(ini, r))
            eng.oblige(s1, "%s#frame:%s" % (c.fn, keyname(eng, key)), g, "writes outside modifies")
            continue
        for ref in written[key].values():
            if isn(ref) and ref.as_long() < 0:
                continue
            if any(ref.eq(a) for a in al):
                continue
            g = Or(ref < 0, *([ref == a for a in al] + [sel(fin, ref) == sel(ini, ref)]))
            eng.oblige(s1, "%s#frame:%s" % (c.fn, keyname(eng, key)), g, "writes outside modifies")
    for key in glob:
        if key in allk:
            continue
        ini = old.heap.get(key)
        if ini is None:
            ini = eng.initheap.get(key)
        eng.oblige(s1, "%s#frame:%s" % (c.fn, key[1]), s1.heap[key] == ini if ini is not None else z3.BoolVal(False), "writes outside modifies")


def keyname(eng, key):
    if key[0].startswith("#"):
        return "%s:%s" % (key[0][1:], key[1] if len(key) > 1 else "")
    try:
        tid = eng.p.tid(key[0])
        off = 0
        for f in eng.p.u(tid)["fields"]:
            n = len(eng.p.comps(f["type"]))
            if off <= key[1] < off + n:
                return "%s.%s" % (key[0], f["name"])
            off += n
    except Exception:
        pass
    return str(key[0])
