"""Typed SSA of the current /repo tree, as written by gvcextract."""
import json


class Block:
    __slots__ = ("i", "ins", "succs", "preds", "c")

    def __init__(self, b):
        self.i, self.ins, self.succs, self.preds, self.c = b["i"], b["in"], b["succs"], b["preds"], b.get("c", "")


class Func:
    def __init__(self, j):
        self.name = j["name"]
        self.j = j
        self.sig = j["sig"]
        self.params = j["params"]
        self.free = j["free"]
        self.resnames = j["resnames"]
        self.file, self.line = j.get("file"), j.get("line")
        self.blocks = [Block(b) for b in j["blocks"]] if "blocks" in j else None
        self.recover = j.get("recover")
        self._an = None

    @property
    def an(self):
        if self._an is None:
            self._an = self._analyse()
        return self._an

    def _analyse(self):
        """reverse postorder numbers, loop headers -> body block sets"""
        n = len(self.blocks)
        seen, order = set(), []

        def dfs(b):
            stack = [(b, iter(self.blocks[b].succs))]
            seen.add(b)
            while stack:
                x, it = stack[-1]
                for s in it:
                    if s not in seen:
                        seen.add(s)
                        stack.append((s, iter(self.blocks[s].succs)))
                        break
                else:
                    order.append(x)
                    stack.pop()
        dfs(0)
        if self.recover is not None and self.recover not in seen:
            dfs(self.recover)
        rpo = {b: i for i, b in enumerate(reversed(order))}
        # dominators (simple iterative)
        dom = {b: set(rpo) for b in rpo}
        roots = {0}
        if self.recover is not None:
            roots.add(self.recover)
        for r in roots:
            dom[r] = {r}
        ch = True
        while ch:
            ch = False
            for b in sorted(rpo, key=lambda x: rpo[x]):
                if b in roots:
                    continue
                ps = [p for p in self.blocks[b].preds if p in rpo]
                nd = set.intersection(*[dom[p] for p in ps]) | {b} if ps else {b}
                if nd != dom[b]:
                    dom[b] = nd
                    ch = True
        loops = {}
        for b in rpo:
            for s in self.blocks[b].succs:
                if s in dom[b]:  # back edge b->s
                    body = loops.setdefault(s, {s})
                    st = [b]
                    while st:
                        x = st.pop()
                        if x not in body:
                            body.add(x)
                            st.extend(p for p in self.blocks[x].preds if p in rpo)
        # order key so that loop bodies are finished before exits: use loop-aware rpo
        return {"rpo": rpo, "dom": dom, "loops": loops}


class Prog:
    def __init__(self, path):
        d = json.load(open(path))
        self.types = d["types"]
        self.funcs = {k: Func(v) for k, v in d["funcs"].items()}
        self.globals = d["globals"]
        self.methods = {int(k): v for k, v in d["methods"].items()}
        self.bystr = {t["str"]: t["id"] for t in self.types}
        self._comps = {}
        self._ptr = {}
        for t in self.types:
            if t["kind"] == "pointer":
                self._ptr[t["elem"]] = t["id"]

    # ------------------------------------------------------------ package variables that never change
    def constglobals(self):
        """package variables of /repo assigned once, a constant or a slice/array of constants, by the variable
        initialisers only, and never written or aliased anywhere else in the extracted packages"""
        if hasattr(self, "_cg"):
            return self._cg
        cand, bad = {}, set()
        inits = {k: f for k, f in self.funcs.items() if k.endswith(".init") and f.blocks}
        for k, f in inits.items():
            arrs, slices = {}, {}
            for b in f.blocks:
                addr = {}
                for ins in b.ins:
                    op = ins.get("op")
                    if op == "Alloc":
                        arrs[ins["reg"]] = {}
                    elif op == "IndexAddr" and ins["x"]["k"] in ("reg", "global") and ins["y"]["k"] == "const":
                        addr[ins["reg"]] = (ins["x"]["n"], int(ins["y"]["v"]), ins["x"]["k"])
                    elif op == "Slice" and ins["x"]["k"] == "reg" and ins["x"]["n"] in arrs and \
                            all(ins.get(q) is None for q in ("lo", "hi", "max", "low", "high")):
                        at = self.elem(ins["x"]["t"])
                        slices[ins["reg"]] = (ins["x"]["n"], self.u(at).get("len"))
                    elif op == "Store":
                        x, y = ins["x"], ins["y"]
                        if x["k"] == "reg" and x["n"] in addr:
                            base, i, bk = addr[x["n"]]
                            if bk == "global":
                                if y["k"] == "const" and not y.get("nil"):
                                    c = cand.setdefault(base, ["array", {}])
                                    c[1][i] = y
                                else:
                                    bad.add(base)
                            elif base in arrs:
                                arrs[base][i] = y
                        elif x["k"] == "global":
                            n = x["n"]
                            if n in cand:
                                bad.add(n)
                            elif y["k"] == "const" and not y.get("nil"):
                                cand[n] = ["const", y]
                            elif y["k"] == "reg" and y["n"] in slices:
                                a, ln = slices[y["n"]]
                                if all(v["k"] == "const" for v in arrs[a].values()):
                                    cand[n] = ["slice", arrs[a], ln]
                                else:
                                    bad.add(n)
                            else:
                                bad.add(n)

        def ops(ins):
            for kk, v in ins.items():
                if isinstance(v, dict):
                    if "k" in v and "n" in v:
                        yield kk, v
                    else:
                        yield from ops(v)
                elif isinstance(v, list):
                    for q in v:
                        if isinstance(q, dict):
                            if "k" in q and "n" in q:
                                yield kk, q
                            else:
                                yield from ops(q)
        for k, f in self.funcs.items():
            if not f.blocks or k in inits:
                continue
            loaded = set()
            for b in f.blocks:
                for ins in b.ins:
                    for kk, o in ops(ins):
                        if o["k"] == "global" and o["n"] in cand:
                            n = o["n"]
                            if ins.get("op") == "UnOp" and ins.get("tok") == "*":
                                if cand[n][0] == "slice":
                                    loaded.add((ins["reg"], n))
                            elif ins.get("op") == "IndexAddr" and cand[n][0] == "array" and kk == "x":
                                loaded.add((ins["reg"], n))
                            else:
                                bad.add(n)
            if loaded:
                regs = dict(loaded)
                elems = {}
                for b in f.blocks:
                    for ins in b.ins:
                        for kk, o in ops(ins):
                            if o["k"] == "reg" and o["n"] in regs:
                                n = regs[o["n"]]
                                if cand[n][0] == "array":
                                    if not (ins.get("op") == "UnOp" and ins.get("tok") == "*"):
                                        bad.add(n)
                                elif ins.get("op") == "IndexAddr" and kk == "x":
                                    elems[ins["reg"]] = n
                                elif ins.get("op") == "Call" and ins["call"].get("fn", {}).get("n") == "len":
                                    pass
                                else:
                                    bad.add(n)
                for b in f.blocks:
                    for ins in b.ins:
                        for kk, o in ops(ins):
                            if o["k"] == "reg" and o["n"] in elems and not (ins.get("op") == "UnOp" and ins.get("tok") == "*"):
                                bad.add(elems[o["n"]])
        self._cg = {n: c for n, c in cand.items() if n not in bad and not n.rsplit(".", 1)[-1][0].isupper()}
        return self._cg

    def t(self, i):
        return self.types[i]

    def u(self, i):
        t = self.types[i]
        while t["kind"] == "named":
            t = self.types[t["under"]]
        return t

    def kind(self, i):
        """i: int kind name, 'bool','string','float','ptr','slice','map','chan','func','iface','struct','array','tuple'"""
        u = self.u(i)
        k = u["kind"]
        if k == "basic":
            n = u["name"]
            if n in INTS:
                return "int"
            if n in ("bool", "untyped bool"):
                return "bool"
            if n in ("string", "untyped string"):
                return "string"
            if n in ("float32", "float64", "untyped float"):
                return "float"
            if n in ("unsafe.Pointer", "Pointer"):
                return "ptr"
            return "other"
        return {"pointer": "ptr", "interface": "iface"}.get(k, k)

    def intinfo(self, i):
        """(bits, signed)"""
        return INTS[self.u(i)["name"]]

    def elem(self, i):
        return self.u(i)["elem"]

    def ptr_to(self, i):
        return self._ptr.get(i)

    def tid(self, s):
        if s in self.bystr:
            return self.bystr[s]
        raise KeyError("unknown Go type in contract: " + s)

    def comps(self, i):
        c = self._comps.get(i)
        if c is None:
            c = self._mkcomps(i)
            self._comps[i] = c
        return c

    def _mkcomps(self, i):
        k = self.kind(i)
        if k in ("int", "ptr", "map", "chan", "func"):
            return ["I"]
        if k == "bool":
            return ["B"]
        if k == "string":
            return ["S"]
        if k == "float":
            return ["R"]
        if k == "slice":
            return ["I", "I", "I", "I"]
        if k == "iface":
            return ["I", "I"]
        if k == "struct":
            r = []
            for f in self.u(i)["fields"]:
                r += self.comps(f["type"])
            return r
        if k == "array":
            return ["A" + c for c in self.comps(self.elem(i))]
        if k == "tuple":
            r = []
            for e in self.types[i]["elems"]:
                r += self.comps(e)
            return r
        return ["I"]

    def fieldoff(self, i, fi):
        fs = self.u(i)["fields"]
        off = 0
        for f in fs[:fi]:
            off += len(self.comps(f["type"]))
        return off, fs[fi]["type"]

    def findfield(self, i, name):
        """path of (offset,type) for a possibly promoted field of struct type i; None if absent.
        Promotion through embedded *values* only gives a flat offset; through embedded
        pointers the path has more than one element."""
        fs = self.u(i)["fields"]
        for k, f in enumerate(fs):
            if f["name"] == name:
                return [self.fieldoff(i, k)]
        for k, f in enumerate(fs):
            if f["emb"]:
                ft = f["type"]
                o = self.fieldoff(i, k)[0]
                if self.kind(ft) == "struct":
                    p = self.findfield(ft, name)
                    if p:
                        return [(o + p[0][0], p[0][1])] + p[1:]
                elif self.kind(ft) == "ptr" and self.kind(self.elem(ft)) == "struct":
                    p = self.findfield(self.elem(ft), name)
                    if p:
                        return [(o, ft)] + p
        return None


INTS = {"int": (64, True), "int8": (8, True), "int16": (16, True), "int32": (32, True), "int64": (64, True),
        "uint": (64, False), "uint8": (8, False), "uint16": (16, False), "uint32": (32, False), "uint64": (64, False),
        "uintptr": (64, False), "byte": (8, False), "rune": (32, True), "untyped int": (64, True),
        "untyped rune": (32, True)}
