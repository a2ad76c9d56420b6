"""Which append chains are linear: slices built from nil/make/a literal by appending, where no version is
appended to twice, stored, re-sliced, passed on or written through.  For these, whether append reuses the
backing array or allocates a new one cannot be observed, so the verifier allocates."""


def operands(ins):
    """(role, operand) pairs of an instruction"""
    for k in ("x", "y", "lo", "hi", "max", "addr", "val", "recv", "cond"):
        v = ins.get(k)
        if isinstance(v, dict):
            yield k, v
    for a in ins.get("args") or []:
        if isinstance(a, dict):
            yield "arg", a
    for a in ins.get("bind") or ins.get("bindings") or []:
        if isinstance(a, dict):
            yield "bind", a
    c = ins.get("call")
    if c:
        for j, a in enumerate(c.get("args") or []):
            yield "call%d" % j, a
        for k in ("recv", "fn"):
            if isinstance(c.get(k), dict):
                yield "callfn", c[k]


def anyreg(o, out):
    """every register mentioned anywhere in an instruction (for unknown shapes)"""
    if isinstance(o, dict):
        if o.get("k") == "reg":
            out.append(o["n"])
        for v in o.values():
            anyreg(v, out)
    elif isinstance(o, list):
        for v in o:
            anyreg(v, out)


def isappend(ins):
    c = ins.get("call")
    return bool(ins["op"] == "Call" and c and c.get("mode") == "call" and isinstance(c.get("fn"), dict)
                and c["fn"].get("k") == "builtin" and c["fn"].get("n") == "append")


def isbuiltin(ins, names):
    c = ins.get("call")
    return bool(ins["op"] == "Call" and c and isinstance(c.get("fn"), dict) and c["fn"].get("k") == "builtin" and c["fn"].get("n") in names)


def chains(p, f):
    """names of the registers that are versions of a linear append chain"""
    defs, where, uses = {}, {}, {}
    for bi, b in enumerate(f.blocks):
        for ins in b.ins:
            if ins.get("reg"):
                defs[ins["reg"]] = ins
                where[ins["reg"]] = bi
    for bi, b in enumerate(f.blocks):
        for ins in b.ins:
            rs = []
            anyreg({k: v for k, v in ins.items()}, rs)
            for r in set(rs):
                uses.setdefault(r, []).append((bi, ins, rs.count(r)))
    loops = f.an["loops"]
    # union-find over phi and append edges
    par = {}

    def find(x):
        while par.setdefault(x, x) != x:
            x = par[x]
        return x
    members = set()
    bad = set()

    def link(a, o):
        """o flows into a"""
        if o.get("k") == "const":
            if not o.get("nil"):
                bad.add(a)
            return
        if o.get("k") != "reg":
            bad.add(a)
            return
        members.add(o["n"])
        par[find(o["n"])] = find(a)
    for r, ins in defs.items():
        if isappend(ins):
            members.add(r)
            link(r, ins["call"]["args"][0])
        elif ins["op"] == "Phi" and p.kind(ins["t"]) == "slice":
            members.add(r)
            for a in ins["args"]:
                link(r, a)
    for m in members:
        d = defs.get(m)
        if d is None:
            bad.add(m)
            continue
        if isappend(d) or d["op"] == "Phi" or d["op"] == "MakeSlice":
            pass
        elif d["op"] == "Slice" and d["x"].get("k") == "reg" and defs.get(d["x"]["n"], {}).get("op") == "Alloc":
            # a literal: the array is only initialised, through constant addresses
            for bi, u, n in uses.get(d["x"]["n"], ()):
                if u is d:
                    continue
                if u["op"] != "IndexAddr" or any(w["op"] != "Store" or w["x"].get("n") != u["reg"] or w["y"].get("n") == u["reg"]
                                                  for _, w, _ in uses.get(u["reg"], ())):
                    bad.add(m)
        else:
            bad.add(m)
        napp = 0
        for bi, u, n in uses.get(m, ()):
            if isappend(u):
                if u["call"]["args"][0].get("n") == m:
                    napp += 1
                    if n > 1:
                        bad.add(m)
                    for h, body in loops.items():
                        if bi in body and where[m] not in body:
                            bad.add(m)
            elif u["op"] == "Phi":
                pass
            elif u["op"] == "Return" or isbuiltin(u, ("len",)):
                pass
            elif u["op"] == "IndexAddr" and u["x"].get("n") == m and n == 1:
                for _, w, k in uses.get(u["reg"], ()):
                    if not (w["op"] == "UnOp" and w.get("tok") == "*"):
                        bad.add(m)
            elif u["op"] == "Range":
                pass
            elif u["op"] == "BinOp":
                pass
            else:
                bad.add(m)
        if napp > 1:
            bad.add(m)
    badroots = {find(m) for m in bad}
    return {m for m in members if find(m) not in badroots}
