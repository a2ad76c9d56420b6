"""check driver:  driver.py PROPERTY quick|thorough

1. extracts typed SSA of /repo's current source (go/ssa), 2. generates and discharges the obligations of every
function under a contract tagged with the property, 3. runs the bounded companion / replay programs of the property
on the real code, 4. writes the evidence file, prints VIOLATION / KNOWN-FINDING lines."""
import sys, os, json, time, subprocess, multiprocessing as mp, re, glob, hashlib
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(ROOT, "gvc"))
REPO = os.environ.get("GVC_REPO", "/repo")
BUILD = os.environ.get("GVC_BUILD", os.path.join(ROOT, ".build"))
import props as P

ENV = dict(os.environ)
ENV.update(HOME="/root", LANG="C.UTF-8",
           PATH="/opt/veriftools/go1.27.3/bin:/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin",
           GOTOOLCHAIN="local", GOPROXY="off", GOFLAGS="-mod=mod", GOPATH="/root/go", GOMODCACHE="/root/go/pkg/mod",
           GOCACHE="/root/.cache/go-build", GOSUMDB="off")


def log(*a):
    print(*a, flush=True)


def build_extractor():
    src = os.path.join(ROOT, "gvc", "extract")
    h = hashlib.sha256()
    for f in sorted(glob.glob(src + "/*.go")) + [src + "/go.mod"]:
        h.update(open(f, "rb").read())
    out = os.path.join(BUILD, "gvcextract-" + h.hexdigest()[:12])
    if not os.path.exists(out):
        os.makedirs(BUILD, exist_ok=True)
        tmp = out + ".%d" % os.getpid()
        r = subprocess.run(["go", "build", "-o", tmp, "."], cwd=src, env=ENV, stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
        if r.returncode != 0:
            log(r.stdout.decode())
            sys.exit(2)
        os.rename(tmp, out)
    return out


def extract(pkgs, tag):
    x = build_extractor()
    out = os.path.join(BUILD, "ssa-%s-%d.json" % (tag, os.getpid()))
    r = subprocess.run([x, out, REPO, ",".join(pkgs)], cwd=REPO, env=ENV, stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
    if r.returncode != 0:
        log("cannot load /repo's source:\n" + r.stdout.decode()[-3000:])
        sys.exit(2)
    return out


# ------------------------------------------------------------------------------------------------ verification
_G = {}


def _mk():
    import gvc, specs
    from execu import Exec
    import contract as C
    cs = C.Contracts()
    for f in _G["files"]:
        cs.load(f)
    for h in [h for h, c in cs.funcs.items() if c.kind == "func" and "helper" in c.opts]:
        f = _G["prog"].funcs.get(h)
        # contracts on private helpers only structure the proof: without the helper its callers are verified on their own
        if h in _G.get("drop", ()) or f is None or f.blocks is None or len(f.params) != len(cs.funcs[h].params) \
                or len(_G["prog"].t(f.sig)["results"]) != len(cs.funcs[h].results):
            del cs.funcs[h]
    e = Exec(_G["prog"], cs, {"debug": 0, "dump": False, **_G["opts"]})
    cs.bind(e)
    specs.install(e)
    return e


def _one(fn):
    import contract as C
    t = time.time()
    e = _mk()
    if fn.startswith("lemma:"):
        rep = C.verify_lemma(e, fn[6:])
    else:
        rep = C.verify(e, e.cs.funcs[fn])
    smt = None
    obls = [dict(name=o["name"], status=o["status"], time=round(o.get("time", 0), 3), info=str(o.get("info", ""))[:2000],
                 model=str(o.get("model", ""))[:6000] if o["status"] != "proved" else "",
                 goal=str(o.get("goal", ""))[:3000] if o["status"] != "proved" else "", cover=bool(o.get("cover")),
                 smt=o.get("smt2")) for o in e.obls]
    return dict(fn=fn, rep=rep, obls=obls, solver=e.solver_time, stats=dict(e.qf.stats) if isinstance(e.qf.stats, dict) else str(e.qf.stats),
                notes=sorted(e.assumed), contracts=sorted(e.used_contracts), inlined=sorted(e.inlined),
                wall=time.time() - t)


def _child(fn, q):
    try:
        q.put(_one(fn))
    except BaseException as ex:
        import traceback
        q.put(dict(fn=fn, rep={"status": "undecided"}, obls=[dict(name=fn + "#decidable", status="unknown", time=0,
              info="engine error: " + traceback.format_exc()[-1500:], model="", goal="", cover=False)], solver=0, stats={}, notes=[],
              contracts=[], inlined=[], wall=0))


def verify_all(fns, limit):
    """each function in its own process, at most 8 at a time, hard wall limit each"""
    import threading, queue
    res = {}
    todo = list(fns)
    running = []
    while todo or running:
        while todo and len(running) < 8:
            fn = todo.pop(0)
            q = mp.SimpleQueue()
            r, w = mp.Pipe(False)
            p = mp.Process(target=_child_pipe, args=(fn, w))
            p.start()
            w.close()
            running.append((fn, p, r, time.time()))
        time.sleep(0.02)
        nxt = []
        for fn, p, r, t0 in running:
            done = False
            if r.poll():
                try:
                    res[fn] = r.recv()
                except EOFError:
                    res[fn] = _dead(fn, "verifier process ended without a result")
                p.join()
                done = True
            elif not p.is_alive():
                res[fn] = _dead(fn, "verifier process ended without a result")
                done = True
            elif time.time() - t0 > limit:
                p.kill()
                p.join()
                res[fn] = _dead(fn, "no result within %d s" % limit)
                done = True
            if not done:
                nxt.append((fn, p, r, t0))
        running = nxt
    return res


def _dead(fn, why):
    return dict(fn=fn, rep={"status": "undecided"}, obls=[dict(name=fn + "#decidable", status="unknown", time=0, info=why, model="",
                goal="", cover=False)], solver=0, stats={}, notes=[], contracts=[], inlined=[], wall=0)


def _child_pipe(fn, w):
    class Q:
        def put(self, x):
            w.send(x)
    _child(fn, Q())
    w.close()


# ------------------------------------------------------------------------------------------------ companions / replays
def run_harness(pid, h, tier, seed):
    """h: {pkg, files:[..], run, race?, timeout?}.  Returns dict(status: ok|fail|nobuild|error, fails:[...], cases:n, output)"""
    pkg = h["pkg"]
    d = os.path.join(BUILD, "ov")
    os.makedirs(d, exist_ok=True)
    ov = {"Replace": {}}
    for f in h["files"]:
        ov["Replace"][os.path.join(REPO, pkg, "zz_verif_" + os.path.basename(f))] = os.path.join(ROOT, "replay", f)
    # the repository's own test files of the package are not compiled in
    if not h.get("keeptests"):
        for f in glob.glob(os.path.join(REPO, pkg, "*_test.go")):
            ov["Replace"].setdefault(f, "")
    ovf = os.path.join(d, "%s-%s-%d-%d.json" % (pid, os.path.basename(h["files"][0]), os.getpid(), id(h)))
    json.dump(ov, open(ovf, "w"))
    to = h.get("timeout", 120) * (4 if tier == "thorough" else 1)
    cmd = ["go", "test", "-vet=off", "-count=1", "-overlay", ovf, "-timeout", "%ds" % to, "-run", h.get("run", "^TestVerif"), "-v"]
    if h.get("race"):
        cmd.append("-race")
    cmd.append("./" + pkg)
    env = dict(ENV)
    env["VERIF_SEED"] = str(seed)
    env["VERIF_TIER"] = tier
    env.update(h.get("env", {}))
    scratch = os.path.join(d, "scratch-%s-%d-%d" % (pid, os.getpid(), id(h)))
    os.makedirs(scratch, exist_ok=True)
    env["VERIF_SCRATCH"] = scratch
    t = time.time()
    try:
        r = subprocess.run(cmd, cwd=REPO, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=to + 120)
        out = r.stdout.decode(errors="replace")
        rc = r.returncode
    except subprocess.TimeoutExpired as ex:
        out = (ex.stdout or b"").decode(errors="replace")
        rc = 124
    finally:
        subprocess.run(["rm", "-rf", scratch])
    try:
        os.remove(ovf)
    except OSError:
        pass
    fails = [l.split("VERIF-FAIL", 1)[1].strip() for l in out.splitlines() if "VERIF-FAIL" in l]
    cases = sum(int(x) for x in re.findall(r"VERIF-CASES (\d+)", out))
    samples = [x[:400] for x in re.findall(r"VERIF-SAMPLE (.*)", out)][:4]
    res = dict(harness=h["files"][0], cmd=" ".join(cmd), rc=rc, cases=cases, fails=fails[:20], samples=samples, wall=round(time.time() - t, 2),
               bound=h.get("bound", ""))
    if "[build failed]" in out or "[setup failed]" in out:
        res["status"] = "nobuild"
    elif fails:
        res["status"] = "fail"
    elif rc != 0 and ("panic:" in out or "fatal error:" in out) and "test timed out" not in out:
        res["status"] = "fail"
        res["fails"] = ["the harness run ended in a panic: " + (re.findall(r"(panic: .*|fatal error: .*)", out) or ["?"])[0]]
    elif rc != 0 and "test timed out" in out:
        cur = re.findall(r"VERIF-BEGIN (.*)", out)
        res["status"] = "fail" if cur else "error"
        res["fails"] = ["no answer within %d s on: %s" % (to, cur[-1])] if cur else []
    elif rc != 0 and "DATA RACE" in out:
        res["status"] = "fail"
        res["fails"] = ["data race detected"]
    elif rc != 0:
        res["status"] = "error"
    else:
        res["status"] = "ok" if "VERIF-DONE" in out else "error"
    res["tail"] = out[-6000:] if res["status"] != "ok" else ""
    return res


def known():
    """known_findings.txt: 'KNOWN-FINDING: property=<id> key=<regex on obligation or harness failure> <text>'"""
    out = []
    p = os.path.join(ROOT, "known_findings.txt")
    if os.path.exists(p):
        for l in open(p):
            m = re.match(r"KNOWN-FINDING: property=(\S+) key=(\S+) (.*)$", l.strip())
            if m:
                out.append(m.groups())
    return out


def main():
    pid, tier = sys.argv[1], (sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick"))
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    t0 = time.time()
    cfg = P.PROPS[pid]
    os.makedirs(BUILD, exist_ok=True)
    ssa = extract(P.PKGS, pid)
    from ir import Prog
    _G["prog"] = Prog(ssa)
    os.remove(ssa)
    _G["files"] = [os.path.join(ROOT, "contracts", f) for f in cfg["contracts"]]
    _G["opts"] = {"time": 1200 if tier == "thorough" else 700, "timeout": 60000 if tier == "thorough" else 12000}
    if tier == "thorough":
        _G["opts"]["cross"] = True
    e = _mk()
    fns = [f for f, c in e.cs.funcs.items() if c.kind == "func" and not c.trusted and pid in c.props]
    fns += ["lemma:" + lab for lab, _, props in e.cs.lemmas if pid in props]
    ext_t = time.time() - t0
    # verification and companions
    hs = cfg.get("replay", [])
    import concurrent.futures as cf
    ex = cf.ThreadPoolExecutor(4)
    futs = [ex.submit(run_harness, pid, h, tier, seed) for h in hs if h.get("always", True)]
    res = verify_all(fns, 1500 if tier == "thorough" else 740)
    # a contract on a private helper that no longer holds is dropped, and the functions relying on it are verified with the
    # helper's body inlined: such a contract is a step of the proof, not part of the property
    dropped = []
    while True:
        dr = [f for f in fns if not f.startswith("lemma:") and "helper" in e.cs.funcs[f].opts and any(o["status"] != "proved" for o in res[f]["obls"])]
        if not dr:
            break
        dropped += dr
        _G["drop"] = set(dropped)
        fns = [f for f in fns if f not in dr]
        again = [f for f in fns if set(res[f]["contracts"]) & set(dr) or any(o["status"] != "proved" for o in res[f]["obls"])]
        for f in dr:
            log("helper contract of %s does not hold; callers are verified without it" % f)
        _G["opts"]["time"] = min(_G["opts"]["time"], max(60, 780 - (time.time() - t0))) if tier == "quick" else 600
        res.update(verify_all(again, max(60, 800 - (time.time() - t0)) if tier == "quick" else 1500))
    hres = [f.result() for f in futs]
    obls = [o for f in fns for o in res[f]["obls"]]
    bad = [o for o in obls if o["status"] != "proved"]
    # known findings
    kn = [(k, txt) for p_, k, txt in known() if p_ == pid]
    hit = set()
    nb = []
    for o in bad:
        m = [i for i, (k, _) in enumerate(kn) if re.fullmatch(k, o["name"])]
        if m:
            hit |= set(m)
        else:
            nb.append(o)
    if nb:
        hres += [f.result() for f in [ex.submit(run_harness, pid, h, tier, seed) for h in hs if not h.get("always", True)]]
    hf = []
    for h in hres:
        fl = []
        for x in h["fails"] if h["status"] == "fail" else []:
            m = [i for i, (k, _) in enumerate(kn) if re.match(k, x)]
            if m:
                hit |= set(m)
            else:
                fl.append(x)
        if fl:
            hf.append((h, fl))
    cross = None
    if tier == "thorough":
        cross = crosscheck(obls)
        if cross.get("disagree"):
            log("NOTE: second solver disagrees on", cross["disagree"])
    # evidence
    proved = [o for o in obls if o["status"] == "proved"]
    files = {}
    for f in fns:
        files[f] = dict(file=res[f]["rep"].get("file"), paths=res[f]["rep"].get("paths"),
                        obligations=len([o for o in res[f]["obls"] if not o["cover"]]),
                        discharged=len([o for o in res[f]["obls"] if o["status"] == "proved" and not o["cover"]]),
                        covers=len([o for o in res[f]["obls"] if o["cover"]]),
                        solver_s=round(res[f]["solver"], 2), wall_s=round(res[f]["wall"], 2))
    notes = sorted({n for f in fns for n in res[f]["notes"]})
    trusted = sorted({c for f in fns for c in res[f]["contracts"] if e.cs.funcs.get(c) is not None and (e.cs.funcs[c].trusted or e.cs.funcs[c].kind != "func")})
    relied = sorted({c for f in fns for c in res[f]["contracts"]} - set(trusted))
    inl = sorted({c for f in fns for c in res[f]["inlined"]})
    ev = dict(property=pid, tier=tier, seed=seed, level=cfg.get("level", "proof"),
              coverage=dict(
                  obligations=len([o for o in obls if not o["cover"]]), discharged=len([o for o in proved if not o["cover"]]),
                  vacuity_covers=len([o for o in obls if o["cover"]]),
                  checker_cmd="python3-vt gvc/driver.py %s %s (go/ssa of /repo -> obligations -> z3 %s%s)" % (
                      pid, tier, __import__("z3").get_version_string(), "; cvc5 cross-check" if cross else ""),
                  back_end="z3 (python bindings)", solver_s=round(sum(res[f]["solver"] for f in fns), 2),
                  functions_under_contract=files, callee_contracts_used=relied, inlined_callees=inl,
                  trusted_base=["go/ssa (x/tools) as the semantics of the source", "gvc verification-condition generator", "z3"] +
                  ["assumed contract: " + t for t in trusted],
                  bounded_companions=[dict(harness=h["harness"], bound=h["bound"], status=h["status"], cases=h["cases"], samples=h["samples"],
                                           wall_s=h["wall"]) for h in hres],
                  second_solver=cross, not_under_contract=cfg.get("gaps", [])),
              wall_s=round(time.time() - t0, 2), assumptions=notes + cfg.get("assume", []),
              violations=len(nb) + sum(len(x) for _, x in hf))
    if len([o for o in obls if not o["cover"]]) == 0 and fns:
        ev["violations"] += 1
    evf = os.path.join(ROOT, "evidence", pid + ".json")
    os.makedirs(os.path.dirname(evf), exist_ok=True)
    if not os.environ.get("GVC_NOEV"):
        json.dump(ev, open(evf, "w"), indent=1)
    log("%s %s: %d functions, %d obligations, %d discharged, %d covers; companions %s; %.1f s (extract %.1f s, solver %.1f s)" % (
        pid, tier, len(fns), ev["coverage"]["obligations"], ev["coverage"]["discharged"], ev["coverage"]["vacuity_covers"],
        ["%s:%s:%d" % (h["harness"], h["status"], h["cases"]) for h in hres], ev["wall_s"], ext_t, ev["coverage"]["solver_s"]))
    for h in hres:
        if h["status"] in ("nobuild", "error"):
            log("companion %s gave no answer (%s)" % (h["harness"], h["status"]))
            if os.environ.get("GVC_DEBUG"):
                log(h["tail"][-3000:])
    for i in sorted(hit):
        log("KNOWN-FINDING: property=%s %s" % (pid, kn[i][1]))
    if not nb and not hf:
        if not fns and not hres:
            log("nothing checked")
            sys.exit(2)
        sys.exit(0)
    rp = os.path.join(BUILD, "replay", "%s.txt" % pid)
    os.makedirs(os.path.dirname(rp), exist_ok=True)
    with open(rp, "w") as w:
        w.write("property %s\n\n" % pid)
        for o in nb:
            w.write("FAILED OBLIGATION %s (%s)\n  %s\n  goal: %s\n  verifier counterexample:\n%s\n\n" % (o["name"], o["status"], o["info"], o["goal"], o["model"]))
        for h, fl in hf:
            w.write("FAILING INPUT on the real code, harness replay/%s\n  run: cd %s && VERIF_SEED=%d %s\n" % (h["harness"], REPO, seed, h["cmd"]))
            for x in fl:
                w.write("  " + x + "\n")
            w.write(h["tail"] + "\n")
    for o in nb[:12]:
        log("  failed obligation: %s (%s) %s" % (o["name"], o["status"], o["info"][:300].replace("\n", " ")))
    for h, fl in hf:
        for x in fl[:5]:
            log("  failing input (%s): %s" % (h["harness"], x[:300]))
    log("VIOLATION property=%s replay=%s%s" % (pid, rp, "" if hf else " no-failing-input-found"))
    sys.exit(1)


def crosscheck(obls):
    """re-run the SMT-LIB text of the discharged obligations with cvc5 and z3-new"""
    import tempfile, concurrent.futures as cf
    todo = [o for o in obls if o.get("smt") and o["status"] == "proved"]
    out = dict(queries=len(todo), unsat=0, unknown=0, disagree=[])

    def one(o):
        f = tempfile.NamedTemporaryFile("w", suffix=".smt2", delete=False, dir=BUILD)
        f.write("(set-logic ALL)\n" + o["smt"])
        f.close()
        try:
            r = subprocess.run(["cvc5", "--tlimit=20000", f.name], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=40).stdout.decode()
        except subprocess.TimeoutExpired:
            r = "unknown"
        os.remove(f.name)
        return o["name"], r.strip().splitlines()[0] if r.strip() else "unknown"
    with cf.ThreadPoolExecutor(8) as ex:
        for n, r in ex.map(one, todo):
            if r == "unsat":
                out["unsat"] += 1
            elif r == "sat":
                out["disagree"].append(n)
            else:
                out["unknown"] += 1
    return out


if __name__ == "__main__":
    main()
