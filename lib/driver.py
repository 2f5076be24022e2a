"""Runs the static analyser over every implementation directory of /repo and decides one property."""
import os, sys, re, json, time, copy, shutil, tempfile, subprocess, resource, threading, hashlib
from concurrent.futures import ThreadPoolExecutor, as_completed
HERE = os.path.dirname(os.path.abspath(__file__)); ROOT = os.path.dirname(HERE)
sys.path.insert(0, HERE)
import build
from props import PROPS, GENERIC_NOTE
ANALYZER = os.path.join(ROOT, "analyzer", "build", "isapsa")
JOBS = int(os.environ.get("VERIF_JOBS", "8"))
T0 = time.time()
DEADLINE = float(os.environ.get("VERIF_DEADLINE", "840"))
def left(): return DEADLINE - (time.time() - T0)

def build_analyzer():
    import fcntl
    os.makedirs(os.path.join(ROOT, "analyzer", "build"), exist_ok=True)
    with open(os.path.join(ROOT, "analyzer", "build", ".lock"), "w") as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        r = subprocess.run(["make", "-s", "-j8", "-C", os.path.join(ROOT, "analyzer")], capture_output=True, text=True)
    if r.returncode or not os.path.exists(ANALYZER):
        sys.stderr.write("cannot build the analyser\n" + r.stderr[-4000:]); sys.exit(2)

# expected cost in seconds (longest first scheduling only; no influence on results)
COST = [("isapk128v20", 95), ("KECCAK", 90), ("isapk128av20/ref", 75), ("isapa128v20/opt_64", 30), ("isapk", 40), ("isapxv20", 28), ("isapa128v20", 26), ("armv", 12), ("", 12)]
def cost(v):
    for k, c in COST:
        if k in v.name: return c if not v.hash else 2
    return 10

class Job:
    def __init__(s, v, roots, fixed=(), tmo=240, tag=""):
        s.v, s.roots, s.fixed, s.tmo, s.tag = v, roots, list(fixed), tmo, tag
        s.out = None; s.err = ""; s.sec = 0.0

def run_job(j, work):
    o = os.path.join(work, hashlib.sha1(f"{j.v.name}|{j.roots}|{j.fixed}".encode()).hexdigest()[:16] + ".json")
    cmd = [ANALYZER, "--alg", j.v.alg, "--variant", j.v.name, "--roots", j.roots or "none", "--out", o]
    if j.v.mod: cmd += ["--mod", str(j.v.mod)]
    for f in j.fixed: cmd += ["--fixed", f]
    for a in j.v.lst: cmd += ["--asm", a]
    cmd.append(j.v.mod_bc)
    tmo = max(5, min(j.tmo, left() - 10))
    t = time.time()
    def lim():
        resource.setrlimit(resource.RLIMIT_AS, (20 << 30, 20 << 30))
        resource.setrlimit(resource.RLIMIT_STACK, (resource.RLIM_INFINITY, resource.RLIM_INFINITY)) if False else None
    try:
        r = subprocess.run(cmd, capture_output=True, text=True, timeout=tmo, preexec_fn=lim)
        if r.returncode == 0: j.out = json.load(open(o))
        else: j.err = f"analyser exit {r.returncode}: {r.stderr[-300:]}"
    except subprocess.TimeoutExpired: j.err = f"timeout after {tmo:.0f} s"
    j.sec = time.time() - t
    return j

def run_jobs(jobs, work):
    if not jobs: return
    jobs.sort(key=lambda j: -cost(j.v) * (1 if j.roots else 0.2))
    with ThreadPoolExecutor(JOBS) as p: list(p.map(lambda j: run_job(j, work), jobs))

def norm_ir(mod):
    """function name -> canonical text (no debug info, no attribute numbers)"""
    r = subprocess.run(["/usr/lib/llvm-18/bin/opt", "-passes=strip", "-S", mod, "-o", "-"], capture_output=True, text=True)
    fn = {}; cur = None
    glob = []
    for l in r.stdout.splitlines():
        l = re.sub(r"(, )?!\w[\w.]* !\d+", "", l); l = re.sub(r" #\d+", "", l); l = re.sub(r", !\S+", "", l)
        if l.startswith("define"):
            cur = re.search(r"@([\w.$]+)\(", l).group(1); fn[cur] = [l]
        elif cur: 
            fn[cur].append(l)
            if l == "}": cur = None
        elif l.startswith("@"): glob.append(l)
    return {k: "\n".join(v) for k, v in fn.items()}, "\n".join(sorted(glob))
def closure(fns, root):
    seen, todo = set(), [root]
    while todo:
        f = todo.pop()
        if f in seen or f not in fns: continue
        seen.add(f)
        todo += re.findall(r"@([\w.$]+)", fns[f])
    return seen

def compile_all(work, notes):
    vs = build.variants(); ok = []
    if os.environ.get('ISAPSA_ONLY'): vs = [v for v in vs if re.search(os.environ['ISAPSA_ONLY'], v.name)]   # development only
    def comp(v):
        d = os.path.join(work, re.sub("[/:]", "_", v.name))
        try: v.mod_bc = build.compile_variant(v, d)
        except RuntimeError as e: return v, str(e)
        return v, None
    with ThreadPoolExecutor(JOBS) as p:
        for v, e in p.map(comp, vs):
            if e: notes.append(f"not analysed (front end): {v.name}: {e.splitlines()[0]}")
            else: ok.append(v)
    if not os.environ.get('ISAPSA_ONLY') and len(ok) < 10 or len(ok) < len(vs) * 0.6:
        sys.stderr.write("most implementations do not compile:\n" + "\n".join(notes) + "\n"); sys.exit(2)
    for v in ok: v.mod = 16 if v.target == "avx" and v.alg.startswith("isapa") else 0
    return ok

def same_aead(h, ok):
    """name of a crypto_aead implementation with identical IR for the AEAD entry points, or None"""
    base = next((v for v in ok if not v.hash and v.name == h.name[len("hash/"):]), None)
    if not base: return None
    if not hasattr(base, "ir"): base.ir = norm_ir(base.mod_bc)
    hi, hg = norm_ir(h.mod_bc); bi, bg = base.ir
    for r in ("crypto_aead_encrypt", "crypto_aead_decrypt"):
        if r not in hi or r not in bi: return None
        a, b = closure(hi, r), closure(bi, r)
        if a != b or any(hi[f] != bi[f] for f in a): return None
        gl = lambda g, s: sorted(x for x in g.splitlines() if re.match(r"@([\w.$]+)", x).group(1) in s)
        ga = set(re.findall(r"@([\w.$]+)", "\n".join(hi[f] for f in a)))
        if gl(hg, ga) != gl(bg, ga): return None
    return base.name

ROUNDS = {"isapk": {("16", "20"), ("1", "12"), ("8", "12")}, "isapa": {("1", "12"), ("6", "12")}}
def tokens(v):
    """tokens of every unit after preprocessing, and the assembly sources"""
    if not hasattr(v, "tok"):
        v.tok = []
        for s in v.srcs:
            r = subprocess.run([build.CLANG] + build.cflags(v) + ["-E", "-P", s], capture_output=True, text=True)
            v.tok.append(re.findall(r'"(?:\\.|[^"\\])*"|[A-Za-z_]\w*|\d\w*|\S', r.stdout))
        v.tok.append([open(a).read() for a in v.asm])
    return v.tok
def param_twin(v, ok):
    """quick tier: an implementation whose preprocessed text equals that of an analysed one except for the round counts, each of which has
    the value its parameter set prescribes in both"""
    if v.hash: return None
    want = v.name.replace("isapk128v20/", "isapk128av20/") if v.name.startswith("isapk128v20/") else v.name.replace(":ISAP128-", ":ISAP128A-") if ":ISAP128-" in v.name else None
    w = next((x for x in ok if x.name == want), None)
    if not w: return None
    a, b = tokens(w), tokens(v)
    if len(a) != len(b): return None
    pairs = ROUNDS[v.alg[:5]]; n = 0
    for x, y in zip(a, b):
        if len(x) != len(y): return None
        for p, q in zip(x, y):
            if p != q:
                if (p, q) not in pairs: return None
                n += 1
    return w.name if n else None

STD = {"isapa": ["0,0", "1,0", "0,1", "7,9", "8,8", "17,16", "24,25", "9,39"], "isapk": ["0,0", "1,0", "0,1", "17,19", "18,18", "37,36", "40,55"]}
def std_set(v, hash_=False):
    if hash_: return ["-1,%d" % n for n in (0, 1, 7, 8, 9, 16, 23, 40)]
    return STD["isapa" if v.alg.startswith("isapa") else "isapk"]

def thresholds(v):
    """lengths at which the code may change its behaviour: constants of comparisons, scaled by the constant shifts in use"""
    if not hasattr(v, "thr"):
        r = subprocess.run(["/usr/lib/llvm-18/bin/llvm-dis", "-o", "-", v.mod_bc], capture_output=True, text=True)
        fac, got = {}, set()
        for l in r.stdout.splitlines():
            if l.startswith("define"): fac = {}
            q = re.match(r"\s*(%[\w.]+) = (lshr|udiv) i(?:32|64) %[\w.]+, (\d+)", l)
            if q: fac[q[1]] = 1 << min(int(q[3]), 62) if q[2] == "lshr" else int(q[3])
            q = re.match(r"\s*(%[\w.]+) = icmp \w+ i(?:16|32|64) (%[\w.]+), (\d+)", l)
            if q: got.add(int(q[3]) * fac.get(q[2], 1))
        v.thr = sorted(x for x in got if 64 < x <= 8192)[:3]
    return v.thr
def rtype(root): return "use" if root == "use" else "short" if root.startswith("decrypt-short") else "hash" if root.startswith("hash") else "enc" if root.startswith("encrypt") else "dec"

class Finding:
    def __init__(s, variant, root, kind, fn, loc, detail, how): s.variant, s.root, s.kind, s.fn, s.loc, s.detail, s.how = variant, root, kind, fn, loc, detail, how
    @property
    def file(s): return s.loc.rsplit(":", 1)[0]

def load_known():
    p = os.path.join(ROOT, "known-findings.json")
    return json.load(open(p))["findings"] if os.path.exists(p) else []

def main(prop, tier):
    P = PROPS[prop]
    seed = int(os.environ.get("VERIF_SEED", "1"))
    build_analyzer()
    work = tempfile.mkdtemp(prefix="isapsa-")
    try: rc = decide(prop, P, tier, seed, work)
    finally: shutil.rmtree(work, ignore_errors=True)
    sys.exit(rc)

def decide(prop, P, tier, seed, work):
    notes, findings, undecided, unconfirmed = [], [], [], []
    ok = compile_all(work, notes)
    total = dict(variants=0, roots=0, roots_decided_for_all_lengths=0, roots_bounded=0)
    sets = {k: set() for k in ("functions", "loops", "branches", "accesses", "externs", "asm")}
    stats = {}
    samples = []
    if P.get("static"):
        fs, cov = P["static"](ok, work, tier)
        for f in fs: findings.append(f)
        for k, n in cov.items(): total[k] = n
    roots = P.get("roots", "")
    if roots:
        jobs = []; twins = []
        for v in ok:
            if P.get("select") and not P["select"](v): continue
            want = [r for r in roots.split(",") if r]
            if v.hash:
                w = [r for r in want if r == "hash"]
                if [r for r in want if r != "hash"]:
                    twin = same_aead(v, ok)
                    if twin: total["identical_to_other_directory"] = total.get("identical_to_other_directory", 0) + 1
                    else: w = want
            else: w = [r for r in want if r != "hash"]
            if not w: continue
            if tier == "quick":
                twin = param_twin(v, ok)
                if twin: twins.append(f"{v.name} = {twin} up to round counts"); continue
            fx = P.get("always_fixed", {}).get(v.alg[:5], []) if v.target != "avx" and any(x != "hash" for x in w) else []
            tmo = (25 if v.target == "avx" and v.alg.startswith("isapa") else P.get("tmo", 260)) if tier == "quick" else 420
            for x in w:                                  # encryption and decryption separately: shorter critical path
                jobs.append(Job(v, x, fx if x == w[0] else [], tmo=tmo))
        for v in ok if P.get("asm_use") else []:
            if not v.asm or v.hash: continue
            b = build.asm_use(v, os.path.dirname(v.mod_bc))
            if not b: notes.append(f"exported assembly routines not called directly (their header does not fit the harness): {v.name}"); continue
            u = copy.copy(v); u.name = "exported routines of " + v.name; u.mod_bc = b
            jobs.append(Job(u, "use", tmo=120))
        run_jobs(jobs, work)
        by = {}
        for j in jobs:
            if j.v.name in by:
                b = by[j.v.name]
                b.roots += "," + j.roots; b.sec += j.sec
                if j.err: b.err = (b.err + "; " if b.err else "") + j.err
                if j.out:
                    if b.out: b.out["roots"] += j.out["roots"]
                    else: b.out = j.out
            else: by[j.v.name] = j
        jobs = list(by.values())
        # roots that could not be decided for all lengths are analysed again at fixed lengths
        second = []; need = {}
        def ask(v, fx):
            if (v.name, fx) not in need: need[(v.name, fx)] = Job(v, "", [fx], tmo=150); second.append(need[(v.name, fx)])
            return need[(v.name, fx)]
        pend = []   # (job, rootname, event, [jobs that may confirm it])
        und_roots = []
        for j in jobs:
            if "P14cmp" in P and j.out: total["enc_dec_positions_compared"] = total.get("enc_dec_positions_compared", 0) + P["P14cmp"](j.v, j.out["roots"], findings)
            res = j.out["roots"] if j.out else []
            want = j.roots.split(",")
            have = {rtype(r["root"]) for r in res}
            for w in want:
                if w not in have: res = res + [{"root": {"enc": "encrypt", "dec": "decrypt", "short": "decrypt-short-0", "hash": "hash", "use": "use"}[w], "undecided": j.err or "not run", "events": []}]
            total["variants"] += 1
            for r in res:
                t = rtype(r["root"])
                if "@" in r["root"]:
                    total["fixed_length_roots"] = total.get("fixed_length_roots", 0) + 1
                    if not r["undecided"]:
                        for e in r["events"]:
                            e["ks"] = False
                            if P["match"](t, e): findings.append(Finding(j.v.name, r["root"], e["kind"], e["fn"], e["loc"], e["detail"], "at fixed length"))
                    continue
                total["roots"] += 1
                if r["undecided"]:
                    und_roots.append((j.v, r["root"], r["undecided"]))
                    if t in ("enc", "dec", "hash"):
                        for fx in std_set(j.v, t == "hash"): ask(j.v, fx)
                        for n in thresholds(j.v):
                            for fx in (["-1,%d" % (n + 1)] if t == "hash" else ["3,%d" % (n + 1), "%d,3" % (n + 1)]): ask(j.v, fx)
                else: total["roots_decided_for_all_lengths"] += 1
                for k in sets: sets[k].update(f"{j.v.dir.replace(build.REPO + '/', '')}:{x}" if k != "externs" else x for x in r.get(k, []))
                for k, n in r.get("stats", {}).items(): stats[k] = stats.get(k, 0) + n
                for e in r["events"]:
                    e["ks"] = e["fn"] in r.get("ksfns", []) and e["fn"] not in ("crypto_aead_encrypt", "crypto_aead_decrypt")
                    if not P["match"](t, e): continue
                    # an abandoned analysis may stand on a loop state that was never shown inductive
                    if r["undecided"] and t != "short" and e["kind"] not in ("VLA", "RECURSION", "EXTERN_CALL") and (e["kind"] != "TRUNC" or "in a 64-bit type" in e["detail"]): continue
                    if t in ("short", "use") or (r["undecided"] and e["kind"] in ("VLA", "RECURSION", "EXTERN_CALL")): findings.append(Finding(j.v.name, r["root"], e["kind"], e["fn"], e["loc"], e["detail"], "exact")); continue
                    wa, wm = e.get("wa", -2), e.get("wm", -2)
                    if t == "hash": wm = 0
                    big = wa == -1 or wm == -1 or wa > 80 or wm > 80
                    if big: findings.append(Finding(j.v.name, r["root"], e["kind"], e["fn"], e["loc"], e["detail"], "for lengths too large to enumerate")); continue
                    R = 8 if j.v.alg.startswith("isapa") or t == "hash" else 18
                    if t == "hash": fx = ["-1,%d" % wa, "-1,%d" % (wa + 8)] if wa >= 0 else std_set(j.v, True)
                    else: fx = ["%d,%d" % (wa, wm)] if wa >= 0 and wm >= 0 else std_set(j.v)
                    pend.append((j, r["root"], e, [ask(j.v, f) for f in fx]))
        run_jobs(list(second), work)
        def fixed_events(jb, t):
            for r in (jb.out["roots"] if jb.out else []):
                if rtype(r["root"]) == t and not r["undecided"]:
                    for e in r["events"]:
                        if P["match"](t, e): yield r["root"], e
        third = []
        def settle(items, extra):
            rest = []
            for j, root, e, js in items:
                hit = None
                for jb in js:
                    for rr, fe in fixed_events(jb, rtype(root)):
                        hit = (rr, fe); break
                    if hit: break
                if hit: findings.append(Finding(j.v.name, hit[0], hit[1]["kind"], hit[1]["fn"], hit[1]["loc"], hit[1]["detail"], "confirmed at " + hit[0]))
                elif e["kind"] in ("TRUNC", "NONTERM") : findings.append(Finding(j.v.name, root, e["kind"], e["fn"], e["loc"], e["detail"], "for all lengths on this path"))
                else: rest.append((j, root, e, js))
            return rest
        rest = settle(pend, False)
        if rest and not findings:
            again = []
            for j, root, e, js in rest:
                if left() < 200: break
                t = rtype(root)
                n0 = len(second)
                again.append((j, root, e, [ask(j.v, f) for f in std_set(j.v, t == "hash")]))
            fresh = [x for x in second if x.out is None and not x.err]
            run_jobs(fresh, work)
            rest = settle(again, True)
        for j, root, e, js in rest: unconfirmed.append(f"{j.v.name} {root}: {e['kind']} in {e['fn']} at {e['loc']}: {e['detail'][:160]}")
        for v, root, why in und_roots:
            t = rtype(root); n = 0; bad = 0
            for (nm, fx), jb in need.items():
                if nm != v.name: continue
                got = [r for r in (jb.out["roots"] if jb.out else []) if rtype(r["root"]) == t]
                if got and not got[0]["undecided"]: n += 1
                elif (t == "hash") == fx.startswith("-1"): bad += 1
                for rr, fe in fixed_events(jb, t):
                    findings.append(Finding(v.name, rr, fe["kind"], fe["fn"], fe["loc"], fe["detail"], "at fixed length"))
            if n: total["roots_bounded"] += 1
            undecided.append({"implementation": v.name, "entry": root, "reason": why[:200], "fixed_lengths_decided": n, "fixed_lengths_undecided": bad})
        total["same_text_up_to_round_counts"] = twins
        if not jobs: notes.append("no implementation selected")
        for j in jobs[:3]:
            if j.out:
                for r in j.out["roots"][:1]:
                    samples.append({"implementation": j.v.name, "entry": r["root"], "functions": r["functions"][:8], "loops": r["loops"][:6], "sec": r["sec"]})
    # ---- report
    known = load_known(); viol = {}; knownhit = {}
    for f in findings:
        hit = None
        for k in known:
            if k["property"] == prop and k["kind"] == f.kind and k["file"] == f.file and (k.get("fn") in (None, f.fn)): hit = k; break
        if hit: knownhit[(hit["kind"], hit["file"], hit.get("fn"))] = hit
        else: viol.setdefault((f.variant, f.kind, f.fn, f.loc), f)
    for k in knownhit.values(): print(f"KNOWN-FINDING: property={prop} {k['what']}")
    wall = time.time() - T0
    cov = {"explanation": P["rule"] + " " + GENERIC_NOTE, "rule": P["rule"]}
    cov.update({k: v for k, v in total.items()})
    if roots:
        cov.update({"functions_analysed": len(sets["functions"]), "loops_summarised": len(sets["loops"]), "conditional_branches": len(sets["branches"]), "memory_access_sites": len(sets["accesses"]), "asm_statements": len(sets["asm"])})
        cov["obligation_counts"] = {k: stats[k] for k in sorted(stats) if k in P.get("stats", []) or not P.get("stats")}
        cov["undecided_for_all_lengths"] = undecided
        cov["unconfirmed_alarms"] = unconfirmed
        cov["samples"] = samples
    cov["not_analysed"] = notes
    ev = {"property": prop, "tier": tier, "seed": seed, "level": "other", "coverage": cov, "assumptions": P.get("assumptions", []), "wall_s": round(wall, 1), "violations": len(viol)}
    os.makedirs(os.path.join(ROOT, "evidence"), exist_ok=True)
    json.dump(ev, open(os.path.join(ROOT, "evidence", prop + ".json"), "w"), indent=1)
    if viol:
        os.makedirs(os.path.join(ROOT, "evidence", "replay"), exist_ok=True)
        rp = os.path.join(ROOT, "evidence", "replay", prop + ".txt")
        with open(rp, "w") as fp:
            for f in viol.values():
                fp.write(f"{f.kind} in {f.fn} at {f.loc}\n  implementation {f.variant}, entry {f.root} ({f.how})\n  {f.detail}\n")
        for f in list(viol.values())[:12]: print(f"  {f.kind} {f.variant} {f.fn} {f.loc}: {f.detail[:200]} [{f.how}]")
        print(f"VIOLATION property={prop} replay={rp}")
        return 1
    print(f"{prop}: held; {total.get('roots', 0)} entry points, {total.get('roots_decided_for_all_lengths', 0)} for all lengths, {len(undecided)} bounded/undecided, {len(unconfirmed)} unconfirmed, {wall:.0f} s")
    return 0
