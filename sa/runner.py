"""runs the obligations and rules of one property and reports"""
import ast
import json
import os
import time
import multiprocessing as mp
import traceback

from . import terms as t
from . import obs, load, compare
from .terms import Undecided

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))

# external operations whose meaning is fixed by name: using another one of them is a different computation
KNOWN_CALLS = """np.median np.mean np.std np.var np.floor np.ceil np.rint np.round np.sign np.tan np.arctan2 np.arcsin np.arccos np.sinh np.cosh
np.tanh np.arctan np.max np.min np.prod np.cumprod np.any np.all np.unique np.isin np.isnan np.isfinite np.abs np.nan_to_num np.conjugate np.real
np.imag np.cross np.linalg.svd np.linalg.qr np.linalg.slogdet np.linalg.det np.linalg.norm np.linalg.eigh np.linalg.pinv np.linalg.lstsq
np.linalg.cholesky scipy.linalg.cholesky scipy.linalg.svd np.load np.interp np.float64 np.float32 np.longdouble np.int64 builtins.open
np.random.randn np.random.uniform np.random.normal np.random.rand np.random.standard_normal np.random.multivariate_normal np.random.choice
np.random.randint np.random.seed np.random.RandomState np.random.default_rng scipy.stats.norm.ppf scipy.stats.uniform.ppf
scipy.stats.norm.pdf scipy.special.erf scipy.special.lpmv scipy.special.jv scipy.stats.invgamma.pdf scipy.stats.invgamma.rvs
.lower .upper .strip .split .replace .startswith .endswith .format time.time id hash np.fmod np.mod np.floor_divide np.sinc
scipy.special.gammaln scipy.special.gamma random rngnext rngseed""".split()
CORE = """num poly mono sym str bv fv none true false ellipsis pi E I exp log cos sin tan arctan arcsin arccos abs pos nneg eq0 eq is in isinst issub
hasattr truth not and or ite tuple list dict at attr slice scat kw obj pub len keys values items shape ndim random rngnext rng0 rngseed
exc setof ext bi kwargs lam dset dom gst""".split()


def fdefs(tree):
    """{qualname: (lineno, canonical text)} of every function"""
    out = {}

    def walk(n, q):
        for c in ast.iter_child_nodes(n):
            if isinstance(c, (ast.FunctionDef, ast.ClassDef)):
                qq = q + [c.name]
                if isinstance(c, ast.FunctionDef):
                    out[".".join(qq)] = (c.lineno, ast.dump(c))
                walk(c, qq)
            else:
                walk(c, q)
    walk(tree, [])
    return out


def changed_functions(code, ref):
    """functions whose text differs from the reference: candidates for the construct to blame"""
    out = {}
    for name, m in code.I.mods.items():
        r = ref.I.mods.get(name)
        if m.tree is None or r is None or r.tree is None:
            continue
        a, b = fdefs(m.tree), fdefs(r.tree)
        for q, (ln, d) in a.items():
            if q not in b or b[q][1] != d:
                out[(name, ln)] = q
    return out


def vocab_of(outs):
    v = set(CORE) | set(KNOWN_CALLS) | compare.FAMILY
    for o in outs:
        if o.undecided is None:
            for x in [o.ret, o.eff, o.rng] + list(o.over.values()) + [g for g, _ in o.raises]:
                if x is not None:
                    v |= compare.heads(x)
    return frozenset(v)


def safe_run(w, src, opaque):
    try:
        return obs.run(w, src, opaque)
    except (Exception, RecursionError) as e:
        tb = traceback.extract_tb(e.__traceback__)
        where = "%s:%d" % (os.path.basename(tb[-1].filename), tb[-1].lineno)
        w.I.freenames = None
        return obs.Outcome(None, [], {}, None, frozenset(), None, set(), "analysis stopped: %s at %s" % (type(e).__name__, where))


def one_writes(o, r, a, b, t0):
    """writes to anything the calling program passed in, other than those the reference makes by design"""
    extra = []
    if a.undecided is None:
        extra = [t.show(k) for k in sorted(a.over, key=lambda z: z.dig) if a.over[k] is not k and k not in b.over]
        extra += [t.show(m) for m in sorted(a.mut - b.mut, key=lambda z: z.dig)]
    r.update(status="undecided" if a.undecided is not None else "violated" if extra else "discharged", nodes=0, wall=time.time() - t0)
    if a.undecided is not None:
        r["why"] = a.undecided
    if extra:
        r.update(component="state of the caller's objects", why="modifies " + ", ".join(extra)[:400])
    return r


def one_repeats(o, code, ref, other, vocab0):
    """two runs of the analysed code that differ in what is unspecified: the order of sets, identities, hashes, the clock; and no
    random draws where the reference makes none"""
    t0 = time.time()
    a = safe_run(code, o.src, o.opaque)
    r = {"id": o.id, "title": o.title, "functions": sorted({(m, q, ln) for m, q, ln in a.touched}), "spec": False}
    if a.undecided is not None:
        r.update(status="undecided", why=a.undecided, nodes=0, wall=time.time() - t0)
        return r
    b = safe_run(other, o.src, o.opaque)
    compare.ORDERED = True
    try:
        comps = compare.compare(a, b, vocab0 | vocab_of([a, b]) | {"other"})
    except (Undecided, RecursionError) as e:
        comps = [("outcome", compare.Verdict("undecided", str(e) or "comparison too deep"))]
    compare.ORDERED = False
    if a.rng is not None and a.rng.op != "rng0":
        c = safe_run(ref, o.src, o.opaque)
        if c.undecided is None and c.rng is not None and c.rng.op == "rng0":
            comps.append(("random draws", compare.Verdict("different", "draws random numbers", pair=(a.rng, c.rng))))
    return verdict(r, comps, a, t0)


def verdict(r, comps, a, t0):
    st = "discharged"
    for name, v in comps:
        if v.status == "different":
            st = "violated"
            r["component"] = name
            r["why"] = v.why or ""
            if v.pair:
                r["found"], r["expected"] = t.show(v.pair[0], 7)[:1500], t.show(v.pair[1], 7)[:1500]
            if v.case:
                r["case"] = [("" if val else "not ") + t.show(c, 5)[:200] for c, val in v.case.items()]
            break
        if v.status == "undecided" and st == "discharged":
            st = "undecided"
            r["why"] = (v.why + " " if v.why else "") + name
            if v.pair:
                r["found"], r["expected"] = t.show(v.pair[0], 7)[:600], t.show(v.pair[1], 7)[:600]
    r["status"] = st
    r["nodes"] = a.ret.n if a.ret is not None else 0
    r["wall"] = time.time() - t0
    return r


def one(o, code, ref, vocab0):
    if o.repeats:
        return one_repeats(o, code, ref, _G["other"], vocab0)
    t0 = time.time()
    b = safe_run(ref, o.spec if o.spec is not None else o.src, o.opaque)
    a = safe_run(code, o.src, o.opaque)
    r = {"id": o.id, "title": o.title, "functions": sorted({(m, q, ln) for m, q, ln in a.touched}), "spec": o.spec is not None}
    if b.undecided is not None:
        r.update(status="unusable", why=b.undecided, wall=time.time() - t0)
        return r
    vocab = vocab0 | vocab_of([b])
    no = set(o.no)
    if o.writes:
        return one_writes(o, r, a, b, t0)
    kw = {k: (k not in no) for k in ("over", "rng", "raises", "eff", "mut", "ret")}
    try:
        comps = compare.compare(a, b, vocab, **kw)
    except (Undecided, RecursionError) as e:
        comps = [("outcome", compare.Verdict("undecided", str(e) or "comparison too deep"))]
    verdict(r, comps, a, t0)
    if r["status"] == "violated" and o.knownkey:
        k = safe_run(ref, o.known, o.opaque)
        try:
            if k.undecided is None and all(v.status == "equal" for _, v in compare.compare(a, k, vocab | vocab_of([k]), **kw)):
                r["knownkey"] = o.knownkey
        except (Undecided, RecursionError):
            pass
    return r


_G = {}


def _work(chunk):
    out = []
    for i in chunk:
        out.append(one(_G["obs"][i], _G["code"], _G["ref"], _G["vocab"]))
    return out


def run_obs(olist, code, ref, procs=8):
    _G.update(obs=olist, code=code, ref=ref, vocab=frozenset())
    n = len(olist)
    if n == 0:
        return []
    procs = min(procs, n)
    if procs <= 1:
        return _work(range(n))
    chunks = [list(range(k, n, procs * 3)) for k in range(min(procs * 3, n))]
    ctx = mp.get_context("fork")
    with ctx.Pool(procs, initializer=_child) as pool:
        res = pool.map(_work, chunks, chunksize=1)
    flat = [r for c in res for r in c]
    order = {o.id: i for i, o in enumerate(olist)}
    flat.sort(key=lambda r: order[r["id"]])
    return flat


def _child():
    import sys
    sys.setrecursionlimit(40000)


def known_findings():
    """{(property, key): text}"""
    out = {}
    p = os.path.join(HERE, "KNOWN_FINDINGS.txt")
    if os.path.exists(p):
        for line in open(p):
            line = line.strip()
            if line.startswith("finding: "):
                head, text = line[len("finding: "):].split(" :: ", 1)
                w = dict(x.split("=", 1) for x in head.split())
                out[(w["property"], w["key"])] = text
    return out


def check(a):
    t0 = time.time()
    prop = a.property
    code = obs.World(a.repo)
    ref = obs.World(os.path.join(HERE, "ref"))
    ol = load.load(prop)
    _G["other"] = obs.World(a.repo, other=True) if any(o.repeats for o in ol) else None
    if a.only:
        ol = [o for o in ol if any(o.id.startswith(x) for x in a.only.split(","))]
    res = run_obs(ol, code, ref)
    rules = []
    try:
        from . import rules as R
        rules = R.run(prop, code, ref, a)
    except ImportError:
        pass
    changed = changed_functions(code, ref)
    kf = known_findings()
    viol, known = [], []
    for r in res:
        if r["status"] == "violated":
            if (prop, r.get("knownkey")) in kf:
                known.append((r, kf[(prop, r["knownkey"])]))
                continue
            cons = []
            for m, q, ln in r["functions"]:
                if (m, ln) in changed:
                    mod = code.I.mods[m]
                    cons.append("%s:%d %s" % (os.path.relpath(mod.path, a.repo), ln, changed[(m, ln)]))
            r["constructs"] = cons or ["%s:%d %s" % (os.path.relpath(code.I.mods[m].path, a.repo), ln, q) for m, q, ln in r["functions"]][:6]
            viol.append(r)
    for r in rules:
        if r["status"] == "violated":
            k = (prop, r["key"])
            if k in kf:
                known.append((r, kf[k]))
            else:
                viol.append(r)
    n = len(res) + len(rules)
    dis = sum(r["status"] == "discharged" for r in res + rules)
    und = [r for r in res + rules if r["status"] in ("undecided", "unusable")]
    funcs = sorted({(m, q) for r in res for m, q, ln in r["functions"]} | {tuple(f) for r in rules for f in r.get("functions", [])})
    cov = {
        "explanation": "abstract interpretation of /repo's current source into gated value graphs; each obligation is one client program whose "
                       "outcome (value, raised errors, effects, writes to inputs, random draws) is compared, term by term, with the outcome of its "
                       "reference program (hand-written formula when 'spec', otherwise the reviewed reference in /verif/ref); rules are "
                       "syntax/dataflow rules over the whole tree",
        "obligations": n, "discharged": dis, "undecided": len(und), "violated": len(viol) , "known": len(known),
        "observations": len(res), "hand_written_specs": sum(1 for r in res if r["spec"]), "rule_instances": len(rules),
        "functions_analysed": len(funcs), "value_graph_nodes": int(sum(r.get("nodes", 0) for r in res)),
        "functions": ["%s:%s" % f for f in funcs][:400],
        "samples": [{"obligation": r["id"], "title": r["title"], "status": r["status"], "functions": ["%s:%s:%d" % f for f in r["functions"]][:6]} for r in res[:5]]
        + [{"rule": r["key"], "status": r["status"], "where": r.get("where", "")} for r in rules[:5]],
        "undecided_obligations": [{"id": r.get("id") or r.get("key"), "why": r.get("why", "")} for r in und][:50],
    }
    ev = {"property": prop, "tier": "thorough" if a.tier == "thorough" else "quick", "seed": int(os.environ.get("VERIF_SEED", "1")), "level": "other",
          "coverage": cov, "wall_s": round(time.time() - t0, 3),
          "assumptions": ["library calls (numpy, scipy) mean what their documentation says", "module code is reached only through the import graph analysed"],
          "violations": len(viol)}
    if not a.noevidence:
        os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
        with open(os.path.join(HERE, "evidence", prop + ".json"), "w") as f:
            json.dump(ev, f, indent=1)
    for r, text in known:
        print("KNOWN-FINDING: property=%s %s" % (prop, text))
    print("%s: %d obligations, %d discharged, %d undecided, %d violated, %d functions, %.1fs" % (prop, n, dis, len(und), len(viol), len(funcs), time.time() - t0))
    if a.verbose:
        for r in und:
            print("  undecided", r.get("id") or r.get("key"), "|", r.get("why"), "|", r.get("found", "")[:300], "<>", r.get("expected", "")[:300])
    if viol:
        path = os.path.join(HERE, "evidence", "violation_%s.json" % prop)
        if not a.noevidence:
            with open(path, "w") as f:
                json.dump(viol, f, indent=1)
        for r in viol[:8]:
            print("  broken: %s | %s" % (r.get("id") or r.get("key"), r.get("title", "")))
            for c in r.get("constructs", []) or [r.get("where", "")]:
                print("     at", c)
            if r.get("component"):
                print("     component:", r["component"], r.get("why", ""))
            elif r.get("why"):
                print("     why:", r["why"])
            if r.get("found"):
                print("     found:   ", r["found"][:400])
                print("     expected:", r["expected"][:400])
            if r.get("case"):
                print("     when:", "; ".join(r["case"])[:300])
        print("VIOLATION property=%s replay=%s" % (prop, path))
        return 1
    return 0
