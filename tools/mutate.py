#!/usr/bin/env python3
"""developer tool: small syntactic changes of the package; lists those that no obligation notices.
usage: mutate.py SEED N [-f FILE] [-t] (-t: run the repository's tests on survivors)"""
import ast, os, pickle, random, shutil, subprocess, sys, time, argparse, threading, collections
import multiprocessing as mp
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
sys.setrecursionlimit(40000)
threading.stack_size(512 * 1024 * 1024)
from sa import obs, load, runner
HERE = "/verif"
TREE = "/repo"
SKIP = {"enterprise/_version.py", "enterprise/__init__.py", "enterprise/signals/__init__.py"}


def allobs():
    out = []
    for f in sorted(os.listdir(HERE + "/obs")):
        if f.startswith("C") and f.endswith(".txt"):
            for o in load.load(f[:-4]):
                if not o.repeats and not o.writes and "." not in o.id:
                    o.uid = f[:-4] + "." + o.id
                    out.append(o)
    return out


def base_map():
    p = "/tmp/mut_map.pkl"
    stamp = max(os.path.getmtime(os.path.join(HERE, d, f)) for d in ("obs", "sa") for f in os.listdir(os.path.join(HERE, d)))
    if os.path.exists(p) and os.path.getmtime(p) > stamp:
        return pickle.load(open(p, "rb"))
    ol = allobs()
    for o in ol:
        o.id = o.uid
    res = runner.run_obs(ol, obs.World(TREE), obs.World(HERE + "/ref"), procs=7)
    m = collections.defaultdict(list)
    for r in res:
        if r["status"] != "discharged":
            continue
        for mod, q, ln in r["functions"]:
            m[(mod, ln)].append((r.get("wall", 0), r["id"]))
        for mod in {f[0] for f in r["functions"]}:
            m[(mod, None)].append((r.get("wall", 0), r["id"]))
    m = {k: sorted(set(v)) for k, v in m.items()}
    pickle.dump(m, open(p, "wb"))
    return m


CMP = {"Lt": ["<=", ">"], "LtE": ["<", ">"], "Gt": [">=", "<"], "GtE": [">", "<"], "Eq": ["!="], "NotEq": ["=="], "Is": ["is not"], "IsNot": ["is"], "In": ["not in"], "NotIn": ["in"]}
BIN = {"Add": ["-"], "Sub": ["+"], "Mult": ["/"], "Div": ["*"], "Pow": ["*"]}


def mutants(path, src):
    tree = ast.parse(src)
    lines = src.split("\n")
    off = [0]
    for l in lines:
        off.append(off[-1] + len(l.encode()) + 1)
    b = src.encode()
    pos = lambda l, c: off[l - 1] + c
    span = lambda n: (pos(n.lineno, n.col_offset), pos(n.end_lineno, n.end_col_offset))
    text = lambda n: b[slice(*span(n))].decode()
    out = []

    def walk(n, fn, doc):
        if isinstance(n, (ast.FunctionDef, ast.Lambda)) and not isinstance(n, ast.Lambda):
            for d in n.args.defaults + n.args.kw_defaults:
                if d is not None:
                    walk(d, fn + [n.lineno], doc)
            for s in n.body:
                walk(s, fn + [n.lineno], doc)
            for d in n.decorator_list:
                walk(d, fn + [n.lineno], doc)
            return
        add = lambda new, node=n, what="": out.append((span(node)[0], span(node)[1], new, fn, node.lineno))
        if isinstance(n, ast.Raise) or (isinstance(n, ast.Expr) and isinstance(n.value, ast.Constant)):
            return
        if isinstance(n, ast.Expr) and isinstance(n.value, ast.Call) and text(n.value).startswith(("logger", "warnings", "print", "logging")):
            return
        if isinstance(n, ast.Compare) and len(n.ops) == 1:
            for o in CMP[type(n.ops[0]).__name__]:
                add("%s %s %s" % (text(n.left), o, text(n.comparators[0])))
        if isinstance(n, ast.BinOp) and type(n.op).__name__ in BIN and not (isinstance(n.left, ast.Constant) and isinstance(n.left.value, str)):
            for o in BIN[type(n.op).__name__]:
                add("(%s) %s (%s)" % (text(n.left), o, text(n.right)))
        if isinstance(n, ast.BoolOp):
            o = " or " if isinstance(n.op, ast.And) else " and "
            add("(" + o.join("(%s)" % text(v) for v in n.values) + ")")
            for k in range(len(n.values)):
                vs = [v for i, v in enumerate(n.values) if i != k]
                add("(" + (" and " if isinstance(n.op, ast.And) else " or ").join("(%s)" % text(v) for v in vs) + ")")
        if isinstance(n, ast.UnaryOp) and isinstance(n.op, (ast.Not, ast.USub)):
            add("(" + text(n.operand) + ")")
        if isinstance(n, ast.Constant):
            if isinstance(n.value, bool):
                add(str(not n.value))
            elif isinstance(n.value, (int, float)):
                add(repr(n.value + 1))
                if n.value not in (0, 1):
                    add("(-%r)" % n.value)
            elif isinstance(n.value, str) and n.value and len(n.value) < 40:
                add(repr(n.value + "x"))
        if isinstance(n, (ast.If, ast.IfExp, ast.While)):
            add("(not (%s))" % text(n.test), n.test)
            add("True", n.test)
            add("False", n.test)
        if isinstance(n, (ast.Assign, ast.AugAssign)) or (isinstance(n, ast.Expr) and isinstance(n.value, ast.Call)):
            if fn:
                add("pass")
        if isinstance(n, ast.AugAssign) and isinstance(n.op, (ast.Add, ast.Sub, ast.Mult)):
            add("%s = %s" % (text(n.target), text(n.value)))
        if isinstance(n, ast.Call):
            for k in n.keywords:
                if k.arg is not None and len(n.args) + len(n.keywords) > 1:
                    rest = [text(a) for a in n.args] + [text_kw(q) for q in n.keywords if q is not k]
                    add("%s(%s)" % (text(n.func), ", ".join(rest)))
            if len(n.args) == 2 and not n.keywords and not any(isinstance(a, ast.Starred) for a in n.args):
                add("%s(%s, %s)" % (text(n.func), text(n.args[1]), text(n.args[0])))
            if isinstance(n.func, ast.Attribute) and n.func.attr == "copy" and not n.args:
                add(text(n.func.value))
            if isinstance(n.func, ast.Name) and n.func.id in ("sorted", "list", "tuple", "set", "abs", "reversed") and n.args:
                add("(" + text(n.args[0]) + ")")
        if isinstance(n, ast.Return) and n.value is not None and fn:
            add("return None")
        if isinstance(n, ast.Slice):
            if n.lower is not None and n.upper is not None:
                add("%s:" % text(n.lower)); add(":%s" % text(n.upper))
        if isinstance(n, ast.Attribute) and n.attr == "T":
            add(text(n.value))
        if isinstance(n, ast.comprehension):
            for c in n.ifs:
                add("True", c)
        for c in ast.iter_child_nodes(n):
            walk(c, fn, doc)

    def text_kw(k):
        return ("%s=%s" % (k.arg, text(k.value))) if k.arg else "**" + text(k.value)
    for s in tree.body:
        if isinstance(s, (ast.Import, ast.ImportFrom)):
            continue
        walk(s, [], None)
    res = []
    for a, z, new, fn, ln in out:
        old = b[a:z].decode()
        if old == new or b[:a].decode().split("\n")[-1].strip().startswith("@") and False:
            continue
        m = b[:a] + new.encode() + b[z:]
        try:
            ast.parse(m)
        except SyntaxError:
            continue
        res.append((path, ln, fn, old, new, m.decode()))
    return res


_S = {}


def judge(k):
    path, ln, fn, old, new, src = _S["muts"][k]
    d = "/tmp/mut_%d" % os.getpid()
    if not os.path.isdir(d):
        shutil.copytree(TREE + "/enterprise", d + "/enterprise")
    f = os.path.join(d, path)
    open(f, "w").write(src)
    mod = path[:-3].replace("/", ".")
    mp_ = _S["map"]
    ids = []
    if fn:
        for x in fn[::-1]:
            for w, i in mp_.get((mod, x), []):
                if i not in ids:
                    ids.append(i)
            if ids:
                break
    else:
        ids = [i for w, i in mp_.get((mod, None), [])]
    t0 = time.time()
    st, n, und = "survived", 0, []
    try:
        code = obs.World(d)
        for i in ids:
            if time.time() - t0 > 60:
                st = "survived(partial)"
                break
            n += 1
            r = runner.one(_S["obs"][i], code, _S["ref"], frozenset())
            if r["status"] == "violated":
                st = "caught " + i
                break
            if r["status"] != "discharged":
                und.append(i)
    except Exception as e:
        st = "error %r" % (e,)
    shutil.copy(os.path.join(TREE, path), f)
    return k, st, n, und, time.time() - t0


def init():
    sys.setrecursionlimit(40000)


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("seed", type=int); ap.add_argument("n", type=int)
    ap.add_argument("-f"); ap.add_argument("-t", action="store_true"); ap.add_argument("-p", type=int, default=7)
    a = ap.parse_args()
    m = base_map()
    muts = []
    for dp, dn, fs in os.walk(TREE + "/enterprise"):
        for f in sorted(fs):
            p = os.path.relpath(os.path.join(dp, f), TREE)
            if f.endswith(".py") and p not in SKIP and "datafiles" not in p and (not a.f or a.f in p):
                muts += mutants(p, open(os.path.join(dp, f)).read())
    print("mutants", len(muts))
    r = random.Random(a.seed)
    r.shuffle(muts)
    muts = muts[:a.n]
    ol = allobs()
    _S.update(muts=muts, map=m, ref=obs.World(HERE + "/ref"), obs={o.uid: o for o in ol})
    ctx = mp.get_context("fork")
    cnt = collections.Counter()
    surv = []
    with ctx.Pool(a.p, initializer=init) as pool:
        for k, st, n, und, dt in pool.imap_unordered(judge, range(len(muts))):
            cnt[st.split()[0]] += 1
            if not st.startswith("caught"):
                surv.append((k, st, n, und))
    print(dict(cnt))
    surv.sort(key=lambda s: (muts[s[0]][0], muts[s[0]][1]))
    tst = ["?"] * len(surv)
    if a.t:
        with ctx.Pool(a.p) as pool:
            tst = pool.map(tests, [(muts[s[0]][0], muts[s[0]][5]) for s in surv], chunksize=1)
    print("tests", dict(collections.Counter(tst)))
    for (k, st, n, und), tt in zip(surv, tst):
        path, ln, fn, old, new, src = muts[k]
        if tt == "fail":
            continue
        print("%s:%d %s n=%d und=%s" % (path, ln, st, n, ",".join(und[:4])))
        print("    - %s\n    + %s" % (old.replace("\n", "\n      ")[:300], new.replace("\n", "\n      ")[:300]))
    for d in os.listdir("/tmp"):
        if d.startswith("mut_") and os.path.isdir("/tmp/" + d):
            shutil.rmtree("/tmp/" + d)


def tests(arg):
    import json, tempfile
    import xml.etree.ElementTree as ET
    path, src = arg
    d = tempfile.mkdtemp(prefix="mutt_")
    subprocess.run(["cp", "-a", TREE + "/.", d], check=True)
    open(os.path.join(d, path), "w").write(src)
    subprocess.run(["/opt/venv/bin/python", "-m", "pytest", "-q", "-p", "no:cacheprovider", "--timeout=120", "--continue-on-collection-errors", "-o", "junit_family=xunit2", "--junitxml=%s/junit.xml" % d, "tests"],
                   cwd=d, capture_output=True, text=True,
                   env=dict(os.environ, PYTHONDONTWRITEBYTECODE="1", OMP_NUM_THREADS="1", OPENBLAS_NUM_THREADS="1", MPLBACKEND="Agg", PYTHONHASHSEED="0", PYTHONPATH=d))
    ok = set()
    try:
        for c in ET.parse(d + "/junit.xml").iter("testcase"):
            if not any(k.tag in ("failure", "error", "skipped") for k in c):
                ok.add(c.get("classname") + "::" + c.get("name"))
    except Exception:
        pass
    shutil.rmtree(d, ignore_errors=True)
    return "pass" if set(json.load(open("/opt/vp/BASELINE.json"))["stable"]) <= ok else "fail"


if __name__ == "__main__":
    th = threading.Thread(target=main); th.start(); th.join()
