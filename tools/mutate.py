#!/usr/bin/env python3
"""Mutation campaign: how many small changes of the code do the checks notice?

  mutate.py list [FILE...]                 print the mutants
  mutate.py run OUT.jsonl [-j N] [-n MAX_PER_FUNCTION] [-s SEED] [--stable] [FILE...]

Works on copies of /repo/src and /verif in a scratch directory; a development tool, not a check.
"""
import ast, json, os, random, re, shutil, subprocess, sys, tempfile, time
from concurrent.futures import ThreadPoolExecutor, as_completed

HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
ROOT = "/repo/src/diffpy/srmise/"
CHECKS = {
    "dataclusters.py": "C01 C02 C03", "modelparts.py": "C09 C16 C21 C05 C10 C04 C13", "basefunction.py": "C15 C16 C09 C17 C23",
    "multimodelselection.py": "C12 C26", "pdfdataset.py": "C18 C22", "pdfpeakextraction.py": "C30 C29 C14 C22 C13 C03 C25 C26",
    "peakextraction.py": "C30 C29 C14 C13 C03 C22 C26", "peakstability.py": "C20 C26", "srmiselog.py": "C19",
    "applications/extract.py": "C24", "applications/plot.py": "C26 C24",
    "baselines/arbitrary.py": "C23 C15", "baselines/base.py": "C23 C15 C16", "baselines/fromsequence.py": "C23 C15",
    "baselines/nanospherical.py": "C23 C17 C15", "baselines/polynomial.py": "C23 C15 C17",
    "modelevaluators/aic.py": "C11", "modelevaluators/aicc.py": "C11", "modelevaluators/base.py": "C11",
    "peaks/base.py": "C09 C17 C21 C15 C16", "peaks/gaussian.py": "C27 C17 C16 C21 C15 C03", "peaks/gaussianoverr.py": "C27 C17 C16 C21 C15 C03",
    "peaks/terminationripples.py": "C28 C16 C15 C22 C17",
}
MC = {  # methods of modelcluster.py
    "ModelCovariance": "C10 C22", "fit": "C04 C03", "contingent_fit": "C04", "prune": "C05 C03", "augment": "C06 C03",
    "join_adjacent": "C07", "reduce_to": "C21", "factory": "C13", "writestr": "C13", "quality": "C11 C04", "npars": "C09 C04",
}
SKIPF = re.compile(r"^(display|printme|pyplot|main_plot|__str__)")


def checks_for(f, qual):
    if qual in ("find_qmax", "stdratio"):
        return ["C31"]
    if f != "modelcluster.py":
        return CHECKS.get(f, "").split()
    p = qual.split(".")
    if p[0] == "ModelCovariance":
        return MC[p[0]].split()
    return (MC.get(p[-1], "") + " C08 C07 C04 C05 C06 C21 C03 C26 C30 C29").split()


def mutants(f):
    src = open(ROOT + f).read()
    tree = ast.parse(src)
    lines = src.splitlines(True)
    off = [0]
    for l in lines:
        off.append(off[-1] + len(l.encode()))
    b = src.encode()

    def pos(n):
        return off[n.lineno - 1] + n.col_offset, off[n.end_lineno - 1] + n.end_col_offset

    out = []

    def add(n, new, what, qual):
        s, e = pos(n)
        old = b[s:e].decode()
        if old != new:
            out.append({"file": f, "fn": qual, "line": n.lineno, "s": s, "e": e, "old": old, "new": new, "what": what})

    def seg(n):
        s, e = pos(n)
        return b[s:e].decode()

    def noisy(n):
        t = seg(n)
        return bool(re.match(r"(logger|logging|print|warnings|plt|log)\b", t))

    CMP = {ast.Lt: "<=", ast.LtE: "<", ast.Gt: ">=", ast.GtE: ">", ast.Eq: "!=", ast.NotEq: "==", ast.Is: "is not",
           ast.IsNot: "is", ast.In: "not in", ast.NotIn: "in"}
    BIN = {ast.Add: "-", ast.Sub: "+", ast.Mult: "/", ast.Div: "*", ast.FloorDiv: "/", ast.Pow: "*"}

    def visit(n, qual, inraise=False):
        if isinstance(n, (ast.FunctionDef, ast.ClassDef)):
            q = (qual + "." if qual else "") + n.name
            if isinstance(n, ast.FunctionDef) and SKIPF.match(n.name):
                return
            for i, c in enumerate(n.body):
                if i == 0 and isinstance(c, ast.Expr) and isinstance(c.value, ast.Constant):
                    continue
                visit(c, q)
            for d in getattr(getattr(n, "args", None), "defaults", []):
                visit(d, q)
            return
        if isinstance(n, ast.Expr) and isinstance(n.value, ast.Call) and noisy(n.value):
            return
        if isinstance(n, (ast.Import, ast.ImportFrom, ast.Raise, ast.JoinedStr)):
            if isinstance(n, ast.Raise) and qual:
                add(n, "pass", "no raise", qual)
            return
        if isinstance(n, ast.If) and isinstance(n.test, ast.Compare) and "__name__" in seg(n.test):
            return
        if not qual and not isinstance(n, (ast.If, ast.Try)):
            return
        if isinstance(n, (ast.Assign, ast.AugAssign)) and qual:
            if isinstance(n, ast.AugAssign) or not isinstance(n.targets[0], ast.Name):
                add(n, "pass", "statement removed", qual)
        if isinstance(n, ast.Expr) and isinstance(n.value, ast.Call):
            add(n, "pass", "call removed", qual)
        if isinstance(n, (ast.Continue, ast.Break)):
            add(n, "pass", "jump removed", qual)
        if isinstance(n, (ast.If, ast.While, ast.IfExp)):
            t = n.test
            if not noisy(t):
                add(t, "(not (%s))" % seg(t), "condition negated", qual)
        if isinstance(n, ast.BoolOp):
            op = " or " if isinstance(n.op, ast.And) else " and "
            add(n, "(" + op.join("(%s)" % seg(v) for v in n.values) + ")", "and/or", qual)
            for i in range(len(n.values)):
                r = n.values[:i] + n.values[i + 1:]
                add(n, "(" + (" and " if isinstance(n.op, ast.And) else " or ").join("(%s)" % seg(v) for v in r) + ")",
                    "operand dropped", qual)
        if isinstance(n, ast.Compare) and len(n.ops) == 1:
            o = CMP.get(type(n.ops[0]))
            if o:
                add(n, "%s %s %s" % (seg(n.left), o, seg(n.comparators[0])), "comparison", qual)
        if isinstance(n, ast.BinOp) and type(n.op) in BIN and not (
                isinstance(n.left, ast.Constant) and isinstance(n.left.value, str)) and not isinstance(n.left, ast.JoinedStr):
            add(n, "(%s %s %s)" % (seg(n.left), BIN[type(n.op)], seg(n.right)), "operator", qual)
        if isinstance(n, ast.Constant):
            if isinstance(n.value, bool):
                add(n, str(not n.value), "constant", qual)
            elif isinstance(n.value, int):
                add(n, str(n.value + 1), "constant", qual)
                if n.value > 0:
                    add(n, str(n.value - 1), "constant", qual)
            elif isinstance(n.value, float):
                add(n, repr(n.value * 1.5 + 0.1), "constant", qual)
            return
        if isinstance(n, ast.UnaryOp) and isinstance(n.op, (ast.USub, ast.Not)):
            add(n, "(%s)" % seg(n.operand), "sign/not", qual)
        if isinstance(n, ast.Call):
            if isinstance(n.func, ast.Attribute) and n.func.attr == "copy" and not n.args:
                add(n, seg(n.func.value), "copy removed", qual)
            if isinstance(n.func, ast.Attribute) and isinstance(n.func.value, ast.Name) and n.func.value.id == "copy":
                add(n, seg(n.args[0]), "copy removed", qual)
            if isinstance(n.func, ast.Attribute) and n.func.attr in ("array", "concatenate") and n.args and False:
                add(n, seg(n.args[0]), "array copy removed", qual)
            for k in n.keywords:
                if k.arg and len(n.args) + len(n.keywords) > 1:
                    kept = [seg(a) for a in n.args] + [("%s=%s" % (x.arg, seg(x.value)) if x.arg else "**" + seg(x.value))
                                                      for x in n.keywords if x is not k]
                    add(n, "%s(%s)" % (seg(n.func), ", ".join(kept)), "keyword dropped", qual)
            if isinstance(n.func, ast.Name) and n.func.id in ("max", "min", "any", "all"):
                add(n.func, {"max": "min", "min": "max", "any": "all", "all": "any"}[n.func.id], "call swapped", qual)
            if isinstance(n.func, ast.Attribute) and n.func.attr in ("max", "min", "any", "all", "argmin", "argmax", "append"):
                pass
        if isinstance(n, ast.Slice):
            pass
        for c in ast.iter_child_nodes(n):
            visit(c, qual)

    for n in tree.body:
        if isinstance(n, (ast.FunctionDef, ast.ClassDef)):
            visit(n, "")
    seen, res = set(), []
    for m in out:
        k = (m["s"], m["e"], m["new"])
        if k in seen:
            continue
        seen.add(k)
        t = b[:m["s"]] + m["new"].encode() + b[m["e"]:]
        try:
            ast.parse(t)
        except SyntaxError:
            continue
        res.append(m)
    return res


COST = "C25 C11 C23 C05 C06 C15 C20 C12 C17 C24 C07 C08 C21 C13 C09 C10 C16 C04 C14 C19 C18 C01 C02 C22 C26 C03".split()


def plan(m, lines):
    """Checks to run on a mutant: those meant for its place, then any other that executes it."""
    c = checks_for(m["file"], m["fn"])
    if lines is None:
        return c
    at = set()
    for l in range(m["line"], m["line"] + m["old"].count("\n") + 1):
        at.update(lines.get(m["file"], {}).get(str(l), ()))
    if m["file"] in ("srmiselog.py", "applications/plot.py"):
        at.update(c)
    c = [x for x in c if x in at]
    return sorted(c, key=lambda x: x in ("C03", "C22"))


def prepare(work):
    os.makedirs(work)
    shutil.copytree("/repo/src", work + "/repo/src")
    for d in ("checks", "lib", "spec"):
        shutil.copytree(VERIF + "/" + d, work + "/verif/" + d)
    shutil.copy(VERIF + "/known_findings.txt", work + "/verif")
    p = work + "/verif/lib/vlib.py"
    t = open(p).read()  # the exploration of the specifications does not depend on the code
    t = t.replace('        """Exhaustively check a small configuration of the specification itself."""\n',
                  '        if workers != 1:\n            return None\n', 1)
    open(p, "w").write(t.replace("workers=8", "workers=2").replace("-XX:+UseParallelGC", "-XX:+UseSerialGC"))


def run_one(work, m, only=None):
    p = work + "/repo/src/diffpy/srmise/" + m["file"]
    src = open(ROOT + m["file"], "rb").read()
    open(p, "wb").write(src[:m["s"]] + m["new"].encode() + src[m["e"]:])
    res = {}
    caught = None
    env = dict(os.environ, VERIF_REPO=work + "/repo", VERIF_SEED="1")
    env.pop("VERIF_TIER", None)
    try:
        for c in dict.fromkeys(only or m["plan"]):
            t = time.time()
            try:
                q = subprocess.run(["python3", work + "/verif/checks/run.py", c, "quick"], env=env, stdout=subprocess.PIPE,
                                   stderr=subprocess.STDOUT, timeout=400, cwd=work)
                res[c] = [q.returncode, round(time.time() - t)]
                if q.returncode == 1:
                    caught = c
                    m["how"] = q.stdout.decode("utf8", "replace").strip().splitlines()[0][:200]
                    break
            except subprocess.TimeoutExpired:
                res[c] = ["timeout", 400]
    finally:
        open(p, "wb").write(src)
    return dict(m, res=res, caught=caught)


def main():
    a = sys.argv[1:]
    mode = a.pop(0)
    j, nmax, seed, only = 5, 10 ** 9, 1, None
    files, lines, fnre = [], None, None
    out = a.pop(0) if mode == "run" else None
    base = tempfile.mkdtemp(prefix="mut-", dir="/tmp")
    global ROOT
    shutil.copytree("/repo/src", base + "/src")  # the code as it was at the start
    ROOT = base + "/src/diffpy/srmise/"
    while a:
        x = a.pop(0)
        if x == "-j":
            j = int(a.pop(0))
        elif x == "-n":
            nmax = int(a.pop(0))
        elif x == "-s":
            seed = int(a.pop(0))
        elif x == "-l":  # {file: {line: [checks executing it]}}
            lines = json.load(open(a.pop(0)))
        elif x == "-f":  # only functions whose name matches
            fnre = re.compile(a.pop(0))
        elif x == "-c":
            only = a.pop(0).split(",")
        else:
            files.append(x)
    ms = []
    for f in files or list(CHECKS) + ["modelcluster.py"]:
        by = {}
        for m in mutants(f):
            if not fnre or fnre.search(m["fn"]):
                by.setdefault(m["fn"], []).append(m)
        rng = random.Random("%s-%d" % (f, seed))
        for fn in by:
            l = by[fn]
            ms += rng.sample(l, nmax) if len(l) > nmax else l
    for m in ms:
        m["plan"] = plan(m, lines)
    if mode == "list":
        for m in ms:
            print(m["file"], m["fn"], m["line"], m["what"], "|", m["old"][:60].replace("\n", " "), "->", m["new"][:60].replace("\n", " "))
        print(len(ms))
        shutil.rmtree(base)
        return
    done = set()
    if os.path.exists(out):
        for l in open(out):
            d = json.loads(l)
            done.add((d["file"], d["s"], d["e"], d["new"]))
    ms = [m for m in ms if (m["file"], m["s"], m["e"], m["new"]) not in done]
    import queue
    pool = queue.Queue()
    for i in range(j):
        prepare("%s/%d" % (base, i))
        pool.put("%s/%d" % (base, i))

    def work(m):
        w = pool.get()
        try:
            return run_one(w, m, only)
        finally:
            pool.put(w)

    with ThreadPoolExecutor(j) as ex, open(out, "a") as o:
        for r in as_completed([ex.submit(work, m) for m in ms]):
            r = r.result()
            o.write(json.dumps(r) + "\n")
            o.flush()
    shutil.rmtree(base)


if __name__ == "__main__":
    main()
