"""mutation campaign: first-order changes of the package's source that pass the tests -> do the checks see them?
usage: mutate.py OUT.jsonl worker nworkers seed count file[,file...]"""
import ast, json, os, random, shutil, subprocess, sys, time
OUT, W, NW, SEED, COUNT, FILES = sys.argv[1], int(sys.argv[2]), int(sys.argv[3]), int(sys.argv[4]), int(sys.argv[5]), sys.argv[6].split(",")
BASE = "/tmp/mut/w%d" % W
REPO, VER = BASE + "/repo", BASE + "/verif"
P = "safe_autonomy_dynamics/"
F16 = ["C24", "C23", "C22", "C21", "C25", "C26", "C27", "C28"]
CH = {"base_models.py": "C04 C06 C01 C05 C09 C10 C13 C11 C12 C02 C03 C20 C18 C07 C08", "cwh/point_model.py": "C15 C14 C11 C13 C10 C02 C20 C07 C12 C01 C08 C04 C18",
      "cwh/rotational_model.py": "C16 C15 C14 C03 C11 C13 C18 C20 C10 C02 C05 C12 C01 C08", "cwh/sixdof_model.py": "C17 C15 C14 C03 C11 C13 C18 C20 C10 C02 C05 C12 C01 C08 C16",
      "cwh/sun_model.py": "C20 C11 C13 C10 C02 C07 C08 C12 C01 C15", "dubins.py": "C19 C11 C13 C03 C18 C20 C10 C02 C05 C12 C01 C08",
      "integrators.py": "C20 C11 C13 C10 C02 C12 C01 C08 C04 C18", "utils.py": "C12 C11 C18 C20"}


def checks(f):
    return CH[f].split() if f in CH else (["C27", "C28", "C24", "C25", "C22"] if f.endswith("util.py") else ["C25", "C24", "C27", "C28"] if "controlled" in f else
                                          ["C25", "C24", "C27", "C28", "C10"] if "low_level_c" in f else F16)


CMP = {ast.Lt: "<=", ast.LtE: "<", ast.Gt: ">=", ast.GtE: ">", ast.Eq: "!=", ast.NotEq: "==", ast.Is: "is not", ast.IsNot: "is", ast.In: "not in", ast.NotIn: "in"}
CMP2 = {ast.Lt: ">", ast.LtE: ">=", ast.Gt: "<", ast.GtE: "<="}
BIN = {ast.Add: "-", ast.Sub: "+", ast.Mult: "/", ast.Div: "*", ast.Pow: "*", ast.Mod: "+", ast.MatMult: "*"}


def sites(src):
    tree = ast.parse(src)
    off = [0]
    for ln in src.split("\n"):
        off.append(off[-1] + len(ln.encode()) + 1)
    pos = lambda n: (off[n.lineno - 1] + n.col_offset, off[n.end_lineno - 1] + n.end_col_offset)  # noqa: E731
    b = src.encode()
    seg = lambda n: b[slice(*pos(n))].decode()  # noqa: E731
    out = []

    def rep(n, new, why):
        out.append((*pos(n), new, why, n.lineno))

    def visit(n, infn):
        if isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef)):
            for x in n.args.defaults + n.args.kw_defaults:
                if x is not None:
                    visit(x, True)
            for x in n.body:
                visit(x, True)
            for d in n.decorator_list:
                if seg(d) not in ("property",) and "abstract" not in seg(d) and "setter" not in seg(d):
                    visit(d, True)
            return
        if isinstance(n, ast.AnnAssign):
            if n.value is not None:
                visit(n.value, infn)
            return
        if isinstance(n, ast.Expr) and isinstance(n.value, ast.Constant):
            return
        if isinstance(n, ast.JoinedStr) or isinstance(n, (ast.Import, ast.ImportFrom)):
            return
        if isinstance(n, ast.Raise):
            return
        if isinstance(n, ast.Compare) and len(n.ops) == 1:
            for t in (CMP, CMP2):
                o = t.get(type(n.ops[0]))
                if o:
                    rep(n, "(%s %s %s)" % (seg(n.left), o, seg(n.comparators[0])), "cmp")
        if isinstance(n, ast.BinOp):
            o = BIN.get(type(n.op))
            if o and not (isinstance(n.left, ast.Constant) and isinstance(n.left.value, str)):
                rep(n, "(%s %s %s)" % (seg(n.left), o, seg(n.right)), "bin")
            if isinstance(n.op, (ast.Add, ast.Sub)):
                rep(n, seg(n.left), "drop right")
        if isinstance(n, ast.UnaryOp) and isinstance(n.op, (ast.USub, ast.Not)):
            rep(n, seg(n.operand), "unary")
        if isinstance(n, ast.BoolOp):
            o = " or " if isinstance(n.op, ast.And) else " and "
            rep(n, "(" + o.join("(%s)" % seg(v) for v in n.values) + ")", "bool")
        if isinstance(n, ast.Constant):
            v = n.value
            if v is True or v is False:
                rep(n, str(not v), "const")
            elif isinstance(v, int):
                rep(n, str(v + 1), "const")
                if v > 0:
                    rep(n, str(v - 1), "const")
            elif isinstance(v, float):
                rep(n, repr(v * 1.01 + (0.01 if v == 0 else 0)), "const")
        if isinstance(n, ast.If):
            rep(n.test, "not (%s)" % seg(n.test), "negate")
            rep(n.test, "True", "always")
            rep(n.test, "False", "never")
        if isinstance(n, ast.IfExp):
            rep(n, seg(n.body), "ifexp")
            rep(n, seg(n.orelse), "ifexp")
        if isinstance(n, ast.Call):
            if isinstance(n.func, ast.Attribute) and n.func.attr in ("copy", "flatten", "astype", "inv", "T", "squeeze", "conjugate"):
                rep(n, seg(n.func.value), "drop ." + n.func.attr)
            elif len(n.args) >= 1 and not isinstance(n.args[0], ast.Starred):
                rep(n, seg(n.args[0]), "call->arg0")
            for k in n.keywords:
                if k.arg:
                    new = [seg(a) for a in n.args] + [("%s=%s" % (q.arg, seg(q.value)) if q.arg else "**" + seg(q.value)) for q in n.keywords if q is not k]
                    rep(n, "%s(%s)" % (seg(n.func), ", ".join(new)), "drop kw " + k.arg)
            if len(n.args) >= 2:
                a = [seg(x) for x in n.args]
                a[0], a[1] = a[1], a[0]
                rep(n, "%s(%s)" % (seg(n.func), ", ".join(a + [("%s=%s" % (q.arg, seg(q.value)) if q.arg else "**" + seg(q.value)) for q in n.keywords])), "swap args")
        if infn and isinstance(n, (ast.Assign, ast.AugAssign, ast.Expr)) and not isinstance(getattr(n, "targets", [None])[0], ast.Name):
            rep(n, "pass", "delete")
        if isinstance(n, ast.AugAssign):
            o = BIN.get(type(n.op))
            rep(n, "%s %s= %s" % (seg(n.target), o, seg(n.value)), "aug")
        if infn and isinstance(n, ast.Return) and n.value is not None:
            pass
        if isinstance(n, ast.ClassDef):
            for x in n.body:
                visit(x, False)
            return
        for c in ast.iter_child_nodes(n):
            visit(c, infn)
    visit(tree, False)
    return out, b


def sh(cmd, cwd, env=None, t=900):
    try:
        r = subprocess.run(cmd, shell=True, cwd=cwd, capture_output=True, text=True, env={**os.environ, **(env or {})}, timeout=t)
        return r.returncode, r.stdout + r.stderr
    except subprocess.TimeoutExpired:
        return 99, "timeout"


os.makedirs(BASE, exist_ok=True)
for d, s in ((REPO, "/repo"), (VER, "/verif")):
    if os.path.exists(d):
        shutil.rmtree(d)
    shutil.copytree(s, d, symlinks=True, ignore=shutil.ignore_patterns(".git", "seeded", "out"))
allm = []
for f in FILES:
    s, b = sites(open("/repo/" + P + f).read())
    allm += [(f, *x) for x in s]
random.Random(SEED).shuffle(allm)
done = set()
if os.path.exists(OUT):
    done = {tuple(json.loads(x)["id"]) for x in open(OUT)}
mine = [m for i, m in enumerate(allm[:COUNT]) if i % NW == W]
for f, a, e, new, why, line in mine:
    mid = (f, a, e, new)
    if mid in done:
        continue
    src = open("/repo/" + P + f, "rb").read()
    mut = src[:a] + new.encode() + src[e:]
    try:
        compile(mut, f, "exec")
    except SyntaxError:
        continue
    open(REPO + "/" + P + f, "wb").write(mut)
    env = {"PYTHONDONTWRITEBYTECODE": "1", "PYTHONPATH": REPO, "JAX_PLATFORMS": "cpu", "OMP_NUM_THREADS": "1"}
    rc, o = sh("/opt/venv/bin/python -m pytest test -q -p no:cacheprovider --continue-on-collection-errors 2>&1 | tail -3", REPO, env, 120)
    ok = " failed" not in o and "175 passed" in o
    rec = {"id": mid, "line": line, "why": why, "old": src[a:e].decode()[:200], "new": new[:200], "tests": ok}
    if ok:
        rec["by"] = None
        for c in checks(f):
            rc, o = sh("./check.py %s --tier quick --jobs 3" % c, VER, {"VF_REPO": REPO, "PYTHONDONTWRITEBYTECODE": "1", "VERIF_SEED": "1"})
            if rc == 1:
                rec["by"] = c
                rec["nfi"] = "no-failing" in o and all(ln.endswith("found") for ln in o.splitlines() if ln.startswith("VIOLATION"))
                if not rec["nfi"]:
                    break
            elif rc != 0:
                rec.setdefault("odd", []).append((c, rc, o[-300:]))
            if "UNDECIDED" in o:
                rec.setdefault("und", []).append(c)
    open(REPO + "/" + P + f, "wb").write(src)
    with open(OUT, "a") as g:
        g.write(json.dumps(rec) + "\n")
