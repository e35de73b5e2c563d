"""Loads /repo's real source into a private universe in which float literals are exact decimals, `/` is exact division and
numpy, scipy, jax, pint, pydantic, math and warnings are the contract models.  The instrumentation is mechanical and drops nothing."""
import ast
import builtins
import copy
import os
import types
from fractions import Fraction as F

from . import gen
from . import shims
from . import sym
from . import terms as tm
from .sym import SReal, Unsupported

REPO = os.environ.get("VF_REPO", "/repo")
PKG = "safe_autonomy_dynamics"
ALLOWED = {"abc", "typing", "typing_extensions", "types", "__future__", "functools", "itertools", "collections", "collections.abc",
           "dataclasses", "copy", "enum", "operator", "numbers", "contextlib", "logging", "inspect", "weakref", "string", "re", "os", "sys", "numpy.typing"}
_code = {}


def stored(nodes):
    """names of the enclosing function that these statements bind"""
    out, todo = set(), list(nodes)
    while todo:
        x = todo.pop()
        if isinstance(x, (ast.FunctionDef, ast.ClassDef)):
            out.add(x.name)
            todo.extend(x.decorator_list)
            continue
        if isinstance(x, (ast.Lambda, ast.ListComp, ast.SetComp, ast.DictComp, ast.GeneratorExp)):
            out |= {y.target.id for y in ast.walk(x) if isinstance(y, ast.NamedExpr)}
            continue
        if isinstance(x, ast.Name) and isinstance(x.ctx, (ast.Store, ast.Del)):
            out.add(x.id)
        elif isinstance(x, (ast.Import, ast.ImportFrom)):
            out |= {(a.asname or a.name).split(".")[0] for a in x.names}
        elif isinstance(x, ast.ExceptHandler) and x.name:
            out.add(x.name)
        todo.extend(ast.iter_child_nodes(x))
    return out


class Instr(ast.NodeTransformer):
    def __init__(self, modname):
        self.mod = modname
        self.stack = []
        self.kinds = []
        self.glob = []
        self.ncomp = 0
        self.lits = {}

    @property
    def infn(self):
        return bool(self.kinds) and self.kinds[-1] == "f"

    def visit_Constant(self, node):
        if type(node.value) is float:
            return ast.copy_location(ast.Call(ast.Name("__vf_lit__", ast.Load()), [ast.Constant(repr(node.value))], []), node)
        return node

    def visit_JoinedStr(self, node):
        return node

    def visit_BinOp(self, node):
        self.generic_visit(node)
        if isinstance(node.op, ast.Div):
            return ast.copy_location(ast.Call(ast.Name("__vf_div__", ast.Load()), [node.left, node.right], []), node)
        return node

    def visit_AugAssign(self, node):
        self.generic_visit(node)
        if isinstance(node.op, ast.Div) and isinstance(node.target, ast.Name):
            return ast.copy_location(ast.Assign([ast.Name(node.target.id, ast.Store())], ast.Call(
                ast.Name("__vf_idiv__", ast.Load()), [ast.Name(node.target.id, ast.Load()), node.value], [])), node)
        return node

    def _fn(self, node):
        self.stack.append(node.name)
        q = ".".join(self.stack)
        node.returns = None
        self.kinds.append("f")
        body = node.body
        node.body = []
        self.kinds[-1] = "d"        # decorators, defaults and annotations belong to the enclosing scope
        self.generic_visit(node)
        self.kinds[-1] = "f"
        self.glob.append({n for x in body for z in ast.walk(x) if isinstance(z, (ast.Global, ast.Nonlocal)) for n in z.names})
        for x in body:
            y = self.visit(x)
            node.body.extend(y if isinstance(y, list) else [] if y is None else [y])
        self.glob.pop()
        self.kinds.pop()
        self.stack.pop()
        mark = ast.copy_location(ast.Expr(ast.Call(ast.Name("__vf_fn__", ast.Load()), [ast.Constant(self.mod + ":" + q)], [])), node)
        i = 1 if node.body and isinstance(node.body[0], ast.Expr) and isinstance(node.body[0].value, ast.Constant) else 0
        node.body.insert(i, mark)
        return node

    visit_FunctionDef = _fn

    def _comp(self, node):
        self.generic_visit(node)
        for g in node.generators:
            g.iter = ast.copy_location(ast.Call(ast.Name("__vf_nogen__", ast.Load()), [g.iter], []), g.iter)
        return node

    visit_SetComp = visit_DictComp = visit_GeneratorExp = _comp

    def visit_ListComp(self, node):
        g = node.generators[0]
        if len(node.generators) > 1 or not self.infn or any(isinstance(x, (ast.NamedExpr, ast.Await)) for x in ast.walk(node)):
            return self._comp(node)
        # [e for t in X if c]  ->  lc(Y, lambda E: [e for t in (E,) if c]) if isgen(Y := X) else [e for t in Y if c]
        self.generic_visit(node)
        self.ncomp += 1
        y, e = "__vf_y%d" % self.ncomp, "__vf_e%d" % self.ncomp
        src = g.iter
        g.iter = ast.Name(y, ast.Load())
        one = copy.deepcopy(node)
        one.generators[0].iter = ast.Tuple([ast.Name(e, ast.Load())], ast.Load())
        lam = ast.Lambda(ast.arguments([], [ast.arg(e)], None, [], [], None, []), one)
        test = ast.Call(ast.Name("__vf_isgen__", ast.Load()), [ast.NamedExpr(ast.Name(y, ast.Store()), src)], [])
        return ast.copy_location(ast.IfExp(test, ast.Call(ast.Name("__vf_lc__", ast.Load()), [ast.Name(y, ast.Load()), lam], []), node), node)

    def visit_ClassDef(self, node):
        self.stack.append(node.name)
        self.kinds.append("c")
        self.generic_visit(node)
        self.kinds.pop()
        self.stack.pop()
        return node

    def visit_For(self, node):
        # a loop over a sequence of symbolic length: the variables its body assigns are unbound before and after it (vf.gen)
        self.generic_visit(node)
        if not self.infn:
            return node
        self.ncomp += 1
        y = "__vf_y%d" % self.ncomp
        names = sorted(stored([node.target] + node.body) - self.glob[-1])

        def unbind():
            return ast.If(ast.Call(ast.Name("__vf_isgen__", ast.Load()), [ast.Name(y, ast.Load())], []),
                          [ast.Assign([ast.Name(n, ast.Store()) for n in names], ast.Constant(None)), ast.Delete([ast.Name(n, ast.Del()) for n in names])], [])
        out = [ast.Assign([ast.Name(y, ast.Store())], node.iter)]
        node.iter = ast.Name(y, ast.Load())
        if names:
            out.append(unbind())
            node.orelse.insert(0, unbind())
        for x in out + node.orelse[:1 if names else 0]:
            ast.copy_location(x, node)
        return out + [node]

    def visit_Lambda(self, node):
        self.kinds.append("l")
        self.generic_visit(node)
        self.kinds.pop()
        return node

    def visit_match_case(self, node):
        # patterns stay as they are (their comparisons with symbolic values fork like any other)
        if node.guard is not None:
            node.guard = self.visit(node.guard)
        body = []
        for x in node.body:
            y = self.visit(x)
            body.extend(y if isinstance(y, list) else [y])
        node.body = body
        return node


_lits = {}


def lit(s):
    v = _lits.get(s)
    if v is None:
        f = float(s)
        v = _lits[s] = SReal(tm.const(F(s))) if f == f and abs(f) != float("inf") else SReal(sym.exact(f))
    return v


def idiv(a, b):
    import numpy as np
    if isinstance(a, np.ndarray):
        a /= b
        return a
    return shims.div(a, b)


def module_path(name, repo=None):
    p = os.path.join(repo or REPO, *name.split("."))
    if os.path.isdir(p):
        return os.path.join(p, "__init__.py"), True
    return p + ".py", False


def get_code(name):
    if name in _code:
        return _code[name]
    path, pkg = module_path(name)
    if not os.path.exists(path):
        if pkg:      # namespace package directory without __init__
            _code[name] = (compile("", path, "exec"), path, True)
            return _code[name]
        raise ModuleNotFoundError("No module named %r" % name)
    src = open(path).read()
    tree = ast.parse(src, path)
    ins = Instr(name[len(PKG) + 1:] if name != PKG else PKG)
    tree = ins.visit(tree)
    ast.fix_missing_locations(tree)
    _code[name] = (compile(tree, path, "exec"), path, pkg)
    return _code[name]


def all_functions():
    """every function of the package (module:qualname), from the current source"""
    out = []
    root = os.path.join(REPO, PKG)
    for d, _, fs in os.walk(root):
        for f in fs:
            if not f.endswith(".py"):
                continue
            p = os.path.join(d, f)
            m = os.path.relpath(p, REPO)[:-3].replace(os.sep, ".")
            if m.endswith(".__init__"):
                m = m[:-9]
            short = m[len(PKG) + 1:] or PKG

            def walk(node, st):
                for c in ast.iter_child_nodes(node):
                    if isinstance(c, (ast.FunctionDef, ast.ClassDef)):
                        if isinstance(c, ast.FunctionDef):
                            out.append(short + ":" + ".".join(st + [c.name]))
                        walk(c, st + [c.name])
                    else:
                        walk(c, st)
            walk(ast.parse(open(p).read()), [])
    return sorted(out)


class Universe:
    def __init__(self, stubs=None, on_fn=None):
        self.mods = {}
        self.stubs = stubs or {}
        self.on_fn = on_fn or (lambda q: None)
        self.shims = shims.make_shims(self)
        b = dict(vars(builtins))
        b.update({"float": shims.vfloat, "int": shims.vint, "min": shims.vmin, "max": shims.vmax, "sum": shims.vsum, "round": shims.vround,
                  "pow": shims.vpow, "print": lambda *a, **k: None, "__import__": self._import, "open": self._forbid("open"),
                  "len": gen.vlen, "range": gen.vrange, "enumerate": gen.venumerate, "zip": gen.vzip,
                  "eval": self._forbid("eval"), "exec": self._forbid("exec"), "input": self._forbid("input")})
        self.builtins = b

    def _forbid(self, what):
        def f(*a, **k):
            raise Unsupported(what)
        return f

    def module_dict(self, name):
        m = self.mods.get(name)
        return m.__dict__ if m is not None else dict(self.builtins)

    def _import(self, name, globals=None, locals=None, fromlist=(), level=0):
        if level:
            pkg = globals["__package__"].split(".")
            pkg = pkg[:len(pkg) - level + 1]
            name = ".".join(pkg + ([name] if name else []))
        if name == PKG or name.startswith(PKG + "."):
            m = self.load(name)
            if fromlist:
                for f in fromlist:
                    if f != "*" and not hasattr(m, f):
                        try:
                            self.load(name + "." + f)
                        except ModuleNotFoundError:
                            pass
                return m
            return self.load(PKG)
        if name in self.shims:
            if fromlist or "." not in name:
                return self.shims[name]
            return self.shims[name.split(".")[0]]
        if name.split(".")[0] in ("numpy", "scipy", "jax", "pint", "pydantic", "jaxlib"):
            raise Unsupported("import of " + name)
        if name in ALLOWED or name.split(".")[0] in ALLOWED:
            return builtins.__import__(name, globals, locals, fromlist, level)
        raise Unsupported("import of " + name)

    def load(self, name):
        m = self.mods.get(name)
        if m is not None:
            return m
        parent = name.rpartition(".")[0]
        if parent:
            pm = self.load(parent)
            if name in self.mods:
                return self.mods[name]
        code, path, pkg = get_code(name)
        m = types.ModuleType(name)
        m.__dict__.update({"__builtins__": self.builtins, "__file__": path, "__package__": name if pkg else parent, "__vf_lit__": lit,
                           "__vf_div__": shims.div, "__vf_idiv__": idiv, "__vf_fn__": self.on_fn, "__vf_isgen__": gen.isgen,
                           "__vf_lc__": gen.lc, "__vf_nogen__": gen.nogen})
        if pkg:
            m.__path__ = []
        self.mods[name] = m
        exec(code, m.__dict__)  # noqa: S102
        for k, (mod, fname, repl) in self.stubs.items():
            if mod == name and fname in m.__dict__:
                m.__dict__[fname] = repl(m.__dict__[fname])
        if parent:
            setattr(pm, name.rpartition(".")[2], m)
        return m
