"""Loads the real source files of the package under verification into a private module registry.

The executed code object is compiled from the file on disk on every run.  The only changes:
  * builtins len/range/zip/... are bound to versions that also accept symbolic values,
  * library imports resolve to the axiomatised facades (facades.py),
  * comprehensions and `for` loops over symbolic-length sequences go through listcomp / the loop rule (loops.py),
  * a `while` loop for which the contract gives an invariant is cut at it (loops.py),
  * a bare `except:` becomes `except Exception:`.
The package __init__ (metadata lookup, network version check) is not executed.
"""
import ast, builtins, os, sys, types
import numpy as np
from . import facades as F
from . import loops as L

REPO = os.environ.get("VERIF_REPO", "/repo")


class Desugar(ast.NodeTransformer):
    def __init__(self):
        self.k = 0
        self.nloop = 0
        self.scope, self.nwhile = [], {}

    # comprehensions ------------------------------------------------------
    def _lam(self, target, body):
        a = ast.arguments(posonlyargs=[], args=[ast.arg("__x%d" % self.k)], kwonlyargs=[], kw_defaults=[], defaults=[])
        x = ast.Name("__x%d" % self.k, ast.Load())
        if isinstance(target, ast.Name):
            a.args[0].arg = target.id
            return ast.Lambda(a, body)
        if isinstance(target, (ast.Tuple, ast.List)) and all(isinstance(e, ast.Name) for e in target.elts):
            inner = ast.Lambda(ast.arguments(posonlyargs=[], args=[ast.arg(e.id) for e in target.elts], kwonlyargs=[],
                                             kw_defaults=[], defaults=[]), body)
            return ast.Lambda(a, ast.Call(inner, [ast.Starred(x, ast.Load())], []))
        return None

    def _comp(self, node):
        self.generic_visit(node)
        self.k += 1
        if len(node.generators) != 1 or node.generators[0].is_async: return node
        for s in ast.walk(node.elt):
            if isinstance(s, (ast.NamedExpr, ast.Yield, ast.Await)): return node
        g = node.generators[0]
        l1 = self._lam(g.target, node.elt)
        if l1 is None: return node
        args = [g.iter, l1]
        if g.ifs:
            c = g.ifs[0] if len(g.ifs) == 1 else ast.BoolOp(ast.And(), g.ifs)
            args.append(self._lam(g.target, c))
        return ast.copy_location(ast.Call(ast.Name("__vf_listcomp__", ast.Load()), args, []), node)

    visit_ListComp = _comp

    def visit_GeneratorExp(self, node):
        r = self._comp(node)
        if r is not node: r.func.id = "__vf_genexp__"
        return r

    def visit_ClassDef(self, node):
        # class-level comprehensions may refer to class scope: leave them alone
        body = []
        self.scope.append(node.name)
        for s in node.body:
            body.append(self.visit(s) if isinstance(s, (ast.FunctionDef, ast.ClassDef)) else s)
        self.scope.pop()
        node.body = body
        return node

    def visit_ExceptHandler(self, node):
        self.generic_visit(node)
        if node.type is None:
            node.type = ast.Name("Exception", ast.Load())
        return node

    def visit_FunctionDef(self, node):
        self.scope.append(node.name)
        self.generic_visit(node)
        self.scope.pop()
        return node

    def visit_While(self, node):
        return L.rewrite_while(self.generic_visit(node), self)

    def visit_For(self, node):
        loc = node
        node = self.generic_visit(node)
        return L.rewrite_for(node, self)


SAFE_IMPORTS = None


class Loader:
    def __init__(self, stubs=None, repo=None):
        self.repo = repo or REPO
        self.mods = {}
        self.proxies = {}
        self.ext = F.default_modules()
        self.stubs = stubs or {}
        self.state = None
        self.missing = []
        self.builtins = self._make_builtins()
        self._pkg()

    def _pkg(self):
        m = types.ModuleType("exorad")
        m.__path__ = [os.path.join(self.repo, "exorad")]
        m.__package__ = "exorad"
        for a in ("__pkg_name__", "__title__"): setattr(m, a, "exorad")
        for a in ("__url__", "__author__", "__license__", "__summary__", "__copyright__", "__citation__", "__commit__",
                  "__branch__"):
            setattr(m, a, "x")
        m.__base_dir__ = self.repo
        self.mods["exorad"] = m

    def _make_builtins(self):
        b = dict(builtins.__dict__)
        b.update({"len": F.v_len, "range": F.v_range, "zip": F.v_zip, "enumerate": F.v_enumerate,
                  "reversed": F.v_reversed, "list": F.VList, "tuple": F.VTuple, "sum": F.v_sum,
                  "min": F.v_minmax("min"), "max": F.v_minmax("max"), "any": F.v_any, "all": F.v_all,
                  "abs": F.v_abs, "round": F.v_round, "sorted": F.v_sorted, "isinstance": F.v_isinstance, "hasattr": F.v_hasattr,
                  "map": F.v_map, "float": F.VFloat, "int": F.VInt, "print": lambda *a, **k: None,
                  "__import__": self._import})
        b["__vf_listcomp__"] = F.listcomp
        b["__vf_genexp__"] = F.genexp
        b["__vf_loop__"] = L.loop
        b["__vf_while__"] = L.while_
        return b

    def path_of(self, name):
        p = os.path.join(self.repo, *name.split("."))
        if os.path.isdir(p): return os.path.join(p, "__init__.py"), True
        return p + ".py", False

    def load(self, name):
        m = self.mods.get(name)
        if m is not None: return m
        if "." in name:
            par, _, leaf = name.rpartition(".")
            pm = self.load(par)
            if name in self.mods: return self.mods[name]      # loaded by the package's own imports
        p, ispkg = self.path_of(name)
        if not os.path.exists(p): raise ImportError(name)
        m = types.ModuleType(name)
        m.__file__ = p
        m.__builtins__ = self.builtins
        m.__package__ = name if ispkg else name.rpartition(".")[0]
        if ispkg: m.__path__ = [os.path.dirname(p)]
        self.mods[name] = m
        src = open(p, encoding="utf-8").read()
        tree = ast.parse(src, p)
        d = Desugar()
        tree = d.visit(tree)
        ast.fix_missing_locations(tree)
        exec(compile(tree, p, "exec"), m.__dict__)
        if "." in name:
            if leaf not in pm.__dict__:      # a name bound by the package itself (class re-export) wins
                setattr(pm, leaf, m)
            else:
                setattr(pm, leaf, pm.__dict__[leaf])
        for attr, fn in self.stubs.get(name, {}).items():
            o = m
            parts = attr.split(".")
            try:
                for q in parts[:-1]: o = getattr(o, q)
                getattr(o, parts[-1])
            except AttributeError:
                self.missing.append((name, attr))
                continue
            setattr(o, parts[-1], fn)
        return m

    def _import(self, name, globals=None, locals=None, fromlist=(), level=0):
        if level:
            pkg = globals["__package__"]
            for _ in range(level - 1): pkg = pkg.rpartition(".")[0]
            name = pkg + ("." + name if name else "")
        top = name.split(".")[0]
        if top == "exorad":
            m = self.load(name)
            if fromlist:
                for f in fromlist:
                    if f != "*" and not hasattr(m, f):
                        try:
                            self.load(name + "." + f)
                        except ImportError:
                            pass
                return m
            return self.mods["exorad"]
        if any(s == top or s.startswith(top + ".") for s in self.stubs):
            return self._proxy(name if fromlist else top, name)
        if name in self.ext:
            if fromlist: return self.ext[name]
            return self.ext.get(top) or self.ext[name]
        m = __import__(name, None, None, fromlist, 0)
        if not fromlist and top in self.ext: return self.ext[top]
        return m

    def _proxy(self, name, want):
        """a library module some of whose functions are replaced by an environment stand-in"""
        if name in self.proxies: return self.proxies[name]
        import importlib
        if name in self.ext: real = self.ext[name]
        else:
            try:
                real = importlib.import_module(name)
            except ImportError:
                if name == want: raise
                par, _, leaf = name.rpartition(".")
                real = getattr(importlib.import_module(par), leaf)
        if want != name: importlib.import_module(want)
        p = types.ModuleType(name)
        p.__dict__.update(vars(real))
        if type(real) is not types.ModuleType and hasattr(type(real), "__getattr__"):
            p.__getattr__ = lambda a: getattr(real, a)
        self.proxies[name] = p
        for m, attrs in self.stubs.items():
            if m == name: p.__dict__.update(attrs)
            elif m.startswith(name + "."):
                leaf = m[len(name) + 1:].split(".")[0]
                setattr(p, leaf, self._proxy(name + "." + leaf, name + "." + leaf))
        return p

    # mutable module state ------------------------------------------------
    def snapshot(self):
        self.state = []
        for nm, m in list(self.mods.items()):
            for k, v in list(m.__dict__.items()):
                if isinstance(v, (dict, list, set)) and not k.startswith("__"):
                    self.state.append((v, v.copy()))
        self._known = {n: set(m.__dict__) for n, m in self.mods.items()}
        pv = self.mods.get("exorad.utils.passVal")
        self._pv = dict(pv.PassVal.__dict__) if pv else None

    def reset(self):
        if self.state is None:
            return self.snapshot()
        for v, c in self.state:
            if v != c if not isinstance(v, list) else True:
                if isinstance(v, dict):
                    v.clear(); v.update(c)
                elif isinstance(v, list):
                    v[:] = c
                else:
                    v.clear(); v.update(c)
        pv = self.mods.get("exorad.utils.passVal")
        if pv is not None:
            pv.PassVal.__dict__.clear()
            if self._pv: pv.PassVal.__dict__.update(self._pv)
