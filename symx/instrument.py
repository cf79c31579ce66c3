"""Loads /repo/src modules with their AST rewritten so that symbolic values survive the places
where CPython leaves Python code.  The rewriting is semantics-preserving for ordinary values."""
import ast
import builtins
import importlib.abc
import importlib.machinery
import importlib.util
import os
import sys

P = "_sx_"
UNTOUCHED_CALLS = {"super", "locals", "vars", "globals", "dir", "eval", "exec", "__import__"}


def simple(node):
    """Expression that may be evaluated speculatively: no calls (except len/isinstance/getattr of
    simple arguments), no walrus, no yield, no await."""
    for n in ast.walk(node):
        if isinstance(n, (ast.NamedExpr, ast.Yield, ast.YieldFrom, ast.Await, ast.Lambda, ast.ListComp,
                          ast.SetComp, ast.DictComp, ast.GeneratorExp, ast.Starred)):
            return False
        if isinstance(n, ast.Call):
            if not (isinstance(n.func, ast.Name) and n.func.id in ("len", "isinstance", "bool", "int", "abs", "all", "any")):
                return False
    return True


def lazy_ok(node):
    for n in ast.walk(node):
        if isinstance(n, (ast.NamedExpr, ast.Yield, ast.YieldFrom, ast.Await)):
            return False
        if isinstance(n, ast.Call) and isinstance(n.func, ast.Name) and n.func.id in UNTOUCHED_CALLS:
            return False
        if isinstance(n, ast.Name) and n.id == "__class__":
            return False
    return True


BANNED = (ast.Yield, ast.YieldFrom, ast.Await, ast.Global, ast.Nonlocal, ast.Delete, ast.AugAssign, ast.With, ast.AsyncWith,
          ast.Try, ast.AsyncFor, ast.FunctionDef, ast.AsyncFunctionDef, ast.ClassDef, ast.Import, ast.ImportFrom, ast.While)


def body_nodes(node):
    for s in node.body:
        yield from ast.walk(s)


def pure(node):
    """No statement of the function can change anything but its own local names.  (What it calls is
    looked at when it is called.)"""
    for n in body_nodes(node):
        if isinstance(n, BANNED):
            return False
        if isinstance(n, (ast.Attribute, ast.Subscript)) and not isinstance(n.ctx, ast.Load):
            return False
    return True


def truth(e):
    if isinstance(e, ast.Constant):
        return isinstance(e.value, bool)
    if isinstance(e, ast.Compare):
        return True
    if isinstance(e, ast.BoolOp):
        return all(truth(v) for v in e.values)
    if isinstance(e, ast.UnaryOp):
        return isinstance(e.op, ast.Not)
    if isinstance(e, ast.IfExp):
        return truth(e.body) and truth(e.orelse)
    if isinstance(e, ast.Name):
        return e.id == "NotImplemented"
    if isinstance(e, ast.Call):
        return isinstance(e.func, ast.Name) and e.func.id in ("all", "any", "isinstance", "bool")
    return False


def predicate(node):
    """A function without side effects that answers yes or no."""
    if isinstance(node, ast.AsyncFunctionDef) or not pure(node):
        return False
    rets = [n for n in body_nodes(node) if isinstance(n, ast.Return)]
    if not rets or any(r.value is None for r in rets):
        return False
    return node.name in ("__eq__", "__ne__") or all(truth(r.value) for r in rets)


class Rewriter(ast.NodeTransformer):
    def __init__(self, modname):
        self.mod = modname
        self.scope = []           # 'f' function, 'c' class
        self.names = []
        self.pure = []            # functions without side effects

    def _call(self, name, *args):
        return ast.Call(func=ast.Name(id=P + name, ctx=ast.Load()), args=list(args), keywords=[])

    def _lam(self, e):
        return ast.Lambda(args=ast.arguments(posonlyargs=[], args=[], kwonlyargs=[], kw_defaults=[], defaults=[]), body=e)

    def infun(self):
        return bool(self.scope) and self.scope[-1] == "f"

    # scopes -----------------------------------------------------------------
    def _function(self, node):
        merge, effectless = predicate(node), pure(node)
        node.decorator_list = [self.visit(d) for d in node.decorator_list]
        a = node.args
        a.defaults = [self.visit(d) for d in a.defaults]
        a.kw_defaults = [self.visit(d) if d is not None else None for d in a.kw_defaults]
        self.scope.append("f")
        self.names.append(node.name)
        doc = ast.get_docstring(node, clean=False) is not None
        body = []
        for s in node.body:
            r = self.visit(s)
            if isinstance(r, list):
                body.extend(r)
            elif r is not None:
                body.append(r)
        if effectless:
            self.pure.append(self.mod + ":" + ".".join(self.names))
        enter = ast.Expr(self._call("enter", ast.Constant(self.mod + ":" + ".".join(self.names))))
        body.insert(1 if doc else 0, enter)
        node.body = body
        self.scope.pop()
        self.names.pop()
        if merge:
            node.decorator_list.append(ast.Name(id=P + "merged", ctx=ast.Load()))
        if node.name in ("__bool__", "__len__", "__hash__", "__int__", "__index__") and self.scope and self.scope[-1] == "c":
            node.decorator_list.insert(0, ast.Name(id=P + "dunder", ctx=ast.Load()))
        return node

    visit_FunctionDef = _function
    visit_AsyncFunctionDef = _function

    def visit_Lambda(self, node):
        node.args.defaults = [self.visit(d) for d in node.args.defaults]
        self.scope.append("f")
        node.body = self.visit(node.body)
        self.scope.pop()
        return node

    def visit_ClassDef(self, node):
        node.decorator_list = [self.visit(d) for d in node.decorator_list]
        node.bases = [self.visit(d) for d in node.bases]
        self.scope.append("c")
        self.names.append(node.name)
        node.body = [self.visit(s) for s in node.body]
        self.scope.pop()
        self.names.pop()
        return node

    def visit_AnnAssign(self, node):
        if node.value is not None:
            node.value = self.visit(node.value)
        return node

    # expressions --------------------------------------------------------------
    def visit_Call(self, node):
        if isinstance(node.func, ast.Name) and node.func.id in UNTOUCHED_CALLS:
            node.args = [self.visit(a) for a in node.args]
            return node
        node.func = self.visit(node.func)
        node.args = [self.visit(a) for a in node.args]
        for k in node.keywords:
            k.value = self.visit(k.value)
        return ast.Call(func=ast.Name(id=P + "call", ctx=ast.Load()), args=[node.func] + node.args, keywords=node.keywords)

    def visit_JoinedStr(self, node):
        parts = []
        for v in node.values:
            if isinstance(v, ast.Constant):
                parts.append(v)
            else:
                spec = self.visit_JoinedStr(v.format_spec) if v.format_spec is not None else ast.Constant("")
                parts.append(ast.Tuple(elts=[self.visit(v.value), ast.Constant(v.conversion), spec], ctx=ast.Load()))
        return self._call("fstr", *parts)

    def visit_BoolOp(self, node):
        if not self.infun() or not all(lazy_ok(v) for v in node.values):
            return self.generic_visit(node)
        spec = [simple(v) for v in node.values]
        vals = [self.visit(v) for v in node.values]
        name = "and" if isinstance(node.op, ast.And) else "or"
        args = []
        for v, s in zip(vals, spec):
            args.append(ast.Tuple(elts=[self._lam(v), ast.Constant(s)], ctx=ast.Load()))
        return self._call(name, *args)

    def visit_UnaryOp(self, node):
        node.operand = self.visit(node.operand)
        if isinstance(node.op, ast.Not):
            return self._call("not", node.operand)
        return node

    def _cmp1(self, op, a, b):
        names = {ast.Eq: "eq", ast.NotEq: "ne", ast.In: "in", ast.NotIn: "notin", ast.Is: "is", ast.IsNot: "isnot"}
        n = names.get(type(op))
        if n is None:
            return ast.Compare(left=a, ops=[op], comparators=[b])
        if n in ("is", "isnot") and isinstance(b, ast.Constant) and b.value is None:
            return ast.Compare(left=a, ops=[op], comparators=[b])
        return self._call(n, a, b)

    def visit_Compare(self, node):
        if len(node.ops) == 1:
            return self._cmp1(node.ops[0], self.visit(node.left), self.visit(node.comparators[0]))
        operands = [node.left] + node.comparators
        if self.infun() and all(simple(x) and lazy_ok(x) for x in operands) and not any(
                isinstance(n, ast.Call) for x in operands for n in ast.walk(x)):
            import copy
            args = []
            for i, op in enumerate(node.ops):
                c = self._cmp1(op, self.visit(copy.deepcopy(operands[i])), self.visit(copy.deepcopy(operands[i + 1])))
                args.append(ast.Tuple(elts=[self._lam(c), ast.Constant(True)], ctx=ast.Load()))
            return self._call("and", *args)
        return self.generic_visit(node)

    def visit_BinOp(self, node):
        node.left = self.visit(node.left)
        node.right = self.visit(node.right)
        if isinstance(node.op, ast.Mod):
            return self._call("mod", node.left, node.right)
        return node

    def visit_Subscript(self, node):
        node = self.generic_visit(node)
        if not isinstance(node.ctx, ast.Load) or not self.incode() or isinstance(node.slice, (ast.Slice, ast.Constant, ast.Tuple)):
            return node
        if isinstance(node.slice, ast.UnaryOp) and isinstance(node.slice.operand, ast.Constant):
            return node
        if isinstance(node.slice, ast.Name):
            import copy
            i = node.slice
            plain = ast.Compare(left=ast.Attribute(value=copy.deepcopy(i), attr="__class__", ctx=ast.Load()), ops=[ast.Is()],
                                comparators=[ast.Name(id=P + "int", ctx=ast.Load())])
            return ast.IfExp(test=plain, body=node, orelse=self._call("item", copy.deepcopy(node.value), copy.deepcopy(i)))
        return self._call("item", node.value, node.slice)

    def incode(self):
        """Inside a function (annotations and class bodies are left alone)."""
        return bool(self.scope) and self.scope[-1] == "f"

    def visit_arg(self, node):
        return node              # annotations stay as they are

    def visit_Dict(self, node):
        node = self.generic_visit(node)
        if self.infun() or not self.scope:
            if any(k is None for k in node.keys):
                return node
            return self._call("dict", ast.List(elts=[ast.Tuple(elts=[k, v], ctx=ast.Load()) for k, v in zip(node.keys, node.values)], ctx=ast.Load()))
        return node

    def visit_Set(self, node):
        node = self.generic_visit(node)
        if self.infun():
            return self._call("set", ast.List(elts=node.elts, ctx=ast.Load()))
        return node

    def visit_DictComp(self, node):
        node = self.generic_visit(node)
        if self.infun() or not self.scope:
            return self._call("dict", ast.ListComp(elt=ast.Tuple(elts=[node.key, node.value], ctx=ast.Load()), generators=node.generators))
        return node

    def visit_SetComp(self, node):
        node = self.generic_visit(node)
        if self.infun():
            return self._call("set", ast.ListComp(elt=node.elt, generators=node.generators))
        return node

    def visit_MatchValue(self, node):
        return node              # patterns must stay literal

    def visit_MatchMapping(self, node):
        return node


class Finder(importlib.abc.MetaPathFinder, importlib.abc.Loader):
    def __init__(self, src, hooks, skip):
        self.src = os.path.abspath(src)
        self.hooks = hooks            # dict of _sx_* names and overriding builtins
        self.skip = skip
        self.loaded = {}
        self.cache = {}

    def find_spec(self, name, path=None, target=None):
        parts = name.split(".")
        base = os.path.join(self.src, *parts)
        if os.path.isfile(os.path.join(base, "__init__.py")):
            fn, pkg = os.path.join(base, "__init__.py"), True
        elif os.path.isfile(base + ".py"):
            fn, pkg = base + ".py", False
        elif os.path.isdir(base):
            return None
        else:
            return None
        if any(name == s or name.startswith(s + ".") for s in self.skip):
            return importlib.util.spec_from_file_location(name, fn, submodule_search_locations=[base] if pkg else None)
        return importlib.util.spec_from_file_location(name, fn, loader=self, submodule_search_locations=[base] if pkg else None)

    def create_module(self, spec):
        return None

    def get_source(self, name):
        return None

    def run_script(self, fn):
        """Executes a file of the code under test as the main program."""
        import types
        m = types.ModuleType("__main__")
        m.__file__ = fn
        m.__spec__ = importlib.util.spec_from_file_location("__main__", fn)
        self.exec_module(m)

    def exec_module(self, module):
        fn = module.__spec__.origin
        code = self.cache.get(fn)
        if code is None:
            with open(fn, "rb") as f:
                data = f.read()
            tree = ast.parse(data, fn)
            rw = Rewriter(module.__name__)
            tree = rw.visit(tree)
            ast.fix_missing_locations(tree)
            self.hooks["names"]["_sx_pure"].update(rw.pure)
            code = self.cache[fn] = compile(tree, fn, "exec", dont_inherit=True)
        b = dict(builtins.__dict__)
        b.update(self.hooks["builtins"])
        module.__dict__["__builtins__"] = b
        module.__dict__.update(self.hooks["names"])
        self.loaded[module.__name__] = fn
        exec(code, module.__dict__)
