"""Load the real source under test with an AST rewrite that routes calls, method calls, subscripts,
containment, formatting and except-clauses through `ops`, so symbolic values flow through the code itself."""
import ast, copy, sys, os, types, builtins, importlib.machinery, importlib.abc, importlib.util
from . import core

NOREWRITE = {'super', 'locals', 'globals', 'vars', 'eval', 'exec', '__import__', 'dir'}

SOURCES = {}          # module name -> (path, sha256)


def _n(name, ctx=None):
    return ast.Name(id=name, ctx=ctx or ast.Load())


def simple(e):
    """expression without effects"""
    return not any(isinstance(x, (ast.Call, ast.Await, ast.Yield, ast.YieldFrom, ast.NamedExpr, ast.Lambda, ast.ListComp, ast.DictComp,
                                  ast.SetComp, ast.GeneratorExp, ast.JoinedStr)) for x in ast.walk(e))


def plain(body):
    """only assignments of effect-free expressions to local names"""
    for s in body:
        if isinstance(s, ast.Assign) and len(s.targets) == 1 and isinstance(s.targets[0], ast.Name) and simple(s.value):
            continue
        if isinstance(s, ast.AugAssign) and isinstance(s.target, ast.Name) and simple(s.value):
            continue
        if isinstance(s, ast.Pass):
            continue
        return False
    return True


def assigned(body):
    """{name: its old value is needed first}"""
    out = {}
    for s in body:
        if isinstance(s, ast.Pass):
            continue
        for x in ast.walk(s.value):
            if isinstance(x, ast.Name):
                out.setdefault(x.id, True)
        if isinstance(s, ast.AugAssign):
            out.setdefault(s.target.id, True)
        else:
            out.setdefault(s.targets[0].id, False)
    names = {(s.target if isinstance(s, ast.AugAssign) else s.targets[0]).id for s in body if not isinstance(s, ast.Pass)}
    return {n: out[n] for n in names}


class Rewrite(ast.NodeTransformer):
    depth = 0
    ifs = 0

    def visit_If(self, node):
        ok = self.depth and plain(node.body) and plain(node.orelse)
        if ok:
            a, b = assigned(node.body), assigned(node.orelse)
            names = sorted(set(a) | set(b))
            # a name set in one branch only must have a value before
            ok = 0 < len(names) <= 6 and all((n in a and n in b) or a.get(n) or b.get(n) for n in names)
        test = self.lazy(copy.deepcopy(node.test)) if ok else None
        self.generic_visit(node)
        if not ok:
            return node
        if test is not None:
            node.test = self.visit(test)
        Rewrite.ifs += 1
        c = '_sx_c%d_' % Rewrite.ifs
        old = [n for n in names if a.get(n) or b.get(n) or n not in a or n not in b]

        def put(x, y):
            return ast.Assign(targets=[_n(x, ast.Store())], value=y if isinstance(y, ast.AST) else _n(y))
        cp = lambda ss: [copy.deepcopy(s) for s in ss]
        merged = [put(c + 'o' + n, n) for n in old] + cp(node.body) + [put(c + 't' + n, n) for n in names] + \
                 [put(n, c + 'o' + n) for n in old] + cp(node.orelse) + \
                 [put(n, ast.Call(func=_n('_sx_ite_'), args=[_n(c), _n(c + 't' + n), _n(n)], keywords=[])) for n in names]
        out = [put(c, ast.Call(func=_n('_sx_if_'), args=[node.test], keywords=[])),
               ast.If(test=ast.Call(func=_n('_sx_ismerge_'), args=[_n(c)], keywords=[]), body=merged,
                      orelse=[ast.If(test=_n(c), body=node.body, orelse=node.orelse)])]
        for o in out:
            ast.copy_location(o, node)
            for x in ast.walk(o):
                if not hasattr(x, 'lineno') and isinstance(x, (ast.expr, ast.stmt)):
                    ast.copy_location(x, node)
        return out

    def lazy(self, e):
        """and/or/not of effect-free conditions, each given as a function"""
        if not simple(e):
            return None
        if isinstance(e, ast.BoolOp):
            args = [ast.Constant(isinstance(e.op, ast.And))]
            args += [ast.Lambda(args=ast.arguments(posonlyargs=[], args=[], kwonlyargs=[], kw_defaults=[], defaults=[]), body=self.lazy(v) or v) for v in e.values]
            r = ast.Call(func=_n('_sx_logic_'), args=args, keywords=[])
        elif isinstance(e, ast.UnaryOp) and isinstance(e.op, ast.Not):
            r = ast.Call(func=_n('_sx_logic_'), args=[ast.Constant(None), ast.Lambda(
                args=ast.arguments(posonlyargs=[], args=[], kwonlyargs=[], kw_defaults=[], defaults=[]), body=self.lazy(e.operand) or e.operand)], keywords=[])
        else:
            return None
        return r

    def visit_IfExp(self, node):
        ok = self.depth and simple(node.body) and simple(node.orelse)
        test = self.lazy(copy.deepcopy(node.test)) if ok else None
        self.generic_visit(node)
        if not ok:
            return node
        if test is not None:
            node.test = self.visit(test)
        lam = lambda e: ast.Lambda(args=ast.arguments(posonlyargs=[], args=[], kwonlyargs=[], kw_defaults=[], defaults=[]), body=e)
        return ast.copy_location(ast.Call(func=_n('_sx_ifexp_'), args=[node.test, lam(node.body), lam(node.orelse)], keywords=[]), node)

    def visit_Call(self, node):
        self.generic_visit(node)
        f = node.func
        if isinstance(f, ast.Name) and f.id in NOREWRITE:
            return node
        if isinstance(f, ast.Attribute) and not (f.attr.startswith('__') and not f.attr.endswith('__')):
            return ast.copy_location(ast.Call(
                func=_n('_sx_mcall_'), args=[f.value, ast.Constant(f.attr)] + node.args, keywords=node.keywords), node)
        return ast.copy_location(ast.Call(func=_n('_sx_call_'), args=[f] + node.args, keywords=node.keywords), node)

    def visit_Subscript(self, node):
        self.generic_visit(node)
        if isinstance(node.ctx, ast.Load):
            return ast.copy_location(ast.Call(func=_n('_sx_get_'), args=[node.value, self._slice(node.slice)], keywords=[]), node)
        return node

    def _slice(self, s):
        if isinstance(s, ast.Slice):
            none = ast.Constant(None)
            return ast.Call(func=_n('_sx_slice_'), args=[s.lower or none, s.upper or none, s.step or none], keywords=[])
        if isinstance(s, ast.Tuple):
            return ast.Tuple(elts=[self._slice(x) for x in s.elts], ctx=ast.Load())
        return s

    def visit_Assign(self, node):
        self.generic_visit(node)
        out = []
        if any(isinstance(t, ast.Subscript) for t in node.targets):
            if len(node.targets) == 1:
                t = node.targets[0]
                return ast.copy_location(ast.Expr(ast.Call(
                    func=_n('_sx_set_'), args=[node.value, t.value, self._slice(t.slice)], keywords=[])), node)
            tmp = '_sx_tmp%d_' % node.lineno
            out.append(ast.copy_location(ast.Assign(targets=[_n(tmp, ast.Store())], value=node.value), node))
            for t in node.targets:
                if isinstance(t, ast.Subscript):
                    out.append(ast.copy_location(ast.Expr(ast.Call(
                        func=_n('_sx_set_'), args=[_n(tmp), t.value, self._slice(t.slice)], keywords=[])), node))
                else:
                    out.append(ast.copy_location(ast.Assign(targets=[t], value=_n(tmp)), node))
            return out
        return node

    def visit_AugAssign(self, node):
        self.generic_visit(node)
        t = node.target
        if isinstance(t, ast.Subscript):
            # a[k] op= v : evaluate a and k once
            op = type(node.op).__name__
            return ast.copy_location(ast.Expr(ast.Call(
                func=_n('_sx_aug_'), args=[t.value, self._slice(t.slice), ast.Constant(op), node.value], keywords=[])), node)
        if isinstance(node.op, ast.Mod) and isinstance(t, ast.Name):
            return ast.copy_location(ast.Assign(targets=[t], value=ast.Call(
                func=_n('_sx_mod_'), args=[_n(t.id), node.value], keywords=[])), node)
        return node

    def visit_Delete(self, node):
        self.generic_visit(node)
        out = []
        for t in node.targets:
            if isinstance(t, ast.Subscript):
                out.append(ast.copy_location(ast.Expr(ast.Call(
                    func=_n('_sx_del_'), args=[t.value, self._slice(t.slice)], keywords=[])), node))
            else:
                out.append(ast.copy_location(ast.Delete(targets=[t]), node))
        return out

    def visit_BinOp(self, node):
        self.generic_visit(node)
        if isinstance(node.op, ast.Mod):
            return ast.copy_location(ast.Call(func=_n('_sx_mod_'), args=[node.left, node.right], keywords=[]), node)
        return node

    def visit_Compare(self, node):
        self.generic_visit(node)
        if len(node.ops) == 1 and isinstance(node.ops[0], (ast.In, ast.NotIn)):
            return ast.copy_location(ast.Call(
                func=_n('_sx_in_' if isinstance(node.ops[0], ast.In) else '_sx_notin_'),
                args=[node.left, node.comparators[0]], keywords=[]), node)
        if len(node.ops) == 1 and isinstance(node.ops[0], (ast.Is, ast.IsNot)):
            c = node.comparators[0]
            if isinstance(c, ast.Constant) and c.value in (True, False) and c.value is not None:
                return ast.copy_location(ast.Call(func=_n('_sx_isbool_'), args=[node.left, c, ast.Constant(isinstance(node.ops[0], ast.Is))],
                                                  keywords=[]), node)
        return node

    def visit_JoinedStr(self, node):
        self.generic_visit(node)
        parts = []
        for v in node.values:
            if isinstance(v, ast.FormattedValue):
                spec = v.format_spec if v.format_spec is not None else ast.Constant('')
                parts.append(ast.Call(func=_n('_sx_fv_'), args=[v.value, ast.Constant(v.conversion), spec], keywords=[]))
            else:
                parts.append(v)
        return ast.copy_location(ast.Call(func=_n('_sx_cat_'), args=parts, keywords=[]), node)

    def visit_FormattedValue(self, node):
        self.generic_visit(node)
        return node

    def visit_Try(self, node):
        self.generic_visit(node)
        for h in node.handlers:
            wide = h.type is None or any(isinstance(x, ast.Name) and x.id == 'BaseException' for x in ast.walk(h.type))
            if wide:
                node.handlers.insert(0, ast.ExceptHandler(type=_n('_sx_control_'), name=None, body=[ast.Raise(exc=None, cause=None)]))
                break
        return node

    def visit_Match(self, node):
        self.generic_visit(node)
        return node

    # annotations carry no behaviour
    def visit_AnnAssign(self, node):
        if node.value is not None:
            node.value = self.visit(node.value)
        return node

    def visit_arg(self, node):
        node.annotation = None
        return node

    def visit_FunctionDef(self, node):
        node.returns = None
        self.depth += 1
        self.generic_visit(node)
        self.depth -= 1
        return node

    def visit_ClassDef(self, node):
        d, self.depth = self.depth, 0
        self.generic_visit(node)
        self.depth = d
        return node


def docstring_safe(tree):
    return tree


def compile_source(src, path):
    tree = ast.parse(src, path)
    tree = Rewrite().visit(tree)
    ast.fix_missing_locations(tree)
    return compile(tree, path, 'exec', dont_inherit=True)


class Loader(importlib.abc.Loader):
    def __init__(self, name, path, pkg):
        self.name, self.path, self.pkg = name, path, pkg

    def create_module(self, spec):
        return None

    def exec_module(self, mod):
        import hashlib
        from . import ops
        src = open(self.path, 'rb').read()
        SOURCES[self.name] = (self.path, hashlib.sha256(src).hexdigest())
        code = compile_source(src.decode('utf-8'), self.path)
        mod.__dict__['__builtins__'] = ops.BUILTINS
        mod.__dict__['__sx__'] = True
        ops.MODULES.add(self.name)
        exec(code, mod.__dict__)
        from . import crypto
        post = crypto.POST.get(self.name)
        if post is not None:
            post(mod, self.path)


class Finder(importlib.abc.MetaPathFinder):
    def __init__(self, roots):
        self.roots = roots        # prefix -> dir that contains the top package

    def find_spec(self, fullname, path=None, target=None):
        for pre, base in self.roots.items():
            if fullname == pre or fullname.startswith(pre + '.'):
                break
        else:
            return None
        p = os.path.join(base, *fullname.split('.'))
        if os.path.isdir(p) and os.path.exists(os.path.join(p, '__init__.py')):
            f = os.path.join(p, '__init__.py')
            return importlib.util.spec_from_file_location(fullname, f, loader=Loader(fullname, f, True), submodule_search_locations=[p])
        if os.path.exists(p + '.py'):
            return importlib.util.spec_from_file_location(fullname, p + '.py', loader=Loader(fullname, p + '.py', False))
        return None


SITE = '/opt/venv/lib/python3.12/site-packages'
INSTALLED = False


def install(repo, props):
    """Make `import pykeepass`, `construct`, `props.*` yield instrumented modules."""
    global INSTALLED
    if INSTALLED:
        return
    INSTALLED = True
    if SITE not in sys.path:
        sys.path.append(SITE)
    sys.setrecursionlimit(6000)
    from . import ops, hooks
    sys.meta_path.insert(0, Finder({'pykeepass': repo, 'construct': SITE, 'props': props, 'Cryptodome.Util.Padding': SITE}))
    hooks.setup()
