"""rf.py DIR MODE...: behaviour-preserving rewrites of all modules under DIR/torchrir."""
import ast, sys, pathlib, itertools
root = pathlib.Path(sys.argv[1]); modes = set(sys.argv[2:])
files = sorted(root.rglob("*.py"))
trees = {f: ast.parse(f.read_text()) for f in files}
# --- private module-level functions
privs = set()
for t in trees.values():
    for n in t.body:
        if isinstance(n, ast.FunctionDef) and n.name.startswith("_") and not n.name.startswith("__"):
            privs.add(n.name)
        if "globals" in modes and isinstance(n, (ast.Assign, ast.AnnAssign)):
            for x in (n.targets if isinstance(n, ast.Assign) else [n.target]):
                if isinstance(x, ast.Name) and x.id.startswith("_") and not x.id.startswith("__"):
                    privs.add(x.id)
class Ren(ast.NodeTransformer):
    def new(self, s): return s + "_impl" if s in privs else s
    def visit_Name(self, n): n.id = self.new(n.id); return n
    def visit_Global(self, n): n.names = [self.new(x) for x in n.names]; return n
    def visit_FunctionDef(self, n): n.name = self.new(n.name); self.generic_visit(n); return n
    def visit_alias(self, n): n.name = self.new(n.name); return n
    def visit_Attribute(self, n): n.attr = self.new(n.attr); self.generic_visit(n); return n
FL = {ast.Lt: ast.Gt, ast.Gt: ast.Lt, ast.LtE: ast.GtE, ast.GtE: ast.LtE, ast.Eq: ast.Eq, ast.NotEq: ast.NotEq}
class Flip(ast.NodeTransformer):
    def visit_Compare(self, n):
        self.generic_visit(n)
        if len(n.ops) == 1 and type(n.ops[0]) in FL:
            return ast.Compare(left=n.comparators[0], ops=[FL[type(n.ops[0])]()], comparators=[n.left])
        return n
class Swap(ast.NodeTransformer):
    def visit_If(self, n):
        self.generic_visit(n)
        if n.orelse:
            return ast.If(test=ast.UnaryOp(ast.Not(), n.test), body=n.orelse, orelse=n.body)
        return n
    def visit_IfExp(self, n):
        self.generic_visit(n)
        return ast.IfExp(test=ast.UnaryOp(ast.Not(), n.test), body=n.orelse, orelse=n.body)
class Loop(ast.NodeTransformer):
    c = itertools.count()
    def visit_For(self, n):
        self.generic_visit(n)
        if n.orelse: return n
        k = next(self.c); it = f"_it{k}"; s = f"_end{k}"
        return [ast.parse(f"{it} = iter(0)").body[0].__class__(targets=[ast.Name(it, ast.Store())], value=ast.Call(ast.Name("iter", ast.Load()), [n.iter], []), lineno=0),
                ast.While(test=ast.Constant(True), orelse=[], body=[
                    ast.Try(body=[ast.Assign(targets=[n.target], value=ast.Call(ast.Name("next", ast.Load()), [ast.Name(it, ast.Load())], []), lineno=0)],
                            handlers=[ast.ExceptHandler(type=ast.Name("StopIteration", ast.Load()), name=None, body=[ast.Break()])], orelse=[], finalbody=[])] + n.body)]
class Locals(ast.NodeTransformer):
    def visit_FunctionDef(self, n, top=True):
        if any(isinstance(x, (ast.Global, ast.Nonlocal, ast.FunctionDef, ast.Lambda, ast.ClassDef)) for x in ast.walk(n) if x is not n): return n
        args = {a.arg for a in ast.walk(n.args) if isinstance(a, ast.arg)}
        st = {x.id for x in ast.walk(n) if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Store)} - args
        for h in ast.walk(n):
            if isinstance(h, ast.ExceptHandler) and h.name: st.discard(h.name)
            if isinstance(h, (ast.Import, ast.ImportFrom)):
                for a in h.names: st.discard(a.asname or a.name)
        for x in ast.walk(n):
            if isinstance(x, ast.Name) and x.id in st: x.id = "v_" + x.id
        return n
class Wrap(ast.NodeTransformer):
    """Every function body in a helper of its own."""
    def visit_FunctionDef(self, n):
        self.generic_visit(n)
        if n.name.startswith("__") and n.name != "__post_init__": return n
        if any(isinstance(x, (ast.Yield, ast.YieldFrom)) for x in ast.walk(n)): return n
        if any(isinstance(x, ast.Name) and x.id in ("super",) for x in ast.walk(n)): return n
        doc = n.body[:1] if ast.get_docstring(n) else []
        rest = n.body[len(doc):]
        if not rest: return n
        a = n.args
        allargs = [x.arg for x in a.posonlyargs + a.args + a.kwonlyargs] + ([a.vararg.arg] if a.vararg else []) + ([a.kwarg.arg] if a.kwarg else [])
        inner = ast.FunctionDef(name="_body", args=ast.arguments(posonlyargs=[], args=[ast.arg(x) for x in allargs], kwonlyargs=[], kw_defaults=[], defaults=[]), body=rest, decorator_list=[], lineno=0)
        n.body = doc + [inner, ast.Return(ast.Call(ast.Name("_body", ast.Load()), [ast.Name(x, ast.Load()) for x in allargs], []))]
        return n
def hoist_reads():
    pass
for f, t in trees.items():
    if "rename" in modes: t = Ren().visit(t)
    if "flip" in modes: t = Flip().visit(t)
    if "swap" in modes: t = Swap().visit(t)
    if "locals" in modes: t = Locals().visit(t)
    if "loop" in modes: t = Loop().visit(t)
    if "wrap" in modes: t = Wrap().visit(t)
    f.write_text(ast.unparse(ast.fix_missing_locations(t)) + "\n")
