"""Import hook: compiles /repo/triples/**/*.py from their *current* source through
an AST transformation which routes comparisons, truth tests, division and a few
attribute reads through symx.rt.  Nothing of /repo is written; sympy, numpy and
every other library stay untransformed."""
import ast, importlib.abc, importlib.machinery, importlib.util, os, sys

REPO = os.environ.get("SYMX_REPO", "/repo")

ATTRS = {"is_zero", "is_positive", "is_negative", "is_nonnegative", "is_nonpositive",
         "is_nonzero", "is_rational", "is_real", "is_Rational", "is_Number", "is_number",
         "is_finite", "is_Float", "is_zero_matrix", "is_Integer", "is_integer", "is_Numerical", "free_symbols"}
CMP = {ast.Eq: "==", ast.NotEq: "!=", ast.Lt: "<", ast.LtE: "<=", ast.Gt: ">", ast.GtE: ">="}


def _bad_in_lambda(node):
    return any(isinstance(n, (ast.Yield, ast.YieldFrom, ast.Await, ast.NamedExpr)) or
               (isinstance(n, ast.Name) and n.id in ("super", "locals", "__class__")) for n in ast.walk(node))


class T(ast.NodeTransformer):
    def __init__(self):
        self.cov = set()

    def call(self, name, node, *args):
        return ast.copy_location(ast.Call(ast.Name(name, ast.Load()), list(args), []), node)

    def visit_Compare(self, node):
        self.generic_visit(node)
        if len(node.ops) == 1 and isinstance(node.ops[0], (ast.In, ast.NotIn)) and isinstance(node.comparators[0], (ast.Tuple, ast.List)):
            e = self.call("__sx_in__", node, node.left, node.comparators[0])
            return e if isinstance(node.ops[0], ast.In) else ast.copy_location(ast.UnaryOp(ast.Not(), e), node)
        if not any(type(o) in CMP for o in node.ops):
            return node
        if len(node.ops) == 1:
            return self.call("__sx_cmp__", node, ast.Constant(CMP[type(node.ops[0])]), node.left, node.comparators[0])
        if all(type(o) in CMP for o in node.ops):
            ops = ast.Tuple([ast.Constant(CMP[type(o)]) for o in node.ops], ast.Load())
            if not _bad_in_lambda(node):
                noargs = ast.arguments([], [], None, [], [], None, [])
                vals = [node.left, node.comparators[0]] + [ast.Lambda(noargs, c) for c in node.comparators[1:]]
                return self.call("__sx_chain__", node, ops, *vals)
        return node

    def truth(self, e):
        if isinstance(e, ast.Constant):
            return e
        if isinstance(e, ast.BoolOp):
            e.values = [self.truth(v) for v in e.values]
            return e
        if isinstance(e, ast.UnaryOp) and isinstance(e.op, ast.Not):
            return e
        return self.call("__sx_truth__", e, e)

    def visit_If(self, node):
        self.generic_visit(node)
        node.test = self.truth(node.test)
        return node
    visit_While = visit_If
    visit_IfExp = visit_If

    def visit_Assert(self, node):
        self.generic_visit(node)
        node.test = self.truth(node.test)
        return node

    def visit_comprehension(self, node):
        self.generic_visit(node)
        node.ifs = [self.truth(i) for i in node.ifs]
        return node

    def visit_UnaryOp(self, node):
        self.generic_visit(node)
        if isinstance(node.op, ast.Not):
            node.operand = self.truth(node.operand)
        return node

    def visit_BinOp(self, node):
        self.generic_visit(node)
        if isinstance(node.op, ast.Div):
            return self.call("__sx_div__", node, node.left, node.right)
        if isinstance(node.op, ast.Pow):
            return self.call("__sx_pow__", node, node.left, node.right)
        if isinstance(node.op, ast.FloorDiv):
            return self.call("__sx_floordiv__", node, node.left, node.right)
        return node

    def visit_ExceptHandler(self, node):
        self.generic_visit(node)
        if node.type is None:          # the exceptions steering exploration must pass
            node.type = ast.copy_location(ast.Name("Exception", ast.Load()), node)
        return node

    def visit_AugAssign(self, node):
        self.generic_visit(node)
        if isinstance(node.op, ast.Div) and isinstance(node.target, ast.Name):
            return ast.copy_location(ast.Assign([node.target], self.call(
                "__sx_div__", node, ast.Name(node.target.id, ast.Load()), node.value)), node)
        return node

    def visit_Attribute(self, node):
        self.generic_visit(node)
        if isinstance(node.ctx, ast.Load) and node.attr in ATTRS:
            return self.call("__sx_attr__", node, node.value, ast.Constant(node.attr))
        return node

    def visit_JoinedStr(self, node):
        return node

    # never touch annotations / decorators' string parts
    def visit_AnnAssign(self, node):
        if node.value is not None:
            node.value = self.visit(node.value)
        return node


def executable_lines(tree):
    out = set()
    for fn in ast.walk(tree):
        if isinstance(fn, (ast.FunctionDef,)):
            for st in ast.walk(fn):
                if isinstance(st, ast.stmt) and st is not fn and not isinstance(st, (ast.FunctionDef, ast.ClassDef)):
                    if isinstance(st, ast.Expr) and isinstance(st.value, ast.Constant):
                        continue
                    out.add(st.lineno)
    return out


def transform(src, path):
    tree = ast.parse(src, path)
    new = T().visit(tree)
    ast.fix_missing_locations(new)
    return new


class Loader(importlib.machinery.SourceFileLoader):
    def __init__(self, name, path):
        super().__init__(name, path)

    def get_code(self, fullname):
        path = self.get_filename(fullname)
        with open(path, encoding="utf8") as f:
            src = f.read()
        return compile(transform(src, path), path, "exec", dont_inherit=True)

    def exec_module(self, module):
        from . import rt
        module.__dict__.update(rt.INJECT)
        super().exec_module(module)


class Finder(importlib.abc.MetaPathFinder):
    def find_spec(self, fullname, path, target=None):
        if fullname != "triples" and not fullname.startswith("triples."):
            return None
        base = os.path.join(REPO, *fullname.split("."))
        for p, pkg in ((os.path.join(base, "__init__.py"), True), (base + ".py", False)):
            if os.path.isfile(p):
                return importlib.util.spec_from_file_location(
                    fullname, p, loader=Loader(fullname, p),
                    submodule_search_locations=[base] if pkg else None)
        return None


def install():
    if not any(isinstance(f, Finder) for f in sys.meta_path):
        assert "triples" not in sys.modules, "triples imported before the symbolic loader"
        sys.meta_path.insert(0, Finder())
    sys.dont_write_bytecode = True
