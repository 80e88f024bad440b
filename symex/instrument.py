"""AST pass that routes calls, comparisons, formatting and set/dict literals of
the code under test through the hooks of rt.py.  Everything else runs natively."""
import ast

LEAVE = {'super', 'locals', 'globals', 'vars', 'dir', 'exec', 'eval', '__import__', 'isinstance', 'issubclass', 'len',
         'range', 'enumerate', 'zip', 'reversed'}
OPS = {ast.Eq: '==', ast.NotEq: '!=', ast.Lt: '<', ast.LtE: '<=', ast.Gt: '>', ast.GtE: '>=', ast.In: 'in',
       ast.NotIn: 'not in', ast.Is: 'is', ast.IsNot: 'is not'}


def rt(name):
    return ast.Attribute(ast.Name('_rt', ast.Load()), name, ast.Load())


def rtcall(name, args, keywords=()):
    return ast.Call(rt(name), list(args), list(keywords))


class Pass(ast.NodeTransformer):
    def __init__(self, modname=''):
        self.classes = []
        self.functions = []
        self.in_class = False
        self.modname = modname

    def mangle(self, name):
        if self.classes and name.startswith('__') and not name.endswith('__'):
            c = self.classes[-1].lstrip('_')
            if c:
                return '_%s%s' % (c, name)
        return name

    def visit_ClassDef(self, node):
        node.decorator_list = [self.visit(d) for d in node.decorator_list]
        node.bases = [self.visit(b) for b in node.bases]
        self.classes.append(node.name)
        inner, self.in_class = self.in_class, True
        node.body = [self.visit(b) for b in node.body]
        self.in_class = inner
        self.classes.pop()
        return node

    def visit_FunctionDef(self, node):
        # annotations are not evaluated
        for a in node.args.posonlyargs + node.args.args + node.args.kwonlyargs:
            a.annotation = None
        if node.args.vararg:
            node.args.vararg.annotation = None
        if node.args.kwarg:
            node.args.kwarg.annotation = None
        node.returns = None
        self.functions.append(node.name)
        inner, self.in_class = self.in_class, False
        self.generic_visit(node)
        self.in_class = inner
        self.functions.pop()
        if self.modname:
            q = '.'.join([self.modname] + self.classes + [node.name])
            at = 1 if node.body and isinstance(node.body[0], ast.Expr) and isinstance(node.body[0].value, ast.Constant) else 0
            node.body.insert(at, ast.Expr(rtcall('enter', [ast.Constant(q)])))
        return node

    def visit_AnnAssign(self, node):
        if self.in_class:               # dataclasses and named tuples look at them
            node.target = self.visit(node.target)
            if node.value is not None:
                node.value = self.visit(node.value)
            return node
        node = self.generic_visit(node)
        if node.value is None:
            return node if not isinstance(node.target, ast.Name) else ast.Pass()
        return ast.Assign([node.target], node.value)

    def visit_Call(self, node):
        f = node.func
        if isinstance(f, ast.Name) and f.id in LEAVE:
            self.generic_visit(node)
            return node
        args = [self.visit(a) for a in node.args]
        kws = [self.visit(k) for k in node.keywords]
        if isinstance(f, ast.Attribute):
            return rtcall('callm', [self.visit(f.value), ast.Constant(self.mangle(f.attr))] + args, kws)
        return rtcall('call', [self.visit(f)] + args, kws)

    def visit_BinOp(self, node):
        self.generic_visit(node)
        if isinstance(node.op, ast.Mod):
            return rtcall('mod', [node.left, node.right])
        return node

    def visit_AugAssign(self, node):
        self.generic_visit(node)
        if isinstance(node.op, ast.Mod) and isinstance(node.target, ast.Name):
            return ast.Assign([node.target], rtcall('mod', [ast.Name(node.target.id, ast.Load()), node.value]))
        return node

    def visit_UnaryOp(self, node):
        self.generic_visit(node)
        if isinstance(node.op, ast.Not):
            return rtcall('not_', [node.operand])
        return node

    def visit_Compare(self, node):
        self.generic_visit(node)
        if len(node.ops) == 1:
            op = OPS[type(node.ops[0])]
            if op in ('is', 'is not') and isinstance(node.comparators[0], ast.Constant) and node.comparators[0].value is None:
                return node
            return rtcall('cmp', [ast.Constant(op), node.left, node.comparators[0]])
        ops = ast.Tuple([ast.Constant(OPS[type(o)]) for o in node.ops], ast.Load())
        return rtcall('chain', [ops, node.left] + node.comparators)

    def visit_JoinedStr(self, node):
        parts = []
        for v in node.values:
            if isinstance(v, ast.Constant):
                parts.append(v)
            else:
                spec = self.visit(v.format_spec) if v.format_spec is not None else ast.Constant('')
                parts.append(ast.Tuple([self.visit(v.value), ast.Constant(v.conversion), spec], ast.Load()))
        return rtcall('fstr', parts)

    def visit_Set(self, node):
        self.generic_visit(node)
        return rtcall('mkset', [ast.List(node.elts, ast.Load())])

    def visit_SetComp(self, node):
        self.generic_visit(node)
        return rtcall('mkset', [ast.ListComp(node.elt, node.generators)])

    def visit_Dict(self, node):
        self.generic_visit(node)
        pairs = []
        for k, v in zip(node.keys, node.values):
            pairs.append(ast.Tuple([v] if k is None else [k, v], ast.Load()))
        return rtcall('mkdict', [ast.List(pairs, ast.Load())])

    def visit_DictComp(self, node):
        self.generic_visit(node)
        return rtcall('mkdict', [ast.ListComp(ast.Tuple([node.key, node.value], ast.Load()), node.generators)])

    def visit_Try(self, node):
        self.generic_visit(node)
        if node.handlers:
            h = ast.ExceptHandler(rt('Control'), None, [ast.Raise(None, None)])
            node.handlers.insert(0, h)
        return node


def compile_source(src, filename, modname=''):
    tree = ast.parse(src, filename)
    tree = Pass(modname).visit(tree)
    ast.fix_missing_locations(tree)
    return compile(tree, filename, 'exec', dont_inherit=True)
