"""AST instrumentation of the modules under test."""
import ast


class Instr(ast.NodeTransformer):
    def __init__(self, modname=''):
        self.infunc = 0
        self.scope = [modname]

    @staticmethod
    def _call(name, *args):
        return ast.Call(ast.Name(name, ast.Load()), list(args), [])

    # -- f-strings
    def visit_JoinedStr(self, n):
        elts = []
        for v in n.values:
            if isinstance(v, ast.Constant):
                elts.append(v)
            else:
                val = self.visit(v.value)
                spec = (self.visit(v.format_spec) if v.format_spec is not None
                        else ast.Constant(''))
                elts.append(ast.Tuple([val, ast.Constant(v.conversion), spec],
                                      ast.Load()))
        return ast.copy_location(
            self._call('__E_fstr__', *elts), n)

    # -- displays
    def visit_Dict(self, n):
        self.generic_visit(n)
        elts = []
        for k, v in zip(n.keys, n.values):
            if k is None:
                elts.append(ast.Tuple([ast.Name('__E_star__', ast.Load()), v],
                                      ast.Load()))
            else:
                elts.append(ast.Tuple([k, v], ast.Load()))
        return ast.copy_location(
            self._call('__E_dict__', ast.List(elts, ast.Load())), n)

    def visit_Set(self, n):
        self.generic_visit(n)
        return ast.copy_location(
            self._call('__E_set__', ast.List(n.elts, ast.Load())), n)

    def visit_SetComp(self, n):
        self.generic_visit(n)
        return ast.copy_location(
            self._call('__E_set__', ast.ListComp(n.elt, n.generators)), n)

    def visit_DictComp(self, n):
        self.generic_visit(n)
        return ast.copy_location(
            self._call('__E_dictc__', ast.ListComp(
                ast.Tuple([n.key, n.value], ast.Load()), n.generators)), n)

    # -- membership
    def visit_Compare(self, n):
        self.generic_visit(n)
        if len(n.ops) == 1 and isinstance(n.ops[0], (ast.In, ast.NotIn)):
            f = '__E_in__' if isinstance(n.ops[0], ast.In) else '__E_notin__'
            return ast.copy_location(
                self._call(f, n.left, n.comparators[0]), n)
        return n

    # -- calls
    LOG = ('debug', 'info', 'warning', 'error', 'exception', 'critical',
           'log')

    def visit_Call(self, n):
        f = n.func
        if isinstance(f, ast.Attribute) and f.attr in self.LOG and isinstance(
                f.value, ast.Name) and f.value.id == 'logging':
            # logging has no effect (stated assumption)
            return ast.copy_location(ast.Constant(None), n)
        self.generic_visit(n)
        if isinstance(f, ast.Attribute) and not (
                f.attr.startswith('__') and not f.attr.endswith('__')):
            return ast.copy_location(
                ast.Call(ast.Name('__E_cm__', ast.Load()),
                         [f.value, ast.Constant(f.attr)] + n.args,
                         n.keywords), n)
        return n

    def visit_BinOp(self, n):
        self.generic_visit(n)
        if isinstance(n.op, ast.Mod):
            return ast.copy_location(
                self._call('__E_mod__', n.left, n.right), n)
        return n

    def visit_Subscript(self, n):
        self.generic_visit(n)
        if isinstance(n.ctx, ast.Load) and self.infunc \
                and not isinstance(n.slice, (ast.Slice, ast.Tuple)):
            return ast.copy_location(
                self._call('__E_gi__', n.value, n.slice), n)
        return n

    # -- conditional expressions of plain values are merged, not forked
    def _plain(self, n):
        if isinstance(n, (ast.Constant, ast.Name)):
            return True
        if isinstance(n, ast.Subscript):
            return self._plain(n.value) and isinstance(n.slice, ast.Constant)
        if isinstance(n, ast.BinOp):
            return isinstance(n.op, (ast.Add, ast.Sub, ast.Mult, ast.Mod,
                                     ast.FloorDiv)) \
                and self._plain(n.left) and self._plain(n.right)
        if isinstance(n, ast.UnaryOp):
            return isinstance(n.op, ast.USub) and self._plain(n.operand)
        return False

    def _cond(self, n):
        if isinstance(n, ast.Compare):
            return self._plain(n.left) and all(
                self._plain(x) for x in n.comparators) and len(n.ops) == 1 \
                and isinstance(n.ops[0], (ast.Eq, ast.NotEq, ast.Lt, ast.LtE,
                                          ast.Gt, ast.GtE))
        if isinstance(n, ast.BoolOp):
            return all(self._cond(x) for x in n.values)
        return False

    def visit_BoolOp(self, n):
        ok = self.infunc and self._cond(n)
        self.generic_visit(n)
        if not ok:
            return n
        none = ast.arguments([], [], None, [], [], None, [])
        return ast.copy_location(self._call(
            '__E_bool__', ast.Constant(isinstance(n.op, ast.And)),
            *[ast.Lambda(none, x) for x in n.values]), n)

    def visit_IfExp(self, n):
        ok = self.infunc and self._plain(n.body) and self._plain(n.orelse)
        self.generic_visit(n)
        if not ok:
            return n
        none = ast.arguments([], [], None, [], [], None, [])
        return ast.copy_location(self._call(
            '__E_ife__', n.test, ast.Lambda(none, n.body),
            ast.Lambda(none, n.orelse)), n)

    # -- annotations
    def visit_FunctionDef(self, n):
        n.returns = None
        a = n.args
        for x in a.posonlyargs + a.args + a.kwonlyargs:
            x.annotation = None
        for x in (a.vararg, a.kwarg):
            if x is not None:
                x.annotation = None
        # decorators and defaults belong to the enclosing scope, harmless
        self.infunc += 1
        self.scope.append(n.name)
        self.generic_visit(n)
        mark = ast.Expr(self._call('__E_enter__', ast.Constant(
            '.'.join(self.scope))))
        self.scope.pop()
        self.infunc -= 1
        at = 1 if (n.body and isinstance(n.body[0], ast.Expr) and isinstance(
            n.body[0].value, ast.Constant)) else 0
        n.body.insert(at, ast.copy_location(mark, n.body[0]))
        return n

    visit_AsyncFunctionDef = visit_FunctionDef

    def visit_Lambda(self, n):
        self.infunc += 1
        self.generic_visit(n)
        self.infunc -= 1
        return n

    def visit_ClassDef(self, n):
        old, self.infunc = self.infunc, 0
        self.scope.append(n.name)
        self.generic_visit(n)
        self.scope.pop()
        self.infunc = old
        return n

    def visit_AnnAssign(self, n):
        if self.infunc:
            if n.value is None:
                return ast.copy_location(ast.Pass(), n)
            # note: attribute targets such as self.x: T = v included
            return self.visit(ast.copy_location(
                ast.Assign([n.target], n.value), n))
        # keep the annotation untouched, instrument the value
        if n.value is not None:
            n.value = self.visit(n.value)
        return n

    def visit_ExceptHandler(self, n):
        self.generic_visit(n)
        if n.type is None:
            n.type = ast.Name('Exception', ast.Load())
        elif isinstance(n.type, ast.Name) and n.type.id == 'BaseException':
            n.type.id = 'Exception'
        return n


def instrument(src, filename, modname=''):
    tree = ast.parse(src, filename)
    tree = Instr(modname).visit(tree)
    ast.fix_missing_locations(tree)
    return compile(tree, filename, 'exec')
