"""Mechanical AST rewrite of the code under verification.

The rewrite never changes what the code computes on ordinary values: every construct is replaced by a call into
``__vc`` (pyvc.runtime) that performs exactly the ordinary operation when no symbolic value is involved.  What it
rewrites:

  for / while loops      -> body (and condition) become local closures driven by __vc.for_ / __vc.while_
  comprehensions         -> __vc.comp_*(iterable, element closure, filter closure)
  f-strings              -> __vc.fstr(parts)
  is / is not / in       -> __vc.is_ / __vc.in_   (comparison chains are left alone)
  calls of builtin names -> __vc.b_<name>          (len, isinstance, any, zip, ...)
  calls x.m(...)         -> __vc.mcall(x, 'm', ...) for container-mutating method names
  x.a = v, x[i] = v      -> preceded by a write barrier __vc.wr(x)
  [..], {..} displays    -> __vc.mklist / mkdict / mkset  (tracked subclasses of list / dict / set)

Nothing is dropped: function bodies, defaults, decorators, and class bodies are compiled as they stand.  Loops that contain
``yield``/``await``, zero-argument ``super()`` or live at module/class level are left as they are (a symbolic value
reaching one raises Unsupported).
"""
import ast
import hashlib

BUILTINS = {'len', 'isinstance', 'any', 'all', 'zip', 'enumerate', 'range', 'sorted', 'min', 'max', 'int', 'str',
            'next', 'iter', 'list', 'tuple', 'set', 'dict', 'sum', 'reversed', 'hash', 'bool', 'repr', 'abs', 'map',
            'filter', 'frozenset', 'type', 'print'}
MUTATORS = {'append', 'extend', 'insert', 'remove', 'pop', 'clear', 'sort', 'reverse', 'add', 'discard', 'update',
            'setdefault', 'popitem', 'difference_update', 'intersection_update', '__setitem__', '__setattr__'}
SMETHODS = {'join', 'union', 'startswith', 'endswith', 'intersection', 'difference', 'get', 'values', 'items', 'keys',
            'index', 'count', 'copy', 'split', 'format', 'issubset', 'issuperset', 'chain', 'from_iterable',
            'sub', 'subn', 'fullmatch', 'search', 'findall'}

VC = '__vc__'


def _n(id_, ctx=None):
    return ast.Name(id=id_, ctx=ctx or ast.Load())


def _vc(attr):
    return ast.Attribute(value=_n(VC), attr=attr, ctx=ast.Load())


def _call(attr, *args):
    return ast.Call(func=_vc(attr), args=list(args), keywords=[])


class _Assigned(ast.NodeVisitor):
    """names (re)bound by a statement list, not descending into nested scopes"""

    def __init__(self):
        self.names = []

    def _add(self, n):
        if n not in self.names:
            self.names.append(n)

    def visit_Name(self, node):
        if isinstance(node.ctx, (ast.Store, ast.Del)):
            self._add(node.id)

    def visit_FunctionDef(self, node):
        self._add(node.name)
        for d in node.decorator_list + node.args.defaults + [x for x in node.args.kw_defaults if x]:
            self.visit(d)

    visit_AsyncFunctionDef = visit_FunctionDef

    def visit_ClassDef(self, node):
        self._add(node.name)

    def visit_Lambda(self, node):
        for d in node.args.defaults + [x for x in node.args.kw_defaults if x]:
            self.visit(d)

    def visit_ExceptHandler(self, node):
        if node.name:
            self._add(node.name)
        self.generic_visit(node)

    def visit_Import(self, node):
        for a in node.names:
            self._add((a.asname or a.name).split('.')[0])

    visit_ImportFrom = visit_Import

    def _comp(self, node):
        # comprehension targets are local to it; walrus inside binds outside
        for sub in ast.walk(node):
            if isinstance(sub, ast.NamedExpr):
                self._add(sub.target.id)

    visit_ListComp = visit_SetComp = visit_DictComp = visit_GeneratorExp = _comp


def assigned(stmts):
    v = _Assigned()
    for s in stmts:
        v.visit(s)
    return v.names


def _contains(node, types, skip_scopes=True):
    """does `node` contain one of `types` outside nested functions/lambdas/classes"""
    todo = [node]
    while todo:
        x = todo.pop()
        if isinstance(x, types):
            return True
        for c in ast.iter_child_nodes(x):
            if skip_scopes and isinstance(c, (ast.FunctionDef, ast.AsyncFunctionDef, ast.Lambda, ast.ClassDef)):
                continue
            todo.append(c)
    return False


def _has_super(node):
    return any(isinstance(x, ast.Call) and isinstance(x.func, ast.Name) and x.func.id == 'super' and not x.args
               for x in ast.walk(node))


class _LoopExits(ast.NodeTransformer):
    """inside a loop body turned closure: break/continue/return -> coded returns"""

    def __init__(self):
        self.depth = 0

    def visit_FunctionDef(self, node):
        return node

    visit_AsyncFunctionDef = visit_Lambda = visit_ClassDef = visit_FunctionDef

    def _loop(self, node):
        self.depth += 1
        node.body = [self.visit(s) for s in node.body]
        self.depth -= 1
        node.orelse = [self.visit(s) for s in node.orelse]
        return node

    visit_For = visit_While = _loop

    def visit_Break(self, node):
        if self.depth:
            return node
        return ast.copy_location(ast.Return(value=_vc('BRK')), node)

    def visit_Continue(self, node):
        if self.depth:
            return node
        return ast.copy_location(ast.Return(value=_vc('CONT')), node)

    def visit_Return(self, node):
        if getattr(node, '_coded', False):
            return node
        r = ast.Return(value=_call('ret', node.value or ast.Constant(value=None)))
        return ast.copy_location(r, node)


class Instrumenter(ast.NodeTransformer):

    def __init__(self, modname):
        self.modname = modname
        self.scopes = []  # stack of dicts: {'kind':..., 'locals': set, 'globals': set}
        self.uid = 0
        self.module_names = set()

    # -- scope handling -------------------------------------------------------------------------------------
    def visit_Module(self, node):
        self.module_names = set(assigned(node.body))
        self.scopes.append({'kind': 'module', 'locals': set(), 'decl': {}})
        node.body = self._stmts(node.body)
        self.scopes.pop()
        return node

    def _stmts(self, stmts):
        out = []
        for s in stmts:
            r = self.visit(s)
            if r is None:
                continue
            out.extend(r if isinstance(r, list) else [r])
        return out

    def visit_ClassDef(self, node):
        node.decorator_list = [self.visit(d) for d in node.decorator_list]
        node.bases = [self.visit(d) for d in node.bases]
        self.scopes.append({'kind': 'class', 'locals': set(assigned(node.body)), 'decl': {}})
        node.body = self._stmts(node.body)
        self.scopes.pop()
        return node

    def _args(self, a):
        return {x.arg for x in a.posonlyargs + a.args + a.kwonlyargs + ([a.vararg] if a.vararg else [])
                + ([a.kwarg] if a.kwarg else [])}

    def visit_FunctionDef(self, node):
        node.decorator_list = [self.visit(d) for d in node.decorator_list]
        node.args.defaults = [self.visit(d) for d in node.args.defaults]
        node.args.kw_defaults = [self.visit(d) if d else None for d in node.args.kw_defaults]
        decl = {}
        for x in node.body:
            for y in ast.walk(x):
                if isinstance(y, ast.Global):
                    decl.update({n: 'global' for n in y.names})
                if isinstance(y, ast.Nonlocal):
                    decl.update({n: 'nonlocal' for n in y.names})
        loc = self._args(node.args) | set(assigned(node.body)) - set(decl)
        isgen = any(_contains(s, (ast.Yield, ast.YieldFrom, ast.Await)) for s in node.body)
        self.scopes.append({'kind': 'func', 'locals': loc, 'decl': decl, 'name': node.name, 'gen': isgen})
        node.body = self._stmts(node.body)
        self.scopes.pop()
        if self.scopes[-1]['kind'] == 'func' and not node.decorator_list and isinstance(node, ast.FunctionDef):
            node.decorator_list = [_vc('fn')]
        if node.name in ('__init__', '__post_init__') and node.args.args:
            node.body.insert(0, ast.copy_location(ast.Expr(value=_call('born', _n(node.args.args[0].arg))), node))
        return node

    visit_AsyncFunctionDef = visit_FunctionDef

    def visit_Lambda(self, node):
        node.args.defaults = [self.visit(d) for d in node.args.defaults]
        self.scopes.append({'kind': 'lambda', 'locals': self._args(node.args), 'decl': {}})
        node.body = self.visit(node.body)
        self.scopes.pop()
        return node

    def _is_builtin(self, name):
        if name not in BUILTINS or name in self.module_names:
            return False
        return not any(name in s['locals'] for s in self.scopes if s['kind'] != 'class')

    def _fscope(self):
        for s in reversed(self.scopes):
            if s['kind'] in ('func',):
                return s
            if s['kind'] in ('class', 'module'):
                return None
        return None

    # -- annotations stay untouched ---------------------------------------------------------------------------
    def visit_AnnAssign(self, node):
        if node.value is not None:
            node.value = self.visit(node.value)
        if isinstance(node.target, (ast.Attribute, ast.Subscript)) and node.value is not None:
            node.target = self.visit(node.target)
            return self._barrier([node.target], node)
        if isinstance(node.target, ast.Name) and self.scopes[-1]['kind'] == 'func':
            # annotations of locals are never evaluated; `nonlocal` is not allowed on annotated names
            if node.value is None:
                return ast.copy_location(ast.Pass(), node)
            return ast.copy_location(ast.Assign(targets=[node.target], value=node.value), node)
        return node

    def visit_arg(self, node):
        return node

    # -- writes -------------------------------------------------------------------------------------------------
    def _barrier(self, targets, stmt):
        if self._fscope() is None:
            return stmt
        pre = []
        flat = []
        for t in targets:
            flat.extend(t.elts if isinstance(t, (ast.Tuple, ast.List)) else [t])
        for t in flat:
            if isinstance(t, (ast.Attribute, ast.Subscript)):
                if _contains(t.value, (ast.Call, ast.NamedExpr)):
                    key = ast.Constant(value='?')
                    pre.append(ast.Expr(value=_call('wr_unknown')))
                else:
                    pre.append(ast.Expr(value=_call('wr', self._reload(t.value))))
        for x in pre:
            ast.copy_location(x, stmt)
            ast.fix_missing_locations(x)
        return pre + [stmt]

    @staticmethod
    def _reload(expr):
        import copy
        return copy.deepcopy(expr)

    def visit_Assign(self, node):
        node.value = self.visit(node.value)
        raw = node.targets
        node.targets = [self.visit(t) for t in node.targets]
        if self._fscope() is not None and any(isinstance(t, ast.Subscript) for t in node.targets):
            # o[k] = v   ->   __vc.setitem(v, o, k), targets from left to right
            if len(node.targets) == 1:
                t = node.targets[0]
                new = ast.Expr(value=_call('setitem', node.value, t.value, self._slice(t.slice)))
                return ast.fix_missing_locations(ast.copy_location(new, node))
            out = [ast.Assign(targets=[_n('__vc_v', ast.Store())], value=node.value)]
            for t in node.targets:
                if isinstance(t, ast.Subscript):
                    out.append(ast.Expr(value=_call('setitem', _n('__vc_v'), t.value, self._slice(t.slice))))
                else:
                    out.extend(self._barrier([t], ast.Assign(targets=[t], value=_n('__vc_v'))))
            for x in out:
                ast.copy_location(x, node)
                ast.fix_missing_locations(x)
            return out
        return self._barrier(raw, node)

    @staticmethod
    def _slice(sl):
        if isinstance(sl, ast.Slice):
            none = ast.Constant(value=None)
            return ast.Call(func=_n('slice'), args=[sl.lower or none, sl.upper or none, sl.step or none], keywords=[])
        return sl

    def visit_AugAssign(self, node):
        node.value = self.visit(node.value)
        raw = node.target
        node.target = self.visit(node.target)
        if isinstance(node.target, ast.Name):
            # x op= v   ->  x = __vc.aug('op', x, v)   (in-place on tracked containers)
            new = ast.Assign(targets=[_n(node.target.id, ast.Store())],
                             value=_call('aug', ast.Constant(value=type(node.op).__name__), _n(node.target.id),
                                         node.value))
            return ast.copy_location(new, node)
        return self._barrier([raw], node)

    def visit_Delete(self, node):
        raw = node.targets
        if self._fscope() is not None and len(raw) == 1 and isinstance(raw[0], ast.Subscript) \
                and not isinstance(raw[0].slice, ast.Slice):
            t = raw[0]
            return ast.copy_location(ast.Expr(value=_call('delitem', self.visit(t.value), self.visit(t.slice))), node)
        node.targets = [self.visit(t) for t in node.targets]
        return self._barrier(raw, node)

    # -- expressions ------------------------------------------------------------------------------------------
    def visit_Call(self, node):
        f = node.func
        self.generic_visit(node)
        if isinstance(f, ast.Name) and self._is_builtin(f.id):
            node.func = _vc('b_' + f.id)
        elif isinstance(f, ast.Attribute) and (f.attr in MUTATORS or f.attr in SMETHODS) \
                and not (isinstance(f.value, ast.Call) and isinstance(f.value.func, ast.Name)
                         and f.value.func.id == 'super'):
            node = ast.Call(func=_vc('mcall'), args=[node.func.value, ast.Constant(value=f.attr), *node.args],
                            keywords=node.keywords)
        return node

    def visit_Subscript(self, node):
        self.generic_visit(node)
        if isinstance(node.ctx, ast.Load) and self._fscope() is not None:
            sl = node.slice
            if isinstance(sl, ast.Slice):
                sl = ast.Call(func=_n('slice'), args=[x if x is not None else ast.Constant(value=None)
                                                      for x in (sl.lower, sl.upper, sl.step)], keywords=[])
            return ast.copy_location(_call('sub', node.value, sl), node)
        return node

    def visit_Compare(self, node):
        self.generic_visit(node)
        if len(node.ops) == 1:
            op = node.ops[0]
            table = {ast.Is: 'is_', ast.IsNot: 'is_not', ast.In: 'in_', ast.NotIn: 'not_in'}
            if type(op) in table:
                return ast.copy_location(_call(table[type(op)], node.left, node.comparators[0]), node)
        return node

    def visit_UnaryOp(self, node):
        self.generic_visit(node)
        if isinstance(node.op, ast.Not) and self.scopes[-1]['kind'] == 'lambda' and self._fscope() is not None:
            return ast.copy_location(_call('not_', node.operand), node)
        return node

    def visit_ExceptHandler(self, node):
        # a handler for everything does not see the verifier's own signals
        self.generic_visit(node)
        if node.type is None or isinstance(node.type, ast.Name) and node.type.id == 'BaseException':
            node.type = ast.copy_location(_vc('ANY_EXC'), node)
        return node

    def visit_JoinedStr(self, node):
        self.generic_visit(node)
        parts = []
        for v in node.values:
            if isinstance(v, ast.FormattedValue):
                spec = v.format_spec
                if isinstance(spec, ast.Call):  # nested joined string already rewritten
                    pass
                parts.append(ast.Tuple(elts=[v.value, ast.Constant(value=v.conversion),
                                             spec if spec is not None else ast.Constant(value='')], ctx=ast.Load()))
            else:
                parts.append(v)
        return ast.copy_location(_call('fstr', *parts), node)

    def visit_List(self, node):
        self.generic_visit(node)
        if isinstance(node.ctx, ast.Load) and self._fscope() is not None:
            return ast.copy_location(_call('mklist', *self._display(node.elts)), node)
        return node

    def visit_Set(self, node):
        self.generic_visit(node)
        if self._fscope() is not None:
            return ast.copy_location(_call('mkset', *self._display(node.elts)), node)
        return node

    def visit_Tuple(self, node):
        self.generic_visit(node)
        if isinstance(node.ctx, ast.Load) and any(isinstance(e, ast.Starred) for e in node.elts):
            return ast.copy_location(_call('mktuple', *self._display(node.elts)), node)
        return node

    def visit_Dict(self, node):
        self.generic_visit(node)
        if self._fscope() is not None:
            items = []
            for k, v in zip(node.keys, node.values):
                items.append(ast.Tuple(elts=[k, v], ctx=ast.Load()) if k is not None else
                             _call('star', v))
            return ast.copy_location(_call('mkdict', *items), node)
        return node

    @staticmethod
    def _display(elts):
        return [_call('star', e.value) if isinstance(e, ast.Starred) else e for e in elts]

    def _comp(self, node, kind):
        plain = self._fscope() is not None and len(node.generators) >= 1 and \
            not any(g.is_async for g in node.generators) and not _contains(node, ast.NamedExpr) \
            and not _contains(node, (ast.Yield, ast.YieldFrom, ast.Await))
        walrus_one = (self._fscope() is not None and len(node.generators) == 1 and _contains(node, ast.NamedExpr)
                      and kind != 'dict')
        if walrus_one:
            # [E for T in IT if C]  ->  comp(IT, lambda T: (E,) if C else None) keeps the walrus inside one lambda:
            g = node.generators[0]
            names = {x.target.id for x in ast.walk(node) if isinstance(x, ast.NamedExpr)}
            tnames = {x.id for x in ast.walk(g.target) if isinstance(x, ast.Name)}
            if not (isinstance(g.target, ast.Name)) or names & tnames:
                walrus_one = False
            if any(isinstance(x, ast.NamedExpr) for x in ast.walk(g.iter)):
                walrus_one = False
        if not plain and not walrus_one:
            self.generic_visit(node)
            return node

        if walrus_one:
            g = node.generators[0]
            it = self.visit(g.iter)
            self.scopes.append({'kind': 'lambda', 'locals': {g.target.id}, 'decl': {}})
            elt = self.visit(node.elt)
            conds = [self.visit(c) for c in g.ifs]
            self.scopes.pop()
            # the walrus name becomes local to the lambda; reading it after the comprehension is not supported
            test = conds[0] if len(conds) == 1 else (ast.BoolOp(op=ast.And(), values=conds) if conds
                                                     else ast.Constant(value=True))
            body = ast.IfExp(test=test, body=ast.Tuple(elts=[elt], ctx=ast.Load()),
                             orelse=ast.Constant(value=None))
            lam = ast.Lambda(args=ast.arguments(posonlyargs=[], args=[ast.arg(arg=g.target.id)], kwonlyargs=[],
                                                kw_defaults=[], defaults=[]), body=body)
            return ast.copy_location(_call('comp1', ast.Constant(value=kind), it, lam), node)

        gens = node.generators
        if kind == 'dict':
            elt0 = ast.Tuple(elts=[node.key, node.value], ctx=ast.Load())
        else:
            elt0 = node.elt
        return ast.copy_location(self._comp_rec(kind, gens, elt0, 0), node)

    def _comp_rec(self, kind, gens, elt0, i):
        g = gens[i]
        it = self.visit(g.iter)
        names = [x.id for x in ast.walk(g.target) if isinstance(x, ast.Name)]
        self.scopes.append({'kind': 'lambda', 'locals': set(names), 'decl': {}})
        conds = [self.visit(c) for c in g.ifs]
        if i + 1 < len(gens):
            inner = self._comp_rec('gen', gens, elt0, i + 1)
            nested = True
        else:
            inner = self.visit(elt0)
            nested = False
        self.scopes.pop()
        elt_f = self._lam(g.target, inner)
        cond_f = ast.Constant(value=None) if not conds else \
            self._lam(g.target, conds[0] if len(conds) == 1 else ast.BoolOp(op=ast.And(), values=conds))
        return _call('comp', ast.Constant(value=kind), it, elt_f, cond_f, ast.Constant(value=nested))

    def _lam(self, target, body):
        if isinstance(target, ast.Name):
            args = [ast.arg(arg=target.id)]
            return ast.Lambda(args=ast.arguments(posonlyargs=[], args=args, kwonlyargs=[], kw_defaults=[],
                                                 defaults=[]), body=body)
        if isinstance(target, (ast.Tuple, ast.List)) and all(isinstance(e, ast.Name) for e in target.elts):
            args = [ast.arg(arg=e.id) for e in target.elts]
            inner = ast.Lambda(args=ast.arguments(posonlyargs=[], args=args, kwonlyargs=[], kw_defaults=[],
                                                  defaults=[]), body=body)
            outer = ast.Lambda(args=ast.arguments(posonlyargs=[], args=[ast.arg(arg='__t')], kwonlyargs=[],
                                                  kw_defaults=[], defaults=[]),
                               body=_call('unpack_call', inner, _n('__t'), ast.Constant(value=len(args))))
            return outer
        raise NotImplementedError('comprehension target')

    def visit_ListComp(self, node):
        return self._comp(node, 'list')

    def visit_SetComp(self, node):
        return self._comp(node, 'set')

    def visit_GeneratorExp(self, node):
        return self._comp(node, 'gen')

    def visit_DictComp(self, node):
        return self._comp(node, 'dict')

    # -- loops ---------------------------------------------------------------------------------------------------
    def _loop_ok(self, node):
        fs = self._fscope()
        if fs is None or self.scopes[-1]['kind'] != 'func':
            return False
        if _contains(node, (ast.Yield, ast.YieldFrom, ast.Await)) or _has_super(node):
            return False
        if any(isinstance(x, (ast.Global, ast.Nonlocal)) for s in node.body for x in ast.walk(s)):
            return False
        return True

    def _state_fns(self, names, allnames, uid, decls):
        """getter: dict of all readable locals; setter: assigns the modified ones"""
        g = f'__get{uid}'
        s = f'__set{uid}'
        src = f'def {g}():\n  __d = {{}}\n'
        for n in allnames:
            src += f'  try:\n    __d[{n!r}] = {n}\n  except NameError:\n    pass\n'
        src += '  return __d\n'
        src += f'def {s}(__d):\n'
        nl = [n for n in names]
        if nl:
            src += f'  nonlocal {", ".join(nl)}\n' if not decls else ''
            for n in nl:
                src += (f'  if {n!r} in __d: {n} = __d[{n!r}]\n')
        src += '  pass\n'
        return ast.parse(src).body, g, s

    def _loop(self, node, is_for):
        if not self._loop_ok(node):
            self.generic_visit(node)
            return node
        fs = self.scopes[-1]
        uid = self.uid
        self.uid += 1
        if is_for:
            tnames = [x.id for x in ast.walk(node.target) if isinstance(x, ast.Name)]
        else:
            tnames = []
        tests = [ast.Expr(value=node.test)] if not is_for else []
        mods = assigned(node.body + tests)
        mods = [m for m in mods if m not in tnames] + tnames
        bad = [m for m in mods if fs['decl'].get(m) == 'global']
        if bad:
            self.generic_visit(node)
            return node
        site = f'{self.modname}:{fs["name"]}:L{node.lineno}'
        LOOPS[site] = hashlib.md5(ast.dump(node).encode()).hexdigest()
        # visit children first (inner loops are rewritten first), then encode the exits of this one
        if is_for:
            node.iter = self.visit(node.iter)
        else:
            node.test = self.visit(node.test)
        body = self._stmts(node.body)
        orelse = self._stmts(node.orelse)
        ex = _LoopExits()
        body = [ex.visit(s) for s in body]
        bname = f'__body{uid}'
        el = f'__elem{uid}'
        bsrc = []
        if mods:
            bsrc.append(ast.Nonlocal(names=list(mods)))
        if is_for:
            if any(isinstance(x, (ast.Attribute, ast.Subscript)) for x in ast.walk(node.target)):
                raise NotImplementedError('loop target')
            if isinstance(node.target, ast.Name):
                bsrc.append(ast.Assign(targets=[node.target], value=_n(el)))
            else:
                bsrc.append(ast.Assign(targets=[node.target],
                                       value=_call('unpack', _n(el), ast.Constant(value=len(node.target.elts)))))
        r = ast.Return(value=_vc('CONT'))
        r._coded = True
        fargs = ast.arguments(posonlyargs=[], args=[ast.arg(arg=el)] if is_for else [], kwonlyargs=[], kw_defaults=[],
                              defaults=[])
        bdef = ast.FunctionDef(name=bname, args=fargs, body=bsrc + body + [r], decorator_list=[], type_params=[])
        allnames = sorted(n for n in fs['locals'] if not n.startswith('__') or n.endswith('__'))
        sdefs, g, s = self._state_fns(mods, allnames, uid, False)
        rn = f'__r{uid}'
        # make sure nonlocal names are locals of the enclosing function even if only bound in the body: they are,
        # since the body used to be part of it; emit a dead binding so that CPython sees them
        dead = [ast.If(test=ast.Constant(value=False),
                       body=[ast.Assign(targets=[_n(m, ast.Store())], value=ast.Constant(value=None)) for m in mods] or
                            [ast.Pass()], orelse=[])]
        mods_lit = ast.Tuple(elts=[ast.Constant(value=m) for m in mods], ctx=ast.Load())
        if is_for:
            call = _call('for_', ast.Constant(value=site), node.iter, _n(bname), _n(g), _n(s), mods_lit)
            pre = []
        else:
            cname = f'__cond{uid}'
            cbody = ([ast.Nonlocal(names=list(mods))] if mods else []) + [ast.Return(value=node.test)]
            cbody[-1]._coded = True
            cdef = ast.FunctionDef(name=cname, args=ast.arguments(posonlyargs=[], args=[], kwonlyargs=[],
                                                                 kw_defaults=[], defaults=[]),
                                   body=cbody, decorator_list=[], type_params=[])
            pre = [cdef]
            call = _call('while_', ast.Constant(value=site), _n(cname), _n(bname), _n(g), _n(s), mods_lit)
        out = dead + sdefs + pre + [bdef, ast.Assign(targets=[_n(rn, ast.Store())], value=call)]
        retst = ast.Return(value=ast.Attribute(value=_n(rn), attr='value', ctx=ast.Load()))
        out.append(ast.If(test=_call('is_ret', _n(rn)), body=[retst], orelse=[]))
        if orelse:
            out.append(ast.If(test=_call('is_done', _n(rn)), body=orelse, orelse=[]))
        for o in out:
            ast.copy_location(o, node)
            ast.fix_missing_locations(o)
        if fs['kind'] == 'func':
            fs['locals'] |= {rn, bname, g, s}
        return out

    def visit_For(self, node):
        return self._loop(node, True)

    def visit_While(self, node):
        return self._loop(node, False)


LOOPS = {}  # loop -> fingerprint of its text


def instrument_source(src, modname, filename):
    tree = ast.parse(src, filename)
    tree = Instrumenter(modname).visit(tree)
    # the runtime is bound after `from __future__` imports and the docstring
    idx = 0
    while idx < len(tree.body) and (
            (isinstance(tree.body[idx], ast.Expr) and isinstance(tree.body[idx].value, ast.Constant)) or
            (isinstance(tree.body[idx], ast.ImportFrom) and tree.body[idx].module == '__future__')):
        idx += 1
    imp = ast.parse('from pyvc import runtime as __vc__').body
    tree.body[idx:idx] = imp
    ast.fix_missing_locations(tree)
    return tree
