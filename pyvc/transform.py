"""Mechanical transformation of the real source before execution.

What changes (nothing else does):
  * `for`/`while` bodies become closures handed to __pv__.loop / __pv__.while_
    (so that loops over symbolic iterables can be summarised);
  * comprehensions are routed through __pv__.comp (native when concrete);
  * list/dict/set displays build SList/TDict/TSet (logged containers);
  * attribute stores go through __pv__.setattr (logged);
  * bare `except:` becomes `except Exception:`;
  * a generator function may, where a task names it in C.eager, collect what it yields
    into a list when it is called (otherwise it runs as a generator);
  * '%'-formatting of string literals goes through __pv__.strmod.
"""
import ast
import copy

GEN, EAG, ACC = '__pvgen', '__pveager', '__pvacc'


def load(name):
    return ast.Name(id=name, ctx=ast.Load())


def pv(attr):
    return ast.Attribute(value=load('__pv__'), attr=attr, ctx=ast.Load())


def call(f, *args):
    return ast.Call(func=f, args=list(args), keywords=[])


class Stores(ast.NodeVisitor):
    """names bound by a statement list in the scope they are in"""

    def __init__(self):
        self.names = set()
        self.has_yield = False
        self.has_return = False
        self.bad = False
        self.globals = set()

    def visit_Name(self, n):
        if isinstance(n.ctx, (ast.Store, ast.Del)):
            self.names.add(n.id)

    def visit_FunctionDef(self, n):
        self.names.add(n.name)
        for d in n.decorator_list + n.args.defaults + [x for x in n.args.kw_defaults if x]:
            self.visit(d)

    visit_AsyncFunctionDef = visit_FunctionDef

    def visit_ClassDef(self, n):
        self.names.add(n.name)

    def visit_Lambda(self, n):
        pass

    def _comp(self, n):
        self.visit(n.generators[0].iter)
    visit_ListComp = visit_SetComp = visit_DictComp = visit_GeneratorExp = _comp

    def visit_Yield(self, n):
        self.has_yield = True
        self.generic_visit(n)
    visit_YieldFrom = visit_Yield

    def visit_Return(self, n):
        self.has_return = True
        self.generic_visit(n)

    def visit_Import(self, n):
        for a in n.names:
            self.names.add((a.asname or a.name).split('.')[0])

    def visit_ImportFrom(self, n):
        for a in n.names:
            if a.name == '*':
                self.bad = True
            else:
                self.names.add(a.asname or a.name)

    def visit_ExceptHandler(self, n):
        if n.name:
            self.names.add(n.name)
            # `except E as e` deletes e: not transferable into a closure
        self.generic_visit(n)

    def visit_Global(self, n):
        self.globals.update(n.names)

    def visit_Nonlocal(self, n):
        self.globals.update(n.names)
        self.bad = True


def stores(stmts):
    s = Stores()
    for x in stmts:
        s.visit(x)
    return s


class Eager(ast.NodeTransformer):
    """yield x  ->  append x to the list of results"""
    ok = True

    def visit_FunctionDef(self, n):
        return n

    visit_Lambda = visit_ClassDef = visit_FunctionDef

    def visit_Expr(self, n):
        if isinstance(n.value, ast.Yield):
            v = n.value.value or ast.Constant(value=None)
            self.visit(v)
            e = ast.Expr(value=call(ast.Attribute(value=load(ACC), attr='append', ctx=ast.Load()), v))
            return ast.fix_missing_locations(ast.copy_location(e, n))
        return self.generic_visit(n)

    def visit_Yield(self, n):
        self.ok = False
        return n

    visit_YieldFrom = visit_Yield

    def visit_Return(self, n):
        return ast.fix_missing_locations(ast.copy_location(ast.Return(value=load(ACC)), n))


class ZeroSuper(ast.NodeVisitor):
    def __init__(self):
        self.found = False

    def visit_Call(self, n):
        if isinstance(n.func, ast.Name) and n.func.id == 'super' and not n.args:
            self.found = True
        if isinstance(n.func, ast.Name) and n.func.id in ('locals', 'exec', 'eval', 'vars'):
            self.found = True
        self.generic_visit(n)


class Tr(ast.NodeTransformer):
    def __init__(self, modname):
        self.mod = modname
        self.scope = []          # qualname parts
        self.fn = []             # stack of function info dicts
        self.cls = [None]
        self.n = 0

    # ---- scopes
    def visit_ClassDef(self, n):
        self.scope.append(n.name)
        self.cls.append(n.name)
        self.fn.append(None)
        self.generic_visit(n)
        self.fn.pop()
        self.cls.pop()
        self.scope.pop()
        return n

    def visit_FunctionDef(self, n):
        z = ZeroSuper()
        z.visit(n)
        n = self._generator(n, z)
        args = [a.arg for a in n.args.posonlyargs + n.args.args + n.args.kwonlyargs]
        if n.args.vararg:
            args.append(n.args.vararg.arg)
        if n.args.kwarg:
            args.append(n.args.kwarg.arg)
        st = stores(n.body)
        info = {'loops': 0, 'ok': not z.found and not st.bad, 'globals': st.globals,
                'body_depth': 0, 'need': set(), 'args': args,
                'qual': '.'.join(self.scope + ([] if n.name in (GEN, EAG) else [n.name]))}
        n.decorator_list = [self.visit(d) for d in n.decorator_list]
        n.args = self.visit(n.args)
        self.scope.append(n.name)
        self.fn.append(info)
        body = []
        for s in n.body:
            r = self.visit(s)
            if isinstance(r, list):
                body += r
            elif r is not None:
                body.append(r)
        self.fn.pop()
        self.scope.pop()
        need = sorted(info['need'] - set(args))
        if need:
            doc = []
            if body and isinstance(body[0], ast.Expr) and isinstance(body[0].value, ast.Constant):
                doc, body = body[:1], body[1:]
            dead = ast.If(test=ast.Constant(value=False),
                          body=[ast.Assign(targets=[ast.Name(id=x, ctx=ast.Store())],
                                           value=ast.Constant(value=None)) for x in need], orelse=[])
            body = doc + [dead] + body
        n.body = body
        return n

    def _generator(self, n, z):
        """def g(..): ..yield x..   ->   runs as it is, or (where a task asks for it) collects
        what it yields into a list when it is called"""
        st = stores(n.body)
        if not st.has_yield or z.found or st.bad or st.globals or n.name == GEN or n.args.vararg or n.args.kwarg:
            return n
        e = Eager()
        eager = [e.visit(x) for x in copy.deepcopy(n.body)]
        if not e.ok:
            return n
        names = [a.arg for a in n.args.posonlyargs + n.args.args + n.args.kwonlyargs]
        doc, body = [], n.body
        if isinstance(body[0], ast.Expr) and isinstance(body[0].value, ast.Constant):
            doc = body[:1]
        acc = ast.Assign(targets=[ast.Name(id=ACC, ctx=ast.Store())], value=ast.List(elts=[], ctx=ast.Load()))
        gen = ast.FunctionDef(name=GEN, args=_args(names), body=list(body), decorator_list=[], type_params=[])
        eag = ast.FunctionDef(name=EAG, args=_args(names), body=[acc] + eager + [ast.Return(value=load(ACC))],
                              decorator_list=[], type_params=[])
        key = ast.Constant(value='.'.join(self.scope + [n.name]))
        r = ast.Return(value=ast.IfExp(test=call(pv('eager'), key), body=call(load(EAG), *[load(x) for x in names]),
                                       orelse=call(load(GEN), *[load(x) for x in names])))
        n.body = doc + [gen, eag, r]
        for o in n.body:
            ast.copy_location(o, n)
            ast.fix_missing_locations(o)
        return n

    def visit_Lambda(self, n):
        self.fn.append(None)
        self.generic_visit(n)
        self.fn.pop()
        return n

    # ---- loops
    def _loop(self, n, is_for):
        info = self.fn[-1] if self.fn else None
        st = stores(n.body + ([ast.Assign(targets=[n.target], value=ast.Constant(value=0))] if is_for else []))
        if info is None or not info['ok'] or st.has_yield or st.bad:
            if info is not None:
                info['loops'] += 1
            return self.generic_visit(n)
        ordinal = info['loops']
        info['loops'] += 1
        self.n += 1
        uid = '%d' % self.n
        names = sorted(st.names - info['globals'])
        info['need'].update(names)
        it = self.visit(n.iter) if is_for else None
        test = self.visit(n.test) if not is_for else None
        info['body_depth'] += 1
        saved = info.get('native_loop')
        info['native_loop'] = False
        body = self._stmts(n.body)
        info['native_loop'] = saved
        info['body_depth'] -= 1
        body = BreakContinue().run(body)
        orelse = self._stmts(n.orelse)
        nl = [ast.Nonlocal(names=names)] if names else []
        gl = [ast.Global(names=sorted(info['globals'] & st.names))] if info['globals'] & st.names else []
        bname, sname, rname = '__pvb_' + uid, '__pvs_' + uid, '__pvr_' + uid
        pre = []
        if is_for:
            pre = [ast.Assign(targets=[n.target], value=load('__pvx'))]
        bdef = ast.FunctionDef(name=bname, args=_args(['__pvx'] if is_for else []),
                               body=nl + gl + pre + body, decorator_list=[], type_params=[])
        sets = [ast.If(test=ast.Compare(left=ast.Constant(value=x), ops=[ast.In()], comparators=[load('__pvd')]),
                       body=[ast.Assign(targets=[ast.Name(id=x, ctx=ast.Store())],
                                        value=ast.Subscript(value=load('__pvd'), slice=ast.Constant(value=x), ctx=ast.Load()))],
                       orelse=[]) for x in names]
        sdef = ast.FunctionDef(name=sname, args=_args(['__pvd']), body=nl + (sets or [ast.Pass()]),
                               decorator_list=[], type_params=[])
        getter = ast.Tuple(elts=[ast.Tuple(elts=[ast.Constant(value=x), ast.Lambda(args=_args([]), body=load(x))],
                                           ctx=ast.Load()) for x in names], ctx=ast.Load())
        key = ast.Tuple(elts=[ast.Constant(value=self.mod), ast.Constant(value=info['qual']),
                              ast.Constant(value=ordinal)], ctx=ast.Load())
        if is_for:
            c = call(pv('loop'), key, it, load(bname), getter, load(sname))
        else:
            c = call(pv('while_'), key, ast.Lambda(args=_args([]), body=test), load(bname), getter, load(sname))
        asg = ast.Assign(targets=[ast.Name(id=rname, ctx=ast.Store())], value=c)
        out = [bdef, sdef, asg]
        if st.has_return:
            if info['body_depth'] > 0:
                ret = ast.Return(value=load(rname))
            else:
                ret = ast.Return(value=ast.Attribute(value=load(rname), attr='v', ctx=ast.Load()))
            out.append(ast.If(test=call(pv('is_ret'), load(rname)), body=[ret], orelse=[]))
        if orelse:
            out.append(ast.If(test=ast.Compare(left=load(rname), ops=[ast.Is()], comparators=[ast.Constant(value=None)]),
                              body=orelse, orelse=[]))
        for o in out:
            ast.copy_location(o, n)
            ast.fix_missing_locations(o)
        return out

    def _stmts(self, l):
        out = []
        for s in l:
            r = self.visit(s)
            if isinstance(r, list):
                out += r
            elif r is not None:
                out.append(r)
        return out

    def visit_For(self, n):
        return self._loop(n, True)

    def visit_While(self, n):
        return self._loop(n, False)

    def visit_Return(self, n):
        self.generic_visit(n)
        info = self.fn[-1] if self.fn else None
        if info and info['body_depth'] > 0:
            n.value = call(pv('Ret'), n.value or ast.Constant(value=None))
            n._pv_ret = True
            ast.fix_missing_locations(n)
        return n

    # ---- comprehensions
    def _comp(self, n, kind):
        first = n.generators[0]
        it = self.visit(first.iter)
        self.fn.append(None)
        # the remaining parts
        for i, g in enumerate(n.generators):
            g.target = self.visit(g.target)
            if i:
                g.iter = self.visit(g.iter)
            g.ifs = [self.visit(x) for x in g.ifs]
        if isinstance(n, ast.DictComp):
            n.key, n.value = self.visit(n.key), self.visit(n.value)
        else:
            n.elt = self.visit(n.elt)
        self.fn.pop()
        first.iter = load('__pvi')
        inner = n
        if isinstance(n, ast.GeneratorExp):
            pass
        r = call(pv('comp'), ast.Constant(value=kind), it, ast.Lambda(args=_args(['__pvi']), body=inner))
        ast.copy_location(r, n)
        return ast.fix_missing_locations(r)

    def visit_ListComp(self, n):
        if _uses_class_private(n):
            pass
        return self._comp(n, 'list')

    def visit_SetComp(self, n):
        return self._comp(n, 'set')

    def visit_DictComp(self, n):
        return self._comp(n, 'dict')

    def visit_GeneratorExp(self, n):
        return self._comp(n, 'gen')

    # ---- displays
    def visit_List(self, n):
        self.generic_visit(n)
        if isinstance(n.ctx, ast.Load):
            return ast.copy_location(ast.fix_missing_locations(ast.copy_location(call(pv('SList'), ast.Tuple(elts=n.elts, ctx=ast.Load())), n)), n)
        return n

    def visit_Dict(self, n):
        self.generic_visit(n)
        return ast.fix_missing_locations(ast.copy_location(call(pv('TDict'), n), n))

    def visit_Set(self, n):
        self.generic_visit(n)
        return ast.fix_missing_locations(ast.copy_location(call(pv('TSet'), n), n))

    # ---- attribute stores
    def _mangle(self, a):
        c = self.cls[-1]
        if c and a.startswith('__') and not a.endswith('__'):
            return '_%s%s' % (c.lstrip('_'), a)
        return a

    def visit_Assign(self, n):
        self.generic_visit(n)
        if not self.fn or all(f is None for f in self.fn):
            return n
        if len(n.targets) == 1 and isinstance(n.targets[0], ast.Attribute):
            t = n.targets[0]
            e = ast.Expr(value=call(pv('setattr'), t.value, ast.Constant(value=self._mangle(t.attr)), n.value))
            return ast.fix_missing_locations(ast.copy_location(e, n))
        if any(isinstance(t, ast.Attribute) for t in n.targets):
            self.n += 1
            tmp = '__pvt_%d' % self.n
            out = [ast.Assign(targets=[ast.Name(id=tmp, ctx=ast.Store())], value=n.value)]
            for t in n.targets:
                if isinstance(t, ast.Attribute):
                    out.append(ast.Expr(value=call(pv('setattr'), t.value, ast.Constant(value=self._mangle(t.attr)), load(tmp))))
                else:
                    out.append(ast.Assign(targets=[t], value=load(tmp)))
            for o in out:
                ast.fix_missing_locations(ast.copy_location(o, n))
            return out
        return n

    def visit_AugAssign(self, n):
        self.generic_visit(n)
        if isinstance(n.target, ast.Attribute) and self.fn and any(f is not None for f in self.fn):
            t = n.target
            e = ast.Expr(value=call(pv('augattr'), t.value, ast.Constant(value=self._mangle(t.attr)),
                                    ast.Constant(value=type(n.op).__name__), n.value))
            return ast.fix_missing_locations(ast.copy_location(e, n))
        return n

    def visit_ExceptHandler(self, n):
        self.generic_visit(n)
        if n.type is None:
            n.type = load('Exception')
            ast.fix_missing_locations(n)
        return n

    def visit_BinOp(self, n):
        self.generic_visit(n)
        if isinstance(n.op, ast.Mod) and isinstance(n.left, ast.Constant) and isinstance(n.left.value, str):
            return ast.fix_missing_locations(ast.copy_location(call(pv('strmod'), n.left, n.right), n))
        return n


def _uses_class_private(n):
    return False


def _args(names):
    return ast.arguments(posonlyargs=[], args=[ast.arg(arg=x) for x in names], vararg=None,
                         kwonlyargs=[], kw_defaults=[], kwarg=None, defaults=[])


class BreakContinue(ast.NodeTransformer):
    """break -> return BRK, continue -> return None (this loop's body only)"""

    def run(self, body):
        out = []
        for s in body:
            r = self.visit(s)
            out += r if isinstance(r, list) else [r]
        return out

    def visit_FunctionDef(self, n):
        return n

    def visit_Lambda(self, n):
        return n

    def visit_For(self, n):      # native inner loop: its break/continue are its own
        n.orelse = self.run(n.orelse)
        return n

    def visit_While(self, n):
        n.orelse = self.run(n.orelse)
        return n

    def visit_Break(self, n):
        return ast.fix_missing_locations(ast.copy_location(ast.Return(value=pv('BRK')), n))

    def visit_Continue(self, n):
        return ast.fix_missing_locations(ast.copy_location(ast.Return(value=ast.Constant(value=None)), n))


def transform(src, modname, filename):
    tree = ast.parse(src, filename)
    tree = Tr(modname).visit(tree)
    ast.fix_missing_locations(tree)
    return compile(tree, filename, 'exec')
