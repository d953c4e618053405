"""Statements, expressions and calls of the interpreted Python subset."""
import ast
import builtins

import z3

from vals import *
from engine import Engine, Env, BUILTINS, isz

OPAQUE_ATTRS = {'compact_str', '_repr'}
OPAQUE_FUNCS = {'__repr__', '__str__', '_repr_schedule_label', '_repr_builder'}
CMP = {ast.Lt: '<', ast.LtE: '<=', ast.Gt: '>', ast.GtE: '>=', ast.Eq: '==', ast.NotEq: '!=',
       ast.In: 'in', ast.NotIn: 'not in', ast.Is: 'is', ast.IsNot: 'is not'}


def method(f):
    setattr(Engine, f.__name__, f)
    return f


# ---------------------------------------------------------------- names
@method
def lookup(self, name, env):
    e = env
    while e is not None:
        f = self.heap[e.id].f
        if name in f:
            v = f[name]
            if isinstance(v, Poison):
                raise Unsupported('variable %s: %s' % (name, v.why))
            return v
        e = e.parent
    if name in env.mod.ns:
        return self.mod_get(env.mod, name)
    if name in BUILTINS:
        return LibV('builtins.' + name)
    if name == '__name__':
        return env.mod.name
    raise PyExc(NameError, name)


@method
def assign_name(self, name, v, env):
    e = env
    if name in env.globals_:
        e = env.parent
        while e is not None and name not in self.heap[e.id].f:
            e = e.parent
        if e is None:
            raise Unsupported('global/nonlocal assignment to %s' % name)
    rec = self.heap[e.id]
    f = dict(rec.f)
    f[name] = v
    self.heap[e.id] = rec.with_f(f)


@method
def assign(self, target, v, env):
    if isinstance(target, ast.Name):
        return self.assign_name(target.id, v, env)
    if isinstance(target, (ast.Tuple, ast.List)):
        v = self.force(v)
        s = self.seq(v)
        if s is None:
            s = self.drain(v)
        if isinstance(s, SSeq):
            if not (self.bound is None or True):
                pass
            n = len(target.elts)
            if not self.branch(self.z(s.n) == n):
                raise PyExc(ValueError, 'unpack')
            s = tuple(s.at(z3.IntVal(i)) for i in range(n))
        if any(isinstance(t, ast.Starred) for t in target.elts):
            raise Unsupported('starred assignment')
        if len(s) != len(target.elts):
            raise PyExc(ValueError, 'unpack')
        for t, x in zip(target.elts, s):
            self.assign(t, x, env)
        return
    if isinstance(target, ast.Attribute):
        name = self.mangle(target.attr, env.cls)
        if isinstance(target.value, ast.Subscript):
            # lst[i].name = v where the objects of the list were created in bulk: their only holder is the list
            c = self.force(self.eval(target.value.value, env))
            i = self.eval_index(target.value.slice, env)
            if isinstance(c, Ref) and self.rec(c).kind == 'list' and isinstance(self.rec(c).f['v'], SSeq) and not isinstance(i, slice):
                o = self.force(self.getitem(c, i))
                if isinstance(o, FInst):
                    if o.cls.lookup(name)[0] is not None:
                        raise Unsupported('attribute %s of %s' % (name, o.cls.name))
                    self.notes.add('objects created in bulk (one per element of a list) are held by that list only')
                    return self.setitem(c, i, FInst(o.cls, dict(o.f, **{name: v})))
                return self.setattr_(o, name, v)
            o = self.force(self.getitem(c, i))
            return self.setattr_(o, name, v)
        o = self.force(self.eval(target.value, env))
        return self.setattr_(o, name, v)
    if isinstance(target, ast.Subscript):
        o = self.force(self.eval(target.value, env))
        return self.setitem(o, self.eval_index(target.slice, env), v)
    raise Unsupported('assignment target %s' % type(target).__name__)


# ---------------------------------------------------------------- statements
@method
def exec_block(self, stmts, env):
    for st in stmts:
        self.exec(st, env)


@method
def exec(self, st, env):
    m = getattr(self, 's_' + type(st).__name__, None)
    if m is None:
        raise Unsupported('statement %s' % type(st).__name__)
    return m(st, env)


@method
def s_Expr(self, st, env):
    if isinstance(st.value, ast.Constant):
        return
    self.eval(st.value, env)


@method
def s_Pass(self, st, env):
    pass


@method
def s_Assign(self, st, env):
    v = self.eval(st.value, env)
    for t in st.targets:
        self.assign(t, v, env)


@method
def s_AnnAssign(self, st, env):
    if st.value is not None:
        self.assign(st.target, self.eval(st.value, env), env)


@method
def s_AugAssign(self, st, env):
    t = st.target
    if isinstance(t, ast.Name):
        cur = self.lookup(t.id, env)
        v = self.aug(st.op, cur, self.eval(st.value, env))
        self.assign_name(t.id, v, env)
    elif isinstance(t, ast.Attribute):
        o = self.force(self.eval(t.value, env))
        nm = self.mangle(t.attr, env.cls)
        v = self.aug(st.op, self.getattr_(o, nm), self.eval(st.value, env))
        self.setattr_(o, nm, v)
    elif isinstance(t, ast.Subscript):
        o = self.force(self.eval(t.value, env))
        i = self.eval_index(t.slice, env)
        v = self.aug(st.op, self.getitem(o, i), self.eval(st.value, env))
        self.setitem(o, i, v)
    else:
        raise Unsupported('augmented assignment')


@method
def aug(self, op, cur, val):
    cur = self.force(cur)
    if isinstance(cur, Ref) and self.rec(cur).kind == 'list' and isinstance(op, ast.Add):
        for x in self.as_tuple(val, 'list +='):
            self.list_append(cur, x)
        return cur
    if isinstance(cur, Ref) and self.rec(cur).kind in ('array', 'series'):
        raise Unsupported('in-place array operation')
    return self.binop(type(op).__name__, cur, val)


@method
def s_If(self, st, env):
    if self.branch(self.truth(self.eval(st.test, env))):
        self.exec_block(st.body, env)
    else:
        self.exec_block(st.orelse, env)


@method
def s_Return(self, st, env):
    raise ReturnEx(self.eval(st.value, env) if st.value is not None else None)


@method
def s_Break(self, st, env):
    raise BreakEx()


@method
def s_Continue(self, st, env):
    raise ContinueEx()


@method
def s_Raise(self, st, env):
    if st.exc is None:
        if not self.exc_stack:
            raise PyExc(RuntimeError, 'no active exception')
        raise self.exc_stack[-1]
    e = st.exc
    if isinstance(e, ast.Call):
        c = self.force(self.eval(e.func, env))
        # messages are text only; their arguments are not evaluated
    else:
        c = self.force(self.eval(e, env))
    if isinstance(c, ExcInst):
        raise PyExc(c.cls)
    if isinstance(c, LibV) and c.name.startswith('builtins.'):
        k = getattr(builtins, c.name[9:], None)
        if isinstance(k, type) and issubclass(k, BaseException):
            raise PyExc(k)
    if isinstance(c, ClassV):
        raise PyExc(c)
    raise Unsupported('raise %r' % (c,))


class ExcInst(object):
    def __init__(self, cls):
        self.cls = cls


@method
def exc_matches(self, exc, spec):
    spec = self.force(spec)
    if isinstance(spec, tuple):
        return any(self.exc_matches(exc, s) for s in spec)
    if isinstance(spec, ClassV):
        name = spec.name
    elif isinstance(spec, LibV):
        name = spec.name.split('.')[-1]
    else:
        raise Unsupported('except %r' % (spec,))
    return name in exc_classes(exc.cls)


@method
def s_Try(self, st, env):
    try:
        try:
            self.exec_block(st.body, env)
        except PyExc as ex:
            for h in st.handlers:
                if h.type is None or self.exc_matches(ex, self.eval(h.type, env)):
                    self.exc_stack.append(ex)
                    try:
                        if h.name:
                            self.assign_name(h.name, ExcInst(ex.cls), env)
                        self.exec_block(h.body, env)
                    finally:
                        self.exc_stack.pop()
                    break
            else:
                raise
        else:
            self.exec_block(st.orelse, env)
    except (PyExc, ReturnEx, BreakEx, ContinueEx):
        if st.finalbody:
            self.exec_block(st.finalbody, env)
        raise
    if st.finalbody:
        self.exec_block(st.finalbody, env)


@method
def s_Assert(self, st, env):
    if not self.branch(self.truth(self.eval(st.test, env))):
        raise PyExc(AssertionError)


@method
def s_FunctionDef(self, st, env):
    f = self.make_func(st, env.mod, env, env.mod.name + '.<local>.' + st.name, env.cls)
    self.assign_name(st.name, f, env)


@method
def s_Delete(self, st, env):
    for t in st.targets:
        if isinstance(t, ast.Subscript):
            o = self.force(self.eval(t.value, env))
            self.delitem(o, self.eval_index(t.slice, env))
        elif isinstance(t, ast.Attribute):
            o = self.force(self.eval(t.value, env))
            nm = self.mangle(t.attr, env.cls)
            rec = self.rec(o)
            if nm not in rec.f:
                raise PyExc(AttributeError, nm)
            f = dict(rec.f)
            del f[nm]
            self.put(o, rec.with_f(f))
        elif isinstance(t, ast.Name):
            rec = self.heap[env.id]
            f = dict(rec.f)
            f.pop(t.id, None)
            self.heap[env.id] = rec.with_f(f)
        else:
            raise Unsupported('del')


@method
def s_Nonlocal(self, st, env):
    env.globals_ = tuple(env.globals_) + tuple(st.names)


@method
def s_Import(self, st, env):
    for al in st.names:
        self.assign_name(al.asname or al.name.split('.')[0], LibV(al.name if al.asname else al.name.split('.')[0]), env)


@method
def s_ImportFrom(self, st, env):
    if st.level or (st.module or '').startswith('timeboard'):
        raise Unsupported('local import')
    for al in st.names:
        self.assign_name(al.asname or al.name, LibV(st.module + '.' + al.name), env)


@method
def s_While(self, st, env):
    def step():
        if not self.branch(self.truth(self.eval(st.test, env))):
            return False
        try:
            self.exec_block(st.body, env)
        except ContinueEx:
            pass
        return True
    try:
        self.run_loop(step, 'while@%d' % st.lineno, finite=False)
    except BreakEx:
        return
    self.exec_block(st.orelse, env)


@method
def s_For(self, st, env):
    it = self.get_iter(self.eval(st.iter, env))

    def step():
        try:
            x = self.iter_next(it)
        except PyExc as ex:
            if 'StopIteration' in exc_classes(ex.cls) and getattr(ex, 'it', None) == it:
                return False
            raise
        self.assign(st.target, x, env)
        try:
            self.exec_block(st.body, env)
        except ContinueEx:
            pass
        return True
    try:
        if self.iter_concrete(it):
            while step():
                pass
        else:
            self.run_loop(step, 'for@%d' % st.lineno, finite=True)
    except BreakEx:
        return
    self.exec_block(st.orelse, env)


# ---------------------------------------------------------------- expressions
@method
def eval(self, node, env):
    m = getattr(self, 'e_' + type(node).__name__, None)
    if m is None:
        raise Unsupported('expression %s' % type(node).__name__)
    return m(node, env)


@method
def e_Constant(self, node, env):
    return node.value


@method
def e_Name(self, node, env):
    return self.lookup(node.id, env)


@method
def e_Tuple(self, node, env):
    return tuple(self.eval_elts(node.elts, env))


@method
def eval_elts(self, elts, env):
    out = []
    for x in elts:
        if isinstance(x, ast.Starred):
            out += list(self.as_tuple(self.eval(x.value, env), 'starred'))
        else:
            out.append(self.eval(x, env))
    return out


@method
def as_tuple(self, v, what):
    s = self.seq(v)
    if s is None:
        s = self.drain(v)
    if not isinstance(s, tuple):
        raise Unsupported('%s of symbolic length' % what)
    return s


@method
def e_List(self, node, env):
    return self.new_list(self.eval_elts(node.elts, env))


@method
def e_Set(self, node, env):
    return self.alloc(Rec('set', None, {'v': tuple(self.eval_elts(node.elts, env))}))


@method
def e_Dict(self, node, env):
    r = self.alloc(Rec('dict', None, {}))
    for k, v in zip(node.keys, node.values):
        if k is None:
            raise Unsupported('dict unpacking')
        self.setitem(r, self.eval(k, env), self.eval(v, env))
    return r


@method
def e_JoinedStr(self, node, env):
    return TEXT


@method
def e_Lambda(self, node, env):
    fd = ast.FunctionDef(name='<lambda>', args=node.args, body=[ast.Return(value=node.body, lineno=node.lineno, col_offset=0)],
                         decorator_list=[], lineno=node.lineno, col_offset=0)
    return self.make_func(fd, env.mod, env, env.mod.name + '.<lambda>', env.cls)


@method
def e_IfExp(self, node, env):
    if self.branch(self.truth(self.eval(node.test, env))):
        return self.eval(node.body, env)
    return self.eval(node.orelse, env)


@method
def e_NamedExpr(self, node, env):
    v = self.eval(node.value, env)
    self.assign(node.target, v, env)
    return v


@method
def e_BoolOp(self, node, env):
    isand = isinstance(node.op, ast.And)
    v = None
    for i, x in enumerate(node.values):
        v = self.eval(x, env)
        if i == len(node.values) - 1:
            return v
        t = self.branch(self.truth(v))
        if isand and not t:
            return v if not isinstance(v, SBool) else False
        if not isand and t:
            return v if not isinstance(v, SBool) else True
    return v


@method
def e_UnaryOp(self, node, env):
    v = self.force(self.eval(node.operand, env))
    if isinstance(node.op, ast.Not):
        t = self.truth(v)
        return self.mk_bool(z3.Not(t)) if isz(t) else (not t)
    if isinstance(node.op, ast.USub):
        if isinstance(v, float):
            return -v
        if isinstance(v, SReal):
            return SReal(-v.e)
        if isinstance(v, STd):
            return STd(-v.e)
        e = self.as_int(v)
        if e is None:
            raise PyExc(TypeError, 'unary -')
        return self.mk_int(-e, self.is_np(v))
    if isinstance(node.op, ast.UAdd):
        return v
    if isinstance(node.op, ast.Invert):
        s = self.seq(v)
        if s is not None:
            return self.elementwise1(v, self.invert1)
        return self.invert1(v)
    raise Unsupported('unary op')


@method
def invert1(self, v):
    v = self.force(v)
    if isinstance(v, SBool) and v.np:
        return SBool(z3.Not(v.e), True)
    if isinstance(v, (bool, SBool)):
        return self.mk_int(-self.as_int(v) - 1)
    e = self.as_int(v)
    if e is None:
        raise PyExc(TypeError, '~')
    return self.mk_int(-e - 1, self.is_np(v))


@method
def e_BinOp(self, node, env):
    a = self.eval(node.left, env)
    if isinstance(a, (str, OpaqueStr)) and isinstance(node.op, ast.Mod):
        return TEXT
    b = self.eval(node.right, env)
    return self.binop(type(node.op).__name__, a, b)


@method
def e_Compare(self, node, env):
    left = self.eval(node.left, env)
    acc = None
    for i, (op, rn) in enumerate(zip(node.ops, node.comparators)):
        right = self.eval(rn, env)
        v = self.compare(CMP[type(op)], left, right)
        if i == len(node.ops) - 1:
            if acc is None:
                return v
            if isinstance(v, (bool, SBool)):
                return self.mk_bool(z3.And(acc, self.zbool(v)))
            if self.branch(acc):
                return v
            return False
        t = self.truth(v)
        t = t if isz(t) else z3.BoolVal(t)
        acc = t if acc is None else z3.And(acc, t)
        # the rest of a chain is evaluated only if this part holds; names and attributes have no effect
        nxt = node.comparators[i + 1]
        if not isinstance(nxt, (ast.Name, ast.Constant)):
            if not self.branch(acc):
                return False
            acc = z3.BoolVal(True)
        left = right
    return acc


@method
def e_Attribute(self, node, env):
    o = self.force(self.eval(node.value, env))
    return self.getattr_(o, self.mangle(node.attr, env.cls))


@method
def eval_index(self, node, env):
    if isinstance(node, ast.Slice):
        return slice(*[self.force(self.eval(x, env)) if x is not None else None for x in (node.lower, node.upper, node.step)])
    if isinstance(node, ast.Tuple):
        if any(isinstance(x, ast.Slice) for x in node.elts):
            raise Unsupported('multi-dimensional index')
    return self.force(self.eval(node, env))


@method
def e_Subscript(self, node, env):
    o = self.force(self.eval(node.value, env))
    return self.getitem(o, self.eval_index(node.slice, env))


@method
def e_Starred(self, node, env):
    raise Unsupported('starred')


@method
def e_Yield(self, node, env):
    v = self.eval(node.value, env) if node.value is not None else None
    e = env
    while e is not None and '$yield' not in self.heap[e.id].f:
        e = e.parent
    if e is None:
        raise Unsupported('yield')
    self.list_append(self.heap[e.id].f['$yield'], v)
    return None


@method
def e_YieldFrom(self, node, env):
    e = env
    while e is not None and '$yield' not in self.heap[e.id].f:
        e = e.parent
    if e is None:
        raise Unsupported('yield')
    s = self.drain(self.eval(node.value, env))
    self.list_extend(self.heap[e.id].f['$yield'], s)
    return None


@method
def e_Call(self, node, env):
    fn = node.func
    # message formatting is text only: arguments are not evaluated
    if isinstance(fn, ast.Attribute) and fn.attr == 'format' and isinstance(fn.value, (ast.Constant,)):
        return TEXT
    if isinstance(fn, ast.Name) and fn.id == 'super':
        args = [self.eval(a, env) for a in node.args]
        if args:
            return SuperV(args[0], args[1])
        e = env
        f = self.heap[e.id].f
        first = f.get('$first')
        return SuperV(env.cls, first)
    f = self.force(self.eval(fn, env))
    args, kwargs = [], {}
    for a in node.args:
        if isinstance(a, ast.Starred):
            args += list(self.as_tuple(self.eval(a.value, env), '*args'))
        else:
            args.append(self.eval(a, env))
    for k in node.keywords:
        v = self.eval(k.value, env)
        if k.arg is None:
            v = self.force(v)
            r = self.rec(v) if isinstance(v, Ref) else None
            if r is None or r.kind != 'dict':
                raise Unsupported('** of %r' % (v,))
            for kk, vv in r.f.items():
                if kk[0] != 'k' or not isinstance(kk[1], str):
                    raise Unsupported('** with unknown keys')
                kwargs[kk[1]] = vv
        else:
            kwargs[k.arg] = v
    return self.call(f, args, kwargs)


# comprehensions: append loops
@method
def comprehension(self, node, env, emit):
    """emit(env2) for every combination; returns nothing"""
    env2 = Env(self.new_env(env.mod, env, env.cls).id, env, env.mod, env.cls)

    def level(k):
        if k == len(node.generators):
            emit(env2)
            return
        g = node.generators[k]
        it = self.get_iter(self.eval(g.iter, env if k == 0 else env2))

        def step():
            try:
                x = self.iter_next(it)
            except PyExc as ex:
                if 'StopIteration' in exc_classes(ex.cls) and getattr(ex, 'it', None) == it:
                    return False
                raise
            self.assign(g.target, x, env2)
            for c in g.ifs:
                if not self.branch(self.truth(self.eval(c, env2))):
                    return True
            level(k + 1)
            return True
        if self.iter_concrete(it):
            while step():
                pass
        else:
            self.run_loop(step, 'comprehension@%d' % node.lineno, finite=True)
    level(0)


@method
def e_ListComp(self, node, env):
    out = self.new_list()
    self.comprehension(node, env, lambda e2: self.list_append(out, self.eval(node.elt, e2)))
    return out


@method
def e_GeneratorExp(self, node, env):
    out = self.new_list()
    self.comprehension(node, env, lambda e2: self.list_append(out, self.eval(node.elt, e2)))
    return self.make_iter('seq', src=self.rec(out).f['v'])


@method
def e_DictComp(self, node, env):
    out = self.alloc(Rec('dict', None, {}))

    def emit(e2):
        k = self.eval(node.key, e2)
        self.setitem(out, k, self.eval(node.value, e2))
    self.comprehension(node, env, emit)
    return out


@method
def e_SetComp(self, node, env):
    raise Unsupported('set comprehension')


# ---------------------------------------------------------------- calls
def is_generator(node):
    stack = list(node.body)
    while stack:
        x = stack.pop()
        if isinstance(x, (ast.Yield, ast.YieldFrom)):
            return True
        if isinstance(x, (ast.FunctionDef, ast.Lambda, ast.ClassDef)):
            continue
        stack.extend(ast.iter_child_nodes(x))
    return False


@method
def bind(self, f, args, kwargs):
    a = f.node.args
    names = [x.arg for x in getattr(a, 'posonlyargs', [])] + [x.arg for x in a.args]
    out = {}
    args = list(args)
    if len(args) > len(names) and a.vararg is None:
        raise PyExc(TypeError, 'too many arguments to %s' % f.qual)
    for n, v in zip(names, args):
        out[n] = v
    if a.vararg is not None:
        out[a.vararg.arg] = tuple(args[len(names):])
    kw = dict(kwargs)
    for n in names[len(args):] + [x.arg for x in a.kwonlyargs]:
        if n in kw:
            out[n] = kw.pop(n)
    dn = names[len(names) - len(f.defaults):] if f.defaults else []
    for n, d in zip(dn, f.defaults):
        if n not in out:
            if isinstance(d, Ref) and self.rec(d).kind != 'inst':
                raise Unsupported('object shared through a default argument')
            out[n] = d
    for n, d in f.kwdefaults.items():
        out.setdefault(n, d)
    for n in names:
        if n not in out:
            raise PyExc(TypeError, 'missing argument %s of %s' % (n, f.qual))
    if a.kwarg is not None:
        r = self.alloc(Rec('dict', None, {('k', k): v for k, v in kw.items()}))
        out[a.kwarg.arg] = r
    elif kw:
        raise PyExc(TypeError, 'unexpected argument %s of %s' % (sorted(kw), f.qual))
    return out


@method
def call(self, f, args, kwargs):
    f = self.force(f)
    if isinstance(f, BoundM):
        return self.call(f.fn, [f.self_] + list(args), kwargs)
    if isinstance(f, FuncV):
        return self.call_func(f, args, kwargs)
    if isinstance(f, ClassV):
        return self.instantiate(f, args, kwargs)
    if isinstance(f, NTClass):
        vals = list(args)
        for n in f.fields[len(vals):]:
            if n not in kwargs:
                raise PyExc(TypeError, 'namedtuple')
            vals.append(kwargs[n])
        if len(vals) != len(f.fields):
            raise PyExc(TypeError, 'namedtuple')
        return NT(f, vals)
    if isinstance(f, NativeV):
        return f.fn(self, *args, **kwargs)
    if isinstance(f, LibV):
        return self.lib_call(f.name, args, kwargs)
    if isinstance(f, LibBound):
        return self.lib_method(f.obj, f.name, args, kwargs)
    if isinstance(f, Opaque) and hasattr(f, 'call'):
        return f.call(self, *args, **kwargs)
    if isinstance(f, (Ref, FInst)):
        c = self.class_of(f)
        if isinstance(c, ClassV):
            m, _ = c.lookup('__call__')
            if m is None:
                raise PyExc(TypeError, 'not callable')
            return self.call(self.getattr_(f, '__call__'), args, kwargs)
    if f is None or isinstance(f, (int, str, tuple, SInt, SBool, STs)):
        raise PyExc(TypeError, 'not callable')
    raise Unsupported('call of %r' % (f,))


@method
def call_func(self, f, args, kwargs):
    name = f.node.name
    if name in OPAQUE_FUNCS and self.checking != f.qual:
        if name == '_repr_builder':
            return self.alloc(Rec('dict', None, {('k', 'organizer'): TEXT}))
        return TEXT
    bound = self.bind(f, args, kwargs)
    c = self.contracts.get(f.qual)
    if c is not None and c.apply and c.spec is not None and f.qual not in self.noapply and (self.only is None or f.qual in self.only) and not (self.checking == f.qual and self.depth == 0):
        r = self.apply_contract(c, f, bound)
        if r is not NotImplemented:
            self.applied.add(f.qual)
            return r
    if '.<l' not in f.qual:
        self.inlined.add(f.qual)
    return self.run_body(f, bound)


@method
def run_body(self, f, bound):
    if self.depth > 40:
        raise Unsupported('call depth')
    env = self.new_env(f.mod, f.env, f.cls if f.cls is not None else (f.env.cls if f.env is not None else None))
    b = dict(bound)
    if f.cls is not None and f.node.args.args:
        b['$first'] = bound[f.node.args.args[0].arg]
    self.heap[env.id] = Rec('env', None, b)
    if is_generator(f.node):
        return GenV(f, env)
    return self.run_env(f, env)


@method
def run_env(self, f, env):
    self.depth += 1
    try:
        self.exec_block(f.node.body, env)
    except ReturnEx as r:
        return r.v
    finally:
        self.depth -= 1
    return None


@method
def gen_iter(self, v):
    """the iterator of a generator object; its elements are computed when it is first used"""
    rec = self.heap[v.env.id]
    if '$iter' in rec.f:
        return rec.f['$iter']
    out = self.new_list()
    before = dict(self.heap)
    self.heap[v.env.id] = rec.with_f(dict(rec.f, **{'$yield': out}))
    self.run_env(v.fn, v.env)
    for i, r in before.items():
        if i not in (v.env.id, out.id) and self.heap.get(i) is not r:
            raise Unsupported('generator %s modifies shared state' % v.fn.qual)
    it = self.make_iter('seq', src=self.rec(out).f['v'])
    self.heap[v.env.id] = self.heap[v.env.id].with_f(dict(self.heap[v.env.id].f, **{'$iter': it}))
    return it


@method
def drain(self, v):
    """all remaining elements of an iterable, as tuple or SSeq"""
    v = self.force(v)
    s = self.seq(v)
    if s is not None:
        return s
    it = self.get_iter(v)
    r = self.rec(it)
    if r.kind == 'iter' and r.cls == 'seq' and isinstance(r.f['pos'], int) and r.f['pos'] == 0:
        s = r.f['src']
        self.put(it, r.with_(pos=self.mk_int(self.z(self.seq_n(s)))))
        return s
    out = self.new_list()

    def step():
        try:
            x = self.iter_next(it)
        except PyExc as ex:
            if 'StopIteration' in exc_classes(ex.cls) and getattr(ex, 'it', None) == it:
                return False
            raise
        self.list_append(out, x)
        return True
    if self.iter_concrete(it):
        while step():
            pass
    else:
        self.run_loop(step, 'drain', finite=True)
    return self.rec(out).f['v']


@method
def instantiate(self, c, args, kwargs):
    if 'BaseException' in exc_classes(c) or 'Exception' in exc_classes(c):
        return ExcInst(c)
    new, _ = c.lookup('__new__')
    if new is not None:
        obj = self.call(new[1], [c] + list(args), kwargs)
        obj = self.force(obj)
        if self.class_of(obj) is not c:
            return obj
    elif c.lib_base() is not None:
        raise Unsupported('instance of %s' % c.qual)
    else:
        obj = self.alloc(Rec('inst', c, {}))
    init, _ = c.lookup('__init__')
    if init is not None:
        self.call(BoundM(init[1], obj), args, kwargs)
    elif (args or kwargs) and new is None:
        raise PyExc(TypeError, 'constructor takes no arguments')
    return obj


# ---------------------------------------------------------------- attributes
@method
def getattr_(self, o, name):
    o = self.force(o)
    if isinstance(o, (Ref, FInst)):
        rec = self.rec(o) if isinstance(o, Ref) else Rec('inst', o.cls, o.f)
        if rec.kind == 'inst':
            if name in rec.f:
                return rec.f[name]
            if name == '__class__':
                return rec.cls
            if name in OPAQUE_ATTRS and self.checking_attr != name:
                return TEXT
            v, owner = rec.cls.lookup(name)
            if v is not None:
                return self.class_attr(v, o, rec.cls)
            if '$base' in rec.f:
                return self.lib_getattr(rec.f['$base'], name, o)
            if rec.open:
                raise Unsupported('field %s of %s' % (name, rec.cls.name))
            raise PyExc(AttributeError, name)
        return self.lib_getattr(o, name, o)
    if isinstance(o, ClassV):
        v, owner = o.lookup(name)
        if v is None:
            if name == '__name__':
                return o.name
            if name == '__class__':
                return LibV('builtins.type')
            if o.lib_base() is not None:
                return LibV(o.lib_base().name + '.' + name)
            raise PyExc(AttributeError, name)
        k, x = v
        if k in ('method', 'static'):
            return x
        if k == 'classmethod':
            return BoundM(x, o)
        if k == 'const':
            return x
        raise Unsupported('class attribute %s' % name)
    if isinstance(o, NT):
        if name in o.cls.fields:
            return o.vals[o.cls.fields.index(name)]
        if name == '_replace':
            def repl(E, o=o, **kw):
                return NT(o.cls, [kw.get(f, v) for f, v in zip(o.cls.fields, o.vals)])
            return NativeV('_replace', repl)
        raise PyExc(AttributeError, name)
    if isinstance(o, SuperV):
        cls = o.cls
        target = self.class_of(o.obj) or o.obj
        mro = target.mro()
        if cls in mro:
            rest = mro[mro.index(cls) + 1:]
            for c in rest:
                if name in c.ns:
                    return self.class_attr(c.ns[name], o.obj, c)
            lb = cls.lib_base()
            if lb is not None:
                if name == '__new__':
                    return LibV(lb.name + '.__new__')
                b = self.rec(o.obj).f.get('$base') if isinstance(o.obj, Ref) else None
                if b is not None:
                    return self.lib_getattr(b, name, o.obj)
        if name == '__init__':
            return NativeV('object.__init__', lambda E, *a, **k: None)
        raise Unsupported('super().%s' % name)
    return self.lib_getattr(o, name, o)


Engine.checking_attr = None


@method
def class_attr(self, v, o, cls):
    k, x = v
    if k == 'method':
        return BoundM(x, o)
    if k == 'property':
        return self.call(x, [o], {})
    if k == 'classmethod':
        return BoundM(x, cls)
    if k == 'static':
        return x
    if k == 'const':
        return x
    raise Unsupported(x)


@method
def setattr_(self, o, name, v):
    o = self.force(o)
    if isinstance(o, Ref) and self.rec(o).kind == 'inst':
        rec = self.rec(o)
        cv, _ = rec.cls.lookup(name)
        if cv is not None and cv[0] == 'property':
            raise PyExc(AttributeError, "can't set %s" % name)
        f = dict(rec.f)
        f[name] = v
        self.heap[o.id] = rec.with_f(f)
        return
    raise Unsupported('attribute assignment on %r' % (o,))
