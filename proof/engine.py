"""Symbolic executor and obligation generator for the Python source of timeboard.

Sources are parsed on every run; only docstrings and comments are dropped.  A
function is executed symbolically path by path; loops are encoded over their
iteration number without bound; calls to functions that have a contract are
replaced by the contract.  See DESIGN.md.
"""
import ast
import builtins
import os
import time

import z3

import ground
from vals import *

REPO = os.environ.get('VERIF_REPO', '/repo')
MISSING = object()
BUILTINS = set(dir(builtins))
QUOT = z3.Function('quotient', z3.IntSort(), z3.IntSort(), z3.RealSort())


# ---------------------------------------------------------------- modules
class Module(object):
    def __init__(self, name, path):
        self.name = name
        self.path = path
        self.src = open(path).read()
        self.tree = ast.parse(self.src)
        self.ns = {}
        self.is_pkg = path.endswith('__init__.py')


def isz(x):
    return isinstance(x, z3.ExprRef)


def has_vars(e, consts):
    """does expression e mention one of the constants / functions (by name)?"""
    seen = set()
    stack = [e]
    while stack:
        x = stack.pop()
        i = x.get_id()
        if i in seen:
            continue
        seen.add(i)
        if z3.is_quantifier(x):
            stack.append(x.body())
            continue
        if z3.is_app(x):
            if x.decl().kind() == z3.Z3_OP_UNINTERPRETED and x.decl().name() in consts:
                return True
            stack.extend(x.children())
    return False


_jj = [0]


def fresh_index():
    _jj[0] += 1
    return z3.Int('jj!%d' % _jj[0])


def vsub(v, pairs, seqmap=None):
    """substitute constants in a value"""
    if isinstance(v, (SInt, SBool)):
        return type(v)(z3.substitute(v.e, *pairs), v.np) if pairs else v
    if isinstance(v, (SReal, STs, STd, SObj)):
        return type(v)(z3.substitute(v.e, *pairs)) if pairs else v
    if isinstance(v, tuple):
        return tuple(vsub(x, pairs, seqmap) for x in v)
    if isinstance(v, NT):
        return NT(v.cls, [vsub(x, pairs, seqmap) for x in v.vals])
    if isinstance(v, FInst):
        return FInst(v.cls, {k: vsub(x, pairs, seqmap) for k, x in v.f.items()})
    if isinstance(v, SPeriod):
        return SPeriod(z3.substitute(v.s, *pairs), z3.substitute(v.t, *pairs), v.freq) if pairs else v
    if isinstance(v, Union):
        return Union([(z3.substitute(c, *pairs) if isz(c) and pairs else c, vsub(x, pairs, seqmap)) for c, x in v.alts])
    if isinstance(v, SSeq):
        if seqmap:
            if id(v) in seqmap:
                return seqmap[id(v)](None)
            if v.base is not None and id(v.base) in seqmap:
                return seqmap[id(v.base)](v)
        n2 = z3.substitute(v.n, *pairs) if isz(v.n) and pairs else v.n
        probe = v.at(fresh_index())
        if isinstance(probe, (SInt, SBool, SReal, STs, STd, SObj, SPeriod)) and (n2 is v.n or isz(n2) and n2.eq(v.n)):
            names = {str(p[0]) for p in pairs}
            if not vmentions(probe, names):
                return v

        def at(j, v=v, pairs=pairs, seqmap=seqmap):
            if isz(j) and not z3.is_int_value(j):
                jj = fresh_index()
                return vsub(v.at(jj), list(pairs) + [(jj, j)], seqmap)
            return vsub(v.at(j), pairs, seqmap)
        return v.copy(n=n2, at=at)
    return v


def vmentions(v, consts):
    """does the value mention one of the named constants/functions?"""
    if isinstance(v, (SInt, SBool, SReal, STs, STd, SObj)):
        return has_vars(v.e, consts)
    if isinstance(v, tuple):
        return any(vmentions(x, consts) for x in v)
    if isinstance(v, NT):
        return any(vmentions(x, consts) for x in v.vals)
    if isinstance(v, FInst):
        return any(vmentions(x, consts) for x in v.f.values())
    if isinstance(v, SPeriod):
        return has_vars(v.s, consts) or has_vars(v.t, consts)
    if isinstance(v, Union):
        return any((isz(c) and has_vars(c, consts)) or vmentions(x, consts) for c, x in v.alts)
    if isinstance(v, SSeq):
        return (isz(v.n) and has_vars(v.n, consts)) or vmentions(v.at(fresh_index()), consts)
    if isinstance(v, Poison):
        return True
    return False


class Plain(object):
    """incremental solver for the quantifier-free small-scope queries"""

    def __init__(self):
        self.s = z3.SimpleSolver()
        self.pcs = []
        self.marks = []

    def check(self, pc, extra, timeout):
        k = 0
        while k < len(self.pcs) and k < len(pc) and self.pcs[k].eq(pc[k]):
            k += 1
        while self.marks and self.marks[-1] > k:
            self.marks.pop()
            self.s.pop()
        m = self.marks[-1] if self.marks else 0
        if len(pc) > m:
            self.s.push()
            for c in pc[m:]:
                self.s.add(c)
            self.marks.append(len(pc))
        self.pcs = list(pc)
        self.s.push()
        for c in extra:
            self.s.add(c)
        self.s.set('timeout', timeout)
        r = str(self.s.check())
        self.s.pop()
        return r


class Path(object):
    def __init__(self, out, delta, heap, ctr, assumed):
        self.out = out
        self.delta = delta
        self.heap = heap
        self.ctr = ctr
        self.assumed = assumed


class Obligation(object):
    def __init__(self, name, status, reason='', model=None, secs=0.0, backend='z3'):
        self.name = name
        self.status = status
        self.reason = reason
        self.model = model
        self.secs = secs
        self.backend = backend


class Engine(object):
    def __init__(self, repo=REPO, contracts=None, bound=None, deadline=None, noapply=()):
        self.repo = repo
        self.contracts = contracts or {}
        self.noapply = set(noapply)
        self.only = None
        self.bound = bound
        self.deadline = deadline
        self.mods = {}
        self.heap = {}
        self.nextid = 1
        self.ctr = 0
        self.pc = []
        self.dec = []
        self.pos = 0
        self.loopvars = []
        self.obligations = []
        self.used = set()          # library models used
        self.applied = set()       # contracts applied at call sites
        self.inlined = set()
        self.notes = set()
        self.writes_log = None
        self.depth = 0
        self.solver_s = 0.0
        self.queries = 0
        self.exc_stack = []
        self.checking = None
        self.memo = {}
        self.cur = ''
        self.qcache = {}
        self.qkeep = []

    # ------------------------------------------------------------ modules
    def module(self, name):
        if name in self.mods:
            return self.mods[name]
        base = os.path.join(self.repo, *name.split('.'))
        if os.path.isdir(base):
            path = os.path.join(base, '__init__.py')
        else:
            path = base + '.py'
        if not os.path.exists(path):
            raise Unsupported('no module %s' % name)
        m = Module(name, path)
        self.mods[name] = m
        self.load(m)
        return m

    def load(self, m):
        for st in m.tree.body:
            self.load_stmt(m, st)

    def load_stmt(self, m, st):
        ns = m.ns
        if isinstance(st, ast.Expr):
            return
        if isinstance(st, ast.ImportFrom):
            if st.level:
                parts = m.name.split('.')
                if not m.is_pkg:
                    parts = parts[:-1]
                parts = parts[:len(parts) - (st.level - 1)]
                target = '.'.join(parts + ([st.module] if st.module else []))
            else:
                target = st.module
            for al in st.names:
                nm = al.asname or al.name
                if target.split('.')[0] == 'timeboard':
                    if st.module is None:
                        ns[nm] = ('lazymod', target + '.' + al.name)
                    else:
                        ns[nm] = ('lazy', target, al.name)
                elif target == '__future__':
                    pass
                else:
                    ns[nm] = LibV(target + '.' + al.name)
        elif isinstance(st, ast.Import):
            for al in st.names:
                ns[al.asname or al.name.split('.')[0]] = LibV(al.name if al.asname else al.name.split('.')[0])
        elif isinstance(st, ast.FunctionDef):
            ns[st.name] = ('lazydef', st)
        elif isinstance(st, ast.ClassDef):
            ns[st.name] = ('lazyclass', st)
        elif isinstance(st, ast.Assign) and len(st.targets) == 1 and isinstance(st.targets[0], ast.Name):
            ns[st.targets[0].id] = ('lazyexpr', st.value)
        elif isinstance(st, ast.Try):
            # version switches: the installed libraries take the first branch that works here
            if any(isinstance(x, (ast.Import, ast.ImportFrom)) for x in st.body):
                for x in st.body:
                    self.load_stmt(m, x)
            elif st.orelse:
                for x in st.orelse:
                    self.load_stmt(m, x)
            else:
                for x in st.body:
                    self.load_stmt(m, x)
        elif isinstance(st, (ast.If, ast.Pass, ast.Assert)):
            pass

    def mod_get(self, m, name):
        v = m.ns[name]
        if isinstance(v, tuple) and v and isinstance(v[0], str) and v[0].startswith('lazy'):
            if v[0] == 'lazymod':
                r = LibV('repo:' + v[1])
            elif v[0] == 'lazy':
                m2 = self.module(v[1])
                if v[2] not in m2.ns:
                    raise Unsupported('%s has no %s' % (v[1], v[2]))
                r = self.mod_get(m2, v[2])
            elif v[0] == 'lazydef':
                r = self.make_func(v[1], m, None, m.name + '.' + v[1].name, None)
            elif v[0] == 'lazyclass':
                r = self.make_class(v[1], m)
            else:
                keep = (self.heap, self.pc, self.dec, self.pos)
                env = self.new_env(m, None, None)
                r = self.eval(v[1], env)
                if isinstance(r, NTClass):
                    pass
                if isinstance(r, Ref):
                    # module-level mutable object: allowed as an opaque constant only
                    rec = self.heap[r.id]
                    if rec.kind == 'list' and isinstance(rec.f['v'], tuple):
                        r = rec.f['v']
                    else:
                        raise Unsupported('module-level object %s.%s' % (m.name, name))
            m.ns[name] = r
            return r
        return v

    def make_func(self, node, m, env, qual, cls):
        a = node.args
        defenv = env if env is not None else self.new_env(m, None, None)
        defaults = [self.eval(d, defenv) for d in a.defaults]
        kwd = {k.arg: self.eval(d, defenv) for k, d in zip(a.kwonlyargs, a.kw_defaults) if d is not None}
        return FuncV(node, m, env, qual, cls, defaults, kwd)

    def make_class(self, node, m):
        bases = []
        env = self.new_env(m, None, None)
        for b in node.bases:
            bases.append(self.eval(b, env))
        c = ClassV(node.name, m, bases, node)
        m.ns[node.name] = c
        for st in node.body:
            if isinstance(st, ast.FunctionDef):
                f = self.make_func(st, m, None, c.qual + '.' + st.name, c)
                deco = [d.id if isinstance(d, ast.Name) else getattr(d, 'attr', '?') for d in st.decorator_list]
                name = self.mangle(st.name, c)
                if not deco:
                    c.ns[name] = ('method', f)
                elif deco == ['property']:
                    c.ns[name] = ('property', f)
                elif deco == ['classmethod']:
                    c.ns[name] = ('classmethod', f)
                elif deco == ['staticmethod']:
                    c.ns[name] = ('static', f)
                else:
                    c.ns[name] = ('unsupported', 'decorator %s' % deco)
            elif isinstance(st, ast.Assign) and len(st.targets) == 1 and isinstance(st.targets[0], ast.Name):
                try:
                    v = self.eval(st.value, env)
                    if isinstance(v, Ref):
                        raise Unsupported('object shared through a class attribute')
                    c.ns[st.targets[0].id] = ('const', v)
                except Unsupported as e:
                    c.ns[st.targets[0].id] = ('unsupported', str(e))
        return c

    @staticmethod
    def mangle(name, cls):
        if cls is not None and name.startswith('__') and not name.endswith('__'):
            return '_' + cls.name.lstrip('_') + name
        return name

    def cls(self, mod, name):
        return self.mod_get(self.module(mod), name)

    # ------------------------------------------------------------ heap
    def alloc(self, rec):
        i = self.nextid
        self.nextid += 1
        self.heap[i] = rec
        return Ref(i)

    def rec(self, ref):
        return self.heap[ref.id]

    def put(self, ref, rec):
        self.heap[ref.id] = rec

    def new_list(self, v=()):
        return self.alloc(Rec('list', None, {'v': v if isinstance(v, SSeq) else tuple(v)}))

    def new_env(self, mod, parent, cls):
        i = self.nextid
        self.nextid += 1
        self.heap[i] = Rec('env', None, {})
        return Env(i, parent, mod, cls)

    # ------------------------------------------------------------ symbols
    def fresh(self, name, sort=None):
        sort = sort if sort is not None else z3.IntSort()
        self.ctr += 1
        nm = '%s!%d' % (name, self.ctr)
        if self.loopvars:
            f = z3.Function(nm + '_%s' % sort, *([z3.IntSort()] * len(self.loopvars) + [sort]))
            return f(*self.loopvars)
        return z3.Const(nm + '_%s' % sort, sort)

    def fresh_fun(self, name, *sorts):
        """function symbol; implicitly also a function of the enclosing iteration numbers"""
        self.ctr += 1
        nm = '%s!%d' % (name, self.ctr)
        lv = list(self.loopvars)
        f = z3.Function(nm, *([z3.IntSort()] * len(lv) + list(sorts)))
        if not lv:
            return f
        return lambda *a: f(*(lv + list(a)))

    def size(self, name, lo=0):
        e = self.fresh(name)
        self.assume(e >= lo)
        if self.bound is not None:
            self.assume(e <= self.bound)
        return e

    def forall(self, lo, hi, fn, pats=None):
        """z3 formula: fn(x) for all lo <= x < hi"""
        if self.bound is not None:
            B = self.bound + 2
            out = [z3.Or(self.z(hi) <= B, self.z(lo) >= self.z(hi)), z3.Or(self.z(lo) >= -1, self.z(lo) >= self.z(hi))]
            for i in range(-1, B):
                iv = z3.IntVal(i)
                g = z3.simplify(z3.And(self.z(lo) <= iv, iv < self.z(hi)))
                if z3.is_false(g):
                    continue
                out.append(z3.Implies(g, fn(iv)))
            return z3.And(*out)
        self.ctr += 1
        x = z3.Int('x!%d' % self.ctr)
        body = z3.Implies(z3.And(self.z(lo) <= x, x < self.z(hi)), fn(x))
        kw = {}
        if pats:
            kw['patterns'] = [z3.MultiPattern(*p) if isinstance(p, (list, tuple)) else p for p in pats(x)]
        return z3.ForAll([x], body, **kw)

    def forall2(self, lo, hi, fn, pats=None):
        if self.bound is not None:
            B = self.bound + 2
            out = [z3.Or(self.z(hi) <= B, self.z(lo) >= self.z(hi)), z3.Or(self.z(lo) >= -1, self.z(lo) >= self.z(hi))]
            for i in range(-1, B):
                for j in range(-1, B):
                    iv, jv = z3.IntVal(i), z3.IntVal(j)
                    out.append(z3.Implies(z3.And(self.z(lo) <= iv, iv < self.z(hi), self.z(lo) <= jv, jv < self.z(hi)), fn(iv, jv)))
            return z3.simplify(z3.And(*out))
        self.ctr += 1
        x = z3.Int('x!%d' % self.ctr)
        y = z3.Int('y!%d' % self.ctr)
        kw = {}
        if pats:
            kw['patterns'] = [z3.MultiPattern(*p) if isinstance(p, (list, tuple)) else p for p in pats(x, y)]
        return z3.ForAll([x, y], z3.Implies(z3.And(self.z(lo) <= x, x < self.z(hi), self.z(lo) <= y, y < self.z(hi)), fn(x, y)), **kw)

    @staticmethod
    def z(v):
        if isinstance(v, bool):
            return z3.BoolVal(v)
        if isinstance(v, int):
            return z3.IntVal(v)
        return v

    def assume(self, c):
        if c is True:
            return
        if c is False:
            raise Infeasible()
        self.pc.append(c)

    # ------------------------------------------------------------ solver
    def tick(self):
        if self.deadline and time.time() > self.deadline:
            raise Unsupported('time budget exhausted')

    def check(self, extra, timeout=None, gen=1):
        """'unsat' / 'sat' / 'unknown' of pc and extra ('sat' only says that the instances are satisfiable)"""
        self.tick()
        t = time.time()
        self.queries += 1
        if self.bound is None:
            if self.grounder is None:
                self.grounder = ground.Grounder()
            key = (gen, tuple(c.get_id() for c in self.pc), tuple(c.get_id() for c in extra))
            r = self.qcache.get(key)
            if r is None:
                r = self.grounder.check(self.pc, extra, timeout or 3000, gen)
                self.qcache[key] = r
                self.qkeep.extend(self.pc)
                self.qkeep.extend(extra)
            self.solver_s += time.time() - t
            return r
        key = (timeout, tuple(c.get_id() for c in self.pc), tuple(c.get_id() for c in extra))
        r = self.qcache.get(key)
        if r is None:
            if self.plain is None:
                self.plain = Plain()
            r = self.plain.check(self.pc, extra, timeout or 3000)
            self.qcache[key] = r
            self.qkeep.extend(self.pc)
            self.qkeep.extend(extra)
        self.solver_s += time.time() - t
        return r

    plain = None

    def bounded_model(self, extra):
        s = z3.Solver()
        s.set('timeout', 20000)
        for c in self.pc:
            s.add(c)
        for c in extra:
            s.add(c)
        return s.model() if str(s.check()) == 'sat' else None

    grounder = None

    def check_full(self, extra, timeout):
        """the quantified query, with the solver's own instantiation"""
        self.tick()
        t = time.time()
        s = z3.Solver()
        s.set('timeout', timeout)
        for c in self.pc:
            s.add(c)
        for c in extra:
            s.add(c)
        r = s.check()
        self.queries += 1
        self.solver_s += time.time() - t
        return str(r)

    def possible(self, c):
        """may c hold here? (errs on the side of yes)"""
        c = z3.simplify(c) if isz(c) else z3.BoolVal(bool(c))
        if z3.is_true(c):
            return True
        if z3.is_false(c):
            return False
        return self.check([c], timeout=600 if self.bound is None else 4000) != 'unsat'

    def valid(self, c, timeout=2000):
        c = z3.simplify(c)
        if z3.is_true(c):
            return True
        if z3.is_false(c):
            return False
        return self.check([z3.Not(c)], timeout=timeout) == 'unsat'

    # ------------------------------------------------------------ paths
    def decide(self, conds):
        """pick one feasible alternative; conds: list of lists of z3 conditions"""
        if self.pos < len(self.dec):
            k, alts = self.dec[self.pos]
            self.pos += 1
            c = conds[alts[k]]
            for x in c:
                self.assume(x)
            return alts[k]
        alts = []
        for i, c in enumerate(conds):
            if i == len(conds) - 1 and not alts:
                # the last one must hold if the alternatives are exhaustive; still check
                pass
            if self.check(list(c), timeout=600 if self.bound is None else 4000) != 'unsat':
                alts.append(i)
        if not alts:
            raise Infeasible()
        self.dec.append([0, alts])
        self.pos += 1
        for x in conds[alts[0]]:
            self.assume(x)
        return alts[0]

    def branch(self, c):
        if isinstance(c, bool):
            return c
        if isinstance(c, SBool):
            c = c.e
        c = z3.simplify(c)
        if z3.is_true(c):
            return True
        if z3.is_false(c):
            return False
        return self.decide([[c], [z3.Not(c)]]) == 0

    def choose(self, options):
        """unconstrained choice (set-up of a check)"""
        options = list(options)
        if len(options) == 1:
            return options[0]
        return options[self.decide([[] for _ in options])]

    def explore(self, thunk, limit=4000):
        heap0, pc0, ctr0, id0 = self.heap, self.pc, self.ctr, self.nextid
        dec0, pos0 = self.dec, self.pos
        out = []
        dec = []
        maxctr, maxid = ctr0, id0
        exc0 = list(self.exc_stack)
        depth0 = self.depth
        lv0 = list(self.loopvars)
        nz0, sums0, memo0 = self.nz_theories, self.sums, dict(self.memo)
        try:
            while True:
                self.heap = dict(heap0)
                self.pc = list(pc0)
                self.ctr = ctr0
                self.nextid = id0
                self.exc_stack = list(exc0)
                self.depth = depth0
                self.loopvars = list(lv0)
                self.nz_theories, self.sums, self.memo = nz0, sums0, dict(memo0)
                self.dec, self.pos = dec, 0
                self.tick()
                try:
                    r = thunk()
                    out.append(Path(r, self.pc[len(pc0):], self.heap, self.ctr, None))
                    if len(out) > limit:
                        raise Unsupported('more than %d paths' % limit)
                except Infeasible:
                    pass
                maxctr = max(maxctr, self.ctr)
                maxid = max(maxid, self.nextid)
                dec = self.dec
                while dec and dec[-1][0] + 1 >= len(dec[-1][1]):
                    dec.pop()
                if not dec:
                    break
                dec[-1][0] += 1
        finally:
            self.heap, self.pc, self.ctr, self.nextid = heap0, pc0, maxctr, maxid
            self.dec, self.pos = dec0, pos0
            self.exc_stack = exc0
            self.depth = depth0
            self.loopvars = lv0
            self.nz_theories, self.sums, self.memo = nz0, sums0, memo0
        return out

    def pure(self, fn):
        """an expression whose evaluation forks, as one conditional expression"""
        paths = self.explore(fn)
        v = None
        for P in reversed(paths):
            v = P.out if v is None else z3.If(z3.And(*P.delta), P.out, v)
        return v

    # ------------------------------------------------------------ values
    def force(self, v):
        while isinstance(v, Union):
            for c, x in v.alts[:-1]:
                if self.branch(c):
                    v = x
                    break
            else:
                c, x = v.alts[-1]
                v = x
        if isinstance(v, Poison):
            raise Unsupported('value after loop not known: %s' % v.why)
        return v

    def ite(self, c, a, b):
        """value equal to a if c else b"""
        if isinstance(c, bool):
            return a if c else b
        c = z3.simplify(c)
        if z3.is_true(c):
            return a
        if z3.is_false(c):
            return b
        if a is b:
            return a
        ia, ib = self.as_int(a), self.as_int(b)
        if ia is not None and ib is not None:
            na, nb = self.is_np(a), self.is_np(b)
            if na == nb and not isinstance(a, (bool, SBool)) and not isinstance(b, (bool, SBool)):
                return self.mk_int(z3.If(c, ia, ib), na)
            if isinstance(a, (bool, SBool)) and isinstance(b, (bool, SBool)):
                return SBool(z3.If(c, self.zbool(a), self.zbool(b)))
            return Union([(c, a), (z3.Not(c), b)])
        if type(a) is type(b):
            if isinstance(a, (SReal, STs, STd, SObj)):
                if a.e.eq(b.e):
                    return a
                return type(a)(z3.If(c, a.e, b.e))
            if isinstance(a, SPeriod):
                return SPeriod(z3.If(c, a.s, b.s), z3.If(c, a.t, b.t), a.freq if a.freq is b.freq else None)
            if isinstance(a, tuple) and len(a) == len(b):
                return tuple(self.ite(c, x, y) for x, y in zip(a, b))
            if isinstance(a, NT) and a.cls is b.cls:
                return NT(a.cls, [self.ite(c, x, y) for x, y in zip(a.vals, b.vals)])
            if isinstance(a, FInst) and a.cls is b.cls and set(a.f) == set(b.f):
                return FInst(a.cls, {k: self.ite(c, a.f[k], b.f[k]) for k in a.f})
            if isinstance(a, (str, float)) and a == b:
                return a
            if isinstance(a, Ref) and a == b:
                return a
        if isinstance(a, SObj) and isinstance(b, SObj):
            return SObj(z3.If(c, a.e, b.e))
        return Union([(c, a), (z3.Not(c), b)])

    @staticmethod
    def as_int(v):
        if isinstance(v, bool):
            return z3.IntVal(int(v))
        if isinstance(v, int):
            return z3.IntVal(v)
        if isinstance(v, SInt):
            return v.e
        if isinstance(v, SBool):
            return z3.If(v.e, z3.IntVal(1), z3.IntVal(0))
        return None

    @staticmethod
    def is_np(v):
        return isinstance(v, (SInt, SBool)) and v.np

    def mk_int(self, e, np=False):
        if isinstance(e, int):
            return SInt(z3.IntVal(e), True) if np else e
        e = z3.simplify(e)
        if z3.is_int_value(e) and not np:
            return e.as_long()
        return SInt(e, np)

    def mk_bool(self, e, np=False):
        if isinstance(e, bool):
            return e
        e = z3.simplify(e)
        if z3.is_true(e):
            return True
        if z3.is_false(e):
            return False
        return SBool(e, np)

    def zbool(self, v):
        if isinstance(v, bool):
            return z3.BoolVal(v)
        return v.e

    def zint(self, v):
        v = self.force(v)
        e = self.as_int(v)
        if e is None:
            raise PyExc(TypeError, 'integer expected, got %r' % (v,))
        return e

    def as_real(self, v):
        if isinstance(v, SReal):
            return v.e
        if isinstance(v, float):
            return z3.RealVal(repr(v))
        e = self.as_int(v)
        if e is not None:
            return z3.ToReal(e)
        if isinstance(v, SObj):
            return NUM(v.e)
        return None

    def truth(self, v):
        """z3 Bool or Python bool"""
        v = self.force(v)
        if v is None:
            return False
        if isinstance(v, bool):
            return v
        if isinstance(v, (int, float, str)):
            return bool(v)
        if isinstance(v, SBool):
            return v.e
        if isinstance(v, SInt):
            return v.e != 0
        if isinstance(v, SReal):
            return v.e != 0
        if isinstance(v, SObj):
            return TRUTH(v.e)
        if isinstance(v, tuple):
            return len(v) > 0
        if isinstance(v, (Opaque, ClassV, FuncV, BoundM, LibV, NativeV, STs)):
            if isinstance(v, Opaque) and hasattr(v, 'truth'):
                return v.truth
            return True
        if isinstance(v, NT):
            return True
        if isinstance(v, OpaqueStr):
            raise Unsupported('truth of text')
        if isinstance(v, SSeq):
            if v.kind in ('list', 'tuple', 'range'):
                return self.z(v.n) != 0
            raise Unsupported('truth of %s' % v.kind)
        if isinstance(v, Ref):
            r = self.rec(v)
            if r.kind == 'list':
                x = r.f['v']
                return len(x) > 0 if isinstance(x, tuple) else self.z(x.n) != 0
            if r.kind == 'dict':
                if any(k == '$sym' for k in r.f):
                    raise Unsupported('truth of symbolic dict')
                return len(r.f) > 0
        if isinstance(v, (Ref, FInst)):
            cls = self.class_of(v)
            if isinstance(cls, ClassV):
                m, _ = cls.lookup('__bool__')
                if m is not None:
                    return self.truth(self.call(BoundM(m[1], v), [], {}))
                m, _ = cls.lookup('__len__')
                if m is not None:
                    return self.z(self.zint(self.call(BoundM(m[1], v), [], {}))) != 0
                return True
        raise Unsupported('truth of %r' % (v,))

    def class_of(self, v):
        if isinstance(v, FInst):
            return v.cls
        if isinstance(v, Ref):
            return self.rec(v).cls
        return None

    def fields(self, v):
        return v.f if isinstance(v, FInst) else self.rec(v).f

    # sequence views ------------------------------------------------------
    def seq(self, v):
        """SSeq or tuple view of a sequence-like value, or None"""
        v = self.force(v)
        if isinstance(v, (tuple, SSeq)):
            return v
        if isinstance(v, NT):
            return v.vals
        if isinstance(v, Ref):
            r = self.rec(v)
            if r.kind in ('list', 'array'):
                return r.f['v']
            if r.kind == 'series':
                return r.f['v']
        return None

    def seq_n(self, s):
        if isinstance(s, Poison):
            raise Unsupported('sequence not known: %s' % s.why)
        return len(s) if isinstance(s, tuple) else s.n

    def seq_at(self, s, i):
        """element i (z3 int or int, within range)"""
        if isinstance(s, tuple):
            if isinstance(i, int):
                return s[i]
            i = z3.simplify(i)
            if z3.is_int_value(i):
                k = i.as_long()
                if 0 <= k < len(s):
                    return s[k]
                return Poison('index out of range')
            if not s:
                return Poison('element of empty sequence')
            v = s[-1]
            for k in range(len(s) - 2, -1, -1):
                v = self.ite(i == k, s[k], v)
            return v
        return s.at(self.z(i))

    def seq_append(self, s, x):
        if isinstance(s, tuple):
            return s + (x,)
        base = s.base if s.base is not None and s.app is not None else s
        app = (s.app or ()) + (x,) if s.base is not None and s.app is not None else (x,)
        n0 = base.n

        def at(j, base=base, app=app, n0=n0):
            v = MISSING
            for k in range(len(app) - 1, -1, -1):
                v = app[k] if v is MISSING else self.ite(self.z(j) == self.z(n0) + k, app[k], v)
            if isinstance(base.n, int) and base.n == 0:
                return v
            return self.ite(self.z(j) < self.z(n0), base.at(self.z(j)), v)
        return SSeq(z3.simplify(self.z(n0) + len(app)), at, s.kind, base=base, app=app)

    def to_sseq(self, s, kind=None):
        if isinstance(s, tuple):
            return SSeq(len(s), lambda j, s=s: self.seq_at(s, j), kind or 'list')
        return s.copy(kind=kind) if kind else s

    def slice_seq(self, s, lo, hi, step=None):
        if step is not None and step != 1:
            raise Unsupported('slice step')
        n = self.seq_n(s)
        if isinstance(s, tuple) and (lo is None or isinstance(lo, int)) and (hi is None or isinstance(hi, int)):
            return s[lo:hi]
        if lo is None and hi is None:
            return s

        def norm(b, default):
            if b is None:
                return self.z(default)
            e = self.zint(b)
            if self.branch(e < 0):
                e = e + self.z(n)
                if self.branch(e < 0):
                    return z3.IntVal(0)
                return e
            if self.branch(e > self.z(n)):
                return self.z(n)
            return e
        a, b = norm(lo, 0), norm(hi, n)
        if self.branch(b < a):
            b = a
        ln = z3.simplify(b - a)
        a = z3.simplify(a)
        kind = s.kind if isinstance(s, SSeq) else 'list'
        srt = isinstance(s, SSeq) and s.sorted_
        return SSeq(ln.as_long() if z3.is_int_value(ln) else ln, lambda j, s=s, a=a: self.seq_at(s, z3.simplify(self.z(j) + a)),
                    kind, sorted_=srt, theory=s.theory if isinstance(s, SSeq) and s.theory and s.theory[0] == 'grid' else None)

    def index_seq(self, s, i, exc=IndexError):
        i = self.force(i)
        e = self.as_int(i)
        if e is None:
            raise PyExc(TypeError, 'index %r' % (i,))
        n = self.z(self.seq_n(s))
        if self.branch(e < 0):
            e = z3.simplify(e + n)
            if not self.branch(e >= 0):
                raise PyExc(exc, 'index out of range')
        if not self.branch(e < n):
            raise PyExc(exc, 'index out of range')
        return self.seq_at(s, z3.simplify(e))

    # ------------------------------------------------------------ equality of values
    def eq_goals(self, a, b, heapa, heapb, strict=False, seen=None):
        """list of z3 goals stating a == b (a from the contract, b from the code); False when impossible"""
        seen = seen or set()
        if isinstance(a, (Union, Poison)) or isinstance(b, (Union, Poison)):
            # split unions under implications
            if isinstance(a, Union):
                out = []
                for c, x in a.alts:
                    gs = self.eq_goals(x, b, heapa, heapb, strict, seen)
                    out += [z3.Implies(c, g) for g in gs]
                return out
            if isinstance(b, Union):
                out = []
                for c, x in b.alts:
                    gs = self.eq_goals(a, x, heapa, heapb, strict, seen)
                    out += [z3.Implies(c, g) for g in gs]
                return out
            raise Unsupported('comparison of unknown value')
        if isinstance(a, OpaqueStr) or isinstance(b, OpaqueStr):
            return [] if isinstance(a, (OpaqueStr, str)) and isinstance(b, (OpaqueStr, str)) else [z3.BoolVal(False)]
        if isinstance(a, AnyValue):
            return []
        if isinstance(a, (bool, SBool)) and isinstance(b, (bool, SBool)):
            return [self.zbool(a) == self.zbool(b)]
        if isinstance(a, (bool, SBool)) != isinstance(b, (bool, SBool)) and not (isinstance(a, SObj) or isinstance(b, SObj)):
            ea, eb = self.as_int(a), self.as_int(b)
            if ea is not None and eb is not None:
                return [ea == eb]
        ea, eb = self.as_int(a), self.as_int(b)
        if ea is not None and eb is not None:
            return [ea == eb]
        if isinstance(a, (SReal, float)) or isinstance(b, (SReal, float)):
            ra, rb = self.as_real(a), self.as_real(b)
            if ra is not None and rb is not None:
                return [ra == rb]
            return [z3.BoolVal(False)]
        if type(a) is type(b) or isinstance(a, SObj) and isinstance(b, SObj):
            if isinstance(a, (STs, STd, SObj)):
                return [a.e == b.e]
            if isinstance(a, SPeriod):
                return [a.s == b.s, a.t == b.t]
            if a is None or a is NAT or a is NAN:
                return []
            if isinstance(a, str):
                return [] if a == b else [z3.BoolVal(False)]
            if isinstance(a, NT):
                if a.cls.name != b.cls.name:
                    return [z3.BoolVal(False)]
                a, b = a.vals, b.vals
        sa, sb = self.seq_in(a, heapa), self.seq_in(b, heapb)
        if sa is not None and sb is not None:
            if isinstance(sa, tuple) and isinstance(sb, tuple):
                if len(sa) != len(sb):
                    return [z3.BoolVal(False)]
                out = []
                for x, y in zip(sa, sb):
                    out += self.eq_goals(x, y, heapa, heapb, strict, seen)
                return out
            n = self.z(self.seq_n(sa))
            m = self.z(self.seq_n(sb))
            zero = lambda x: z3.is_int_value(z3.simplify(x)) and z3.simplify(x).as_long() == 0
            if zero(n) or zero(m):
                return [n == m]
            self.ctr += 1
            j = z3.Int('j!%d' % self.ctr)
            gs = self.eq_goals(self.seq_at(sa, j), self.seq_at(sb, j), heapa, heapb, strict, seen)
            out = [n == m]
            for g in gs:
                out.append(z3.Implies(z3.And(n == m, j >= 0, j < n), g))
            if self.bound is not None and gs:
                # keep certified models inside the expanded range
                pass
            return out
        if isinstance(a, (Ref, FInst)) and isinstance(b, (Ref, FInst)):
            if isinstance(a, Ref) and isinstance(b, Ref) and a.id == b.id and heapa.get(a.id) is heapb.get(b.id):
                return []
            key = (getattr(a, 'id', id(a)), getattr(b, 'id', id(b)))
            if key in seen:
                return []
            seen.add(key)
            ra = heapa[a.id] if isinstance(a, Ref) else Rec('inst', a.cls, a.f)
            rb = heapb[b.id] if isinstance(b, Ref) else Rec('inst', b.cls, b.f)
            return self.eq_recs(ra, rb, heapa, heapb, seen)
        if isinstance(a, Opaque) or isinstance(b, Opaque):
            return [] if a is b else [z3.BoolVal(False)]
        if a is b:
            return []
        if isinstance(a, (LibV, ClassV)) and a == b:
            return []
        if isinstance(a, FuncV) and isinstance(b, FuncV) and a.node is b.node:
            return []
        return [z3.BoolVal(False)]

    def eq_recs(self, ra, rb, heapa, heapb, seen):
        if ra.kind != rb.kind or ra.cls is not rb.cls:
            return [z3.BoolVal(False)]
        out = []
        if ra.kind == 'env':
            return []
        keys = list(ra.f)
        for k in keys:
            if k not in rb.f:
                return [z3.BoolVal(False)]
            out += self.eq_goals(ra.f[k], rb.f[k], heapa, heapb, False, seen)
        if ra.kind in ('dict',) and set(rb.f) != set(ra.f):
            return [z3.BoolVal(False)]
        return out

    def seq_in(self, v, heap):
        if isinstance(v, (tuple, SSeq)):
            return v
        if isinstance(v, Ref):
            r = heap[v.id]
            if r.kind in ('list', 'array'):
                return r.f['v']
        return None

    # ------------------------------------------------------------ obligations
    def prove(self, name, goal, timeout=None, refutable=True):
        t0 = time.time()
        g = z3.simplify(goal) if isz(goal) else z3.BoolVal(bool(goal))
        if z3.is_true(g):
            self.obligations.append(Obligation(name, 'discharged', 'simplifier', secs=0.0, backend='simplifier'))
            return True
        if self.bound is not None:
            r = self.check([z3.Not(g)], timeout=20000)
            if r == 'unsat':
                self.obligations.append(Obligation(name, 'bounded-ok', '', secs=time.time() - t0))
                return True
            if r == 'sat' and not refutable:
                self.obligations.append(Obligation(name, 'undecided', 'not preserved: %s' % str(g)[:300], secs=time.time() - t0))
                return False
            if r == 'sat':
                self.obligations.append(Obligation(name, 'refuted', str(g)[:600], model=self.bounded_model([z3.Not(g)]), secs=time.time() - t0))
                raise Refuted(self.obligations[-1])
            self.obligations.append(Obligation(name, 'undecided', 'unknown', secs=time.time() - t0))
            return False
        r = self.check([z3.Not(g)], timeout=timeout or 5000)
        for gen in (2, 3) + self.deeper:
            if r != 'unsat':
                r = self.check([z3.Not(g)], timeout=timeout or 8000, gen=gen)
        if r != 'unsat' and self.use_full:
            r = self.check_full([z3.Not(g)], 8000)
        be = 'z3'
        if r != 'unsat' and self.use_cvc5:
            if self.cvc5_unsat(g):
                r, be = 'unsat', 'cvc5'
        if r == 'unsat':
            self.obligations.append(Obligation(name, 'discharged', '', secs=time.time() - t0, backend=be))
            return True
        self.obligations.append(Obligation(name, 'undecided', '%s: %s' % (r, str(g)[:400]), secs=time.time() - t0))
        return False

    use_cvc5 = False
    deeper = ()
    use_full = False

    def induct(self, name, n, P):
        """P(0), P(k) => P(k+1) for 0 <= k < n; then P holds on [0, n]"""
        if self.bound is not None:
            self.assume(self.forall(0, self.z(n) + 1, P)) if False else None
            return False
        if not self.valid3(P(z3.IntVal(0))):
            return False
        self.ctr += 1
        k = z3.Int('ik!%d' % self.ctr)
        if not self.valid3(z3.Implies(z3.And(k >= 0, k < self.z(n), P(k)), P(k + 1))):
            return False
        self.obligations.append(Obligation(name + ' (base and step)', 'discharged'))
        self.assume(self.forall(0, self.z(n) + 1, P))
        self.assume(z3.Implies(self.z(n) >= 0, P(self.z(n))))
        return True

    def valid3(self, c):
        c = z3.simplify(c)
        if z3.is_true(c):
            return True
        for gen in (1, 2):
            if self.check([z3.Not(c)], timeout=2500, gen=gen) == 'unsat':
                return True
        return False

    def quot(self, a, b, facts=False):
        """the exact quotient a/b of integers (b != 0): a function of a and b of which only a few facts are used"""
        a, b = z3.simplify(a), z3.simplify(b)
        if self.bound is not None or z3.is_int_value(a) or z3.is_int_value(b):
            return z3.simplify(z3.ToReal(a) / z3.ToReal(b))
        q = QUOT(a, b)
        if facts:
            self.assume(z3.Implies(b != 0, z3.And((a == b) == (q == 1), (a == 0) == (q == 0), z3.Implies(b > 0, z3.And((a > 0) == (q > 0), (a < b) == (q < 1))))))
        return q

    def link_sums(self):
        """equal terms have equal sums (induction on the number of terms)"""
        if self.bound is not None:
            return
        sums = self.sums
        for i in range(len(sums)):
            for j in range(i):
                S1, T1, n1 = sums[i]
                S2, T2, n2 = sums[j]
                if S1(0).eq(S2(0)):
                    continue
                if S1(0).sort() != S2(0).sort():
                    re = lambda f: (lambda k: f(k) if f(k).sort() == z3.RealSort() else z3.ToReal(f(k)))
                    S1, T1, S2, T2 = re(S1), re(T1), re(S2), re(T2)
                key = ('link', S1(0).get_id(), S2(0).get_id())
                if key in self.memo:
                    continue
                self.ctr += 1
                k = z3.Int('ik!%d' % self.ctr)
                if self.valid3(z3.Implies(z3.And(k >= 0, k < n1, k < n2), T1(k) == T2(k))):
                    self.memo[key] = True
                    if self.valid3(n1 == n2):
                        self.assume(S1(n1) == S2(n2))
                    m = z3.If(n1 < n2, n1, n2)
                    self.assume(self.forall(0, m + 1, lambda k: S1(k) == S2(k), pats=lambda k: [S1(k) if not z3.is_app_of(S1(k), z3.Z3_OP_TO_REAL) else S1(k).arg(0), S2(k) if not z3.is_app_of(S2(k), z3.Z3_OP_TO_REAL) else S2(k).arg(0)]))
                    self.assume(z3.Implies(m >= 0, S1(m) == S2(m)))

    def cvc5_unsat(self, g):
        import subprocess
        s = z3.Solver()
        for c in self.pc:
            s.add(c)
        s.add(z3.Not(g))
        txt = '(set-logic ALL)\n' + s.to_smt2()
        try:
            p = subprocess.run(['cvc5', '--tlimit=10000', '-'], input=txt, text=True, stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=20)
            return p.stdout.strip().startswith('unsat')
        except Exception:
            return False


class AnyValue(object):
    """contract leaves the value open"""


class Refuted(Exception):
    def __init__(self, ob):
        self.ob = ob


class Env(object):
    __slots__ = ('id', 'parent', 'mod', 'cls', 'fnlocals', 'globals_')

    def __init__(self, id, parent, mod, cls):
        self.id = id
        self.parent = parent
        self.mod = mod
        self.cls = cls
        self.fnlocals = None
        self.globals_ = ()


import interp    # noqa  (adds the interpreter methods)
import loops     # noqa
import lib       # noqa
