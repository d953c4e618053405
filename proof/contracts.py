"""Contract machinery: application at call sites, checking against bodies."""
import time
import traceback

import z3

from vals import *
from engine import Engine, Obligation, Refuted, AnyValue, isz, REPO
from interp import method, is_generator

CONTRACTS = {}


class Contract(object):
    def __init__(self, qual, spec):
        self.qual = qual
        self.spec = spec
        self.setup = None
        self.props = ()
        self.public = False
        self.apply = True
        self.effects = ()
        self.generator = False
        self.lemmas = None
        self.timeout = None
        self.mutates = False
        self.client = None
        self.abandon = False
        self.only = None
        self.exclude = ()
        self.checked_by = ()
        self.own = set()
        self.cases = 0


def contract(qual, props=(), public=False, apply=True, effects=(), lemmas=None, timeout=None, mutates=False, generator=False, abandon=False, checked_by=()):
    """spec(E, **arguments) describes the outcome of the function `qual`"""
    def deco(spec):
        c = CONTRACTS.setdefault(qual, Contract(qual, spec))
        c.spec = spec
        c.props = tuple(props)
        c.public = public
        c.apply = apply
        c.effects = effects
        c.lemmas = lemmas
        c.timeout = timeout
        c.mutates = mutates
        c.generator = generator
        c.checked_by = tuple(checked_by)   # clients that establish the contract
        c.abandon = abandon      # the objects are not used any more when it raises
        return spec
    return deco


def setup(qual, cases=0):
    """cases: number of alternatives of the setup that are checked as separate runs (E.pick)"""
    def deco(fn):
        c = CONTRACTS.setdefault(qual, Contract(qual, None))
        c.cases = cases
        c.setup = fn
        return fn
    return deco


def client(name, src, props=(), effects=(), mutates=False, lemmas=None, only=None, abandon=False, exclude=()):
    """a client program over the real code; the decorated spec describes its outcome"""
    def deco(spec):
        qual = 'client.' + name
        c = CONTRACTS.setdefault(qual, Contract(qual, spec))
        c.spec = spec
        c.props = tuple(props)
        c.public = True
        c.apply = False
        c.client = src
        c.only = only            # contracts that are applied; other functions are executed
        c.exclude = tuple(exclude)   # contracts that are not applied
        c.abandon = abandon
        c.lemmas = lemmas
        c.mutates = mutates
        c.effects = effects
        return spec
    return deco


def client_func(E, c):
    import ast
    from engine import Module
    m = Module.__new__(Module)
    m.name, m.path, m.src, m.is_pkg, m.ns = 'client', '', c.client, False, {}
    m.tree = ast.parse(c.client)
    # names of the library that a client may use
    for nm, mod in (('Workshift', 'timeboard.workshift'), ('Interval', 'timeboard.interval'), ('Timeboard', 'timeboard.timeboard'),
                    ('Organizer', 'timeboard.core'), ('_Span', 'timeboard.core'), ('_Schedule', 'timeboard.core'),
                    ('RememberingPattern', 'timeboard.core'), ('_Timeline', 'timeboard.core'), ('_Frame', 'timeboard.core'), ('OutOfBoundsError', 'timeboard.exceptions'), ('VoidIntervalError', 'timeboard.exceptions'), ('PartialOutOfBoundsError', 'timeboard.exceptions')):
        m.ns[nm] = ('lazy', mod, nm)
    E.load(m)
    for st in m.tree.body:
        pass
    return E.mod_get(m, m.tree.body[-1].name)


class Rel(object):
    """result described by a predicate: pred(value) -> list of goals"""

    def __init__(self, make, pred):
        self.make = make
        self.pred = pred


class Skip(Exception):
    """the contract does not cover this call; the body is used instead"""


def skip():
    raise Skip()


Engine.mode = 'apply'
Engine.case = None
Engine.frames = False


@method
def pick(self, alts):
    """one of the alternatives of a setup: all of them in turn, or the one this run is about"""
    alts = list(alts)
    return self.choose(alts) if self.case is None else alts[self.case]


@method
def throw(self, name):
    import builtins
    k = getattr(builtins, name, None)
    if k is None:
        k = self.cls('timeboard.exceptions', name)
    raise PyExc(k)


@method
def require(self, cond, what):
    """precondition"""
    if self.mode == 'check':
        self.assume(cond if isz(cond) else bool(cond))
        return
    g = cond if isz(cond) else z3.BoolVal(bool(cond))
    if not self.prove('%s: precondition of %s: %s' % (self.cur, self.spec_name, what), g):
        raise Skip()


@method
def hint(self, fact):
    """a consequence of the path so far, stated to help later queries; dropped when it is not shown"""
    if self.mode == 'check' and self.valid3(fact):
        self.assume(fact)


@method
def apply_contract(self, c, f, bound):
    keep = (self.mode, getattr(self, 'spec_name', None))
    self.mode = 'apply'
    self.spec_name = c.qual.split('.', 1)[1]
    try:
        v = c.spec(self, **bound)
        if isinstance(v, Rel):
            r = v.make(self)
            for g in v.pred(r):
                self.assume(g)
            v = r
        if c.generator:
            return self.make_iter('seq', src=v)
        return v
    except Skip:
        return NotImplemented
    finally:
        self.mode, self.spec_name = keep


def outcome(E, thunk):
    try:
        return ('return', thunk())
    except PyExc as e:
        return ('raise', e)


def check_contract(c, frames=False, **kw):
    if frames and not c.mutates and not c.effects:
        r = check_contract1(c, frames='all', **kw)
        if r['status'] in ('discharged', 'bounded-ok', 'refuted'):
            return r
    return check_contract1(c, frames='spec' if frames else None, **kw)


def check_contract1(c, repo=REPO, bound=None, budget=60, noapply=(), use_cvc5=False, case=None, frames=None):
    """verify the body of c.qual against c; returns dict"""
    t0 = time.time()
    E = Engine(repo, CONTRACTS, bound=bound, deadline=t0 + budget, noapply=tuple(noapply) + c.exclude)
    E.use_cvc5 = use_cvc5
    E.case = case
    E.checking = c.qual
    E.only = None if c.only is None else set(c.only)
    E.cur = c.qual.split('.', 1)[1]
    E.terminations = []
    res = {'function': c.qual, 'status': 'discharged', 'reason': '', 'bound': bound, 'paths': 0}
    npaths = [0]
    covered = set()
    try:
        f = resolve(E, c.qual) if c.client is None else client_func(E, c)

        def thunk():
            E.nz_theories = []
            E.sums = []
            E.recfuns = []
            E.memo = {}
            E.mode = 'check'
            E.spec_name = E.cur
            args = c.setup(E)
            kw = f.node.args.kwarg
            # the dict of keyword arguments is the function's own
            c.own = {args[kw.arg].id} if kw is not None and isinstance(args.get(kw.arg), Ref) else set()
            heap0 = dict(E.heap)

            def spec_thunk():
                E.mode = 'check'
                so = outcome(E, lambda: c.spec(E, **args))
                E.mode = 'apply'
                heap_s = dict(E.heap)
                for i in list(E.heap):
                    if i in heap0:
                        E.heap[i] = heap0[i]

                def body_thunk():
                    def body():
                        v = E.run_body(f, dict(args))
                        if isinstance(v, GenV):
                            v = E.drain(v)
                            if isinstance(v, SSeq):
                                v = v.copy(kind='list')
                        return v
                    bo = outcome(E, body)
                    heap_b = dict(E.heap)
                    npaths[0] += 1
                    covered.add(bo[0] if bo[0] == 'return' else bo[1].name)
                    compare_outcomes(E, c, so, bo, heap0, heap_s, heap_b, args)
                E.explore(body_thunk)
            if frames == 'all':
                only_frame(E, c, f, args, heap0, npaths, covered)
            else:
                E.frames = frames == 'spec'
                E.explore(spec_thunk)
        E.explore(thunk)
        if npaths[0] == 0:
            res['status'] = 'undecided'
            res['reason'] = 'precondition unreachable'
        elif not E.obligations:
            res['status'] = 'undecided'
            res['reason'] = 'no obligation generated'
        elif any(o.status == 'undecided' for o in E.obligations):
            res['status'] = 'undecided'
            res['reason'] = '; '.join(sorted(set('%s (%s)' % (o.name, o.reason[:300]) for o in E.obligations if o.status == 'undecided')))[:1500]
        elif bound is not None:
            res['status'] = 'bounded-ok'
    except Refuted as r:
        res['status'] = 'refuted'
        res['reason'] = r.ob.name + ': ' + r.ob.reason
        res['model'] = model_text(r.ob.model)
        res['outcomes'] = getattr(E, 'last_outcomes', None)
    except Unsupported as e:
        res['status'] = 'unsupported'
        res['reason'] = str(e)
    except RecursionError:
        res['status'] = 'unsupported'
        res['reason'] = 'recursion limit'
    except Exception as e:
        res['status'] = 'unsupported'
        res['reason'] = 'executor error: %s' % traceback.format_exc()[-1500:]
    res['paths'] = npaths[0]
    res['outcomes_reached'] = sorted(covered)
    res['obligations'] = [(o.name, o.status, o.backend) for o in E.obligations]
    res['solver_s'] = round(E.solver_s, 2)
    res['queries'] = E.queries
    res['wall_s'] = round(time.time() - t0, 2)
    res['used'] = sorted(E.used)
    res['applied'] = sorted(E.applied)
    res['inlined'] = sorted(E.inlined)
    res['notes'] = sorted(E.notes)
    res['terminations'] = sorted(set(E.terminations))
    return res


# the representation of the objects: what every contract presupposes and no query may alter
KNOWN = {'_timeline', '_frame', '_frameband', '_wsband', '_workshift_ref', '_base_unit_freq', '_default_name', '_default_schedule', '_schedules', '_custom_selector',
         '_worktime_source', '_on_duty_index', '_off_duty_index', '_name', '_selector', '_loc', '_schedule', '_tb', '_start_times', '$base'}


def representation(heap0, args):
    """ids of the objects reached from the arguments through the representation"""
    seen, todo = set(), [v for v in args.values()]
    while todo:
        v = todo.pop()
        if isinstance(v, tuple):
            todo += list(v)
        elif isinstance(v, Ref) and v.id in heap0 and v.id not in seen:
            seen.add(v.id)
            r = heap0[v.id]
            todo += [x for k, x in r.f.items() if r.kind != 'inst' or k in KNOWN]
    return seen


def only_frame(E, c, f, args, heap0, npaths, covered):
    """whatever the function computes: nothing that existed before is modified"""
    mine = representation(heap0, args)
    direct = {v.id for v in args.values() if isinstance(v, Ref)}

    def body_thunk():
        def body():
            v = E.run_body(f, dict(args))
            return E.drain(v) if isinstance(v, GenV) else v
        bo = outcome(E, body)
        npaths[0] += 1
        covered.add(bo[0] if bo[0] == 'return' else bo[1].name)
        for i in heap0:
            r0, rb = heap0[i], E.heap.get(i)
            if r0.kind == 'env' or i in c.own or rb is r0:
                continue
            for fld in set(rb.f) | set(r0.f):
                if fld in rb.f and fld in r0.f and rb.f[fld] is r0.f[fld] or fld in c.effects and i in direct:
                    continue
                own = i in mine and (r0.kind != 'inst' or fld in KNOWN)
                gs = E.eq_goals(r0.f[fld], rb.f[fld], heap0, E.heap) if fld in r0.f and fld in rb.f else [z3.BoolVal(False)]
                for g in gs:
                    if not E.prove('%s: frame: %s of an existing object is unchanged' % (E.cur, fld if isinstance(fld, str) else fld[-1]), g, refutable=own):
                        break
        E.prove('%s: frame (nothing that existed before is modified)' % E.cur, z3.BoolVal(True))
    E.explore(body_thunk)


def model_text(m):
    if m is None:
        return None
    out = []
    for d in m.decls():
        s = str(m[d])
        out.append('%s = %s' % (d.name(), s.replace('\n', ' ')[:300]))
    return sorted(out)[:80]


def compare_outcomes(E, c, so, bo, heap0, heap_s, heap_b, args):
    name = E.cur
    E.last_outcomes = '%s / %s' % (so[0] if so[0] == 'return' else so[1].name, bo[0] if bo[0] == 'return' else bo[1].name + ' ' + bo[1].why)
    if E.frames:
        if so[0] != bo[0] or c.abandon and so[0] == 'raise':
            return
    elif so[0] == 'raise':
        if bo[0] != 'raise':
            E.prove('%s: raises %s' % (name, so[1].name), z3.BoolVal(False))
            return
        ok = so[1].name in exc_classes(bo[1].cls)
        E.prove('%s: raises %s (code: %s %s)' % (name, so[1].name, bo[1].name, bo[1].why if not ok else ''), z3.BoolVal(ok))
        if not ok or c.abandon:
            return
    else:
        if bo[0] == 'raise':
            E.prove('%s: returns normally (code raises %s %s)' % (name, bo[1].name, bo[1].why), z3.BoolVal(False))
            return
        if isinstance(so[1], Rel):
            for i, g in enumerate(so[1].pred(bo[1])):
                E.prove('%s: postcondition %d' % (name, i + 1), g)
        elif isinstance(so[1], AnyValue):
            E.prove('%s: returns' % name, z3.BoolVal(True))
        else:
            gs = E.eq_goals(so[1], bo[1], heap_s, heap_b)
            if E.sums:
                E.link_sums()
            if c.lemmas is not None:
                c.lemmas(E)
            if not gs:
                E.prove('%s: result' % name, z3.BoolVal(True))
            for i, g in enumerate(gs):
                if not E.prove('%s: result' % name, g):
                    break
    # frame: objects that existed before are unchanged, except as the contract says
    changed = False
    direct = {v.id for v in args.values() if isinstance(v, Ref)}
    for i in heap0:
        effects = c.effects if i in direct else ()
        rb, r0, rs = heap_b.get(i), heap0[i], heap_s.get(i)
        if r0.kind == 'env' or i in c.own or (rb is r0 and rs is r0):
            continue
        gs = []
        for fld in set(rb.f) | set(rs.f):
            if fld in effects:
                continue
            if fld not in rb.f or fld not in rs.f:
                gs.append(z3.BoolVal(False))
                continue
            a, b = rs.f[fld], rb.f[fld]
            if a is b or fld in effects:
                continue
            gs += E.eq_goals(a, b, heap_s, heap_b)
        changed = True
        if not gs:
            E.prove('%s: frame and effects' % name, z3.BoolVal(True))
        for g in gs:
            if not E.prove('%s: frame and effects' % name, g, refutable=bool(c.mutates)):
                break
    if not changed:
        E.prove('%s: frame (nothing that existed before is modified)' % name, z3.BoolVal(True))


def resolve(E, qual):
    """timeboard.core._Timeline._get_ws_first_baseunit -> FuncV"""
    parts = qual.split('.')
    for k in range(len(parts) - 1, 0, -1):
        modname = '.'.join(parts[:k])
        try:
            m = E.module(modname)
        except Unsupported:
            continue
        v = None
        obj = None
        rest = parts[k:]
        if rest[0] not in m.ns:
            raise Unsupported('%s not found in the source' % qual)
        obj = E.mod_get(m, rest[0])
        for nm in rest[1:]:
            if not isinstance(obj, ClassV):
                raise Unsupported('%s not found in the source' % qual)
            x = obj.ns.get(E.mangle(nm, obj))
            if x is None:
                # inherited
                x, _ = obj.lookup(E.mangle(nm, obj))
            if x is None:
                raise Unsupported('%s not found in the source' % qual)
            obj = x[1]
        if not isinstance(obj, FuncV):
            raise Unsupported('%s is not a function' % qual)
        return obj
    raise Unsupported('%s not found in the source' % qual)
