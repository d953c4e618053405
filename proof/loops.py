"""Iterators and loops of symbolic length."""
import z3

from vals import *
from engine import Engine, MISSING, isz, vsub, vmentions, has_vars, fresh_index
from interp import method


# ---------------------------------------------------------------- iterators
@method
def make_iter(self, kind, **f):
    f.setdefault('pos', 0)
    return self.alloc(Rec('iter', kind, f))


@method
def get_iter(self, v):
    v = self.force(v)
    if isinstance(v, GenV):
        return self.gen_iter(v)
    if isinstance(v, Ref):
        r = self.rec(v)
        if r.kind == 'iter':
            return v
        if r.kind == 'dict':
            if '$sym' in r.f:
                return self.make_iter('seq', src=self.symdict_keys(v))
            return self.make_iter('seq', src=tuple(k[1] for k in r.f))
        if r.kind == 'set':
            raise Unsupported('iteration over a set')
        if r.kind == 'inst':
            if r.cls.lookup('__iter__')[0] is not None:
                x = self.call(self.getattr_(v, '__iter__'), [], {})
                x = self.force(x)
                if isinstance(x, Ref) and self.rec(x).kind == 'inst':
                    if self.rec(x).cls.lookup('__next__')[0] is None:
                        raise PyExc(TypeError, 'not an iterator')
                    return self.make_iter('object', obj=x)
                return self.get_iter(x)
            if '$base' in r.f:
                s = self.lib_seq(r.f['$base'])
                return self.make_iter('seq', src=s)
            raise PyExc(TypeError, 'not iterable')
    s = self.seq(v)
    if s is None:
        s = self.lib_seq(v)
    if s is None:
        if v is None or isinstance(v, (int, SInt, SBool, bool, float)):
            raise PyExc(TypeError, 'not iterable')
        raise Unsupported('iteration over %r' % (v,))
    return self.make_iter('seq', src=s)


def stop(it):
    ex = PyExc(StopIteration)
    ex.it = it
    return ex


@method
def iter_next(self, it):
    r = self.rec(it)
    k = r.cls
    if k == 'seq':
        s, pos = r.f['src'], r.f['pos']
        n = self.seq_n(s)
        p = self.z(self.as_int(pos))
        if not self.branch(p < self.z(n)):
            raise stop(it)
        self.put(it, r.with_(pos=self.mk_int(p + 1)))
        return self.seq_at(s, z3.simplify(p))
    if k == 'cycle':
        s, pos = r.f['src'], r.f['pos']
        n = self.seq_n(s)
        p = self.z(self.as_int(pos))
        if not self.branch(self.z(n) > 0):
            raise stop(it)
        self.put(it, r.with_(pos=self.mk_int(p + 1)))
        if isinstance(n, int) and n == 1:
            return self.seq_at(s, z3.IntVal(0))
        return self.seq_at(s, z3.simplify(p % self.z(n)))
    if k == 'cycle_it':
        sub = r.f['it']
        saved = self.z(self.as_int(r.f['saved']))
        try:
            x = self.iter_next(sub)
        except PyExc as ex:
            if 'StopIteration' in exc_classes(ex.cls) and getattr(ex, 'it', None) == sub:
                if self.branch(saved == 0):
                    raise stop(it)
                raise Unsupported('cycle over a finite iterator')
            raise
        self.put(it, self.rec(it).with_(saved=self.mk_int(z3.simplify(saved + 1))))
        return x
    if k == 'count':
        pos = r.f['pos']
        p = self.z(self.as_int(pos))
        self.put(it, r.with_(pos=self.mk_int(p + 1)))
        return self.mk_int(p)
    if k == 'zip':
        out = []
        for sub in r.f['its']:
            try:
                out.append(self.iter_next(sub))
            except PyExc as ex:
                if 'StopIteration' in exc_classes(ex.cls) and getattr(ex, 'it', None) == sub:
                    raise stop(it)
                raise
        return tuple(out)
    if k == 'map':
        try:
            x = self.iter_next(r.f['it'])
        except PyExc as ex:
            if 'StopIteration' in exc_classes(ex.cls) and getattr(ex, 'it', None) == r.f['it']:
                raise stop(it)
            raise
        return self.call(r.f['fn'], list(x) if r.f.get('star') else [x], {})
    if k == 'dropwhile':
        sub = r.f['it']
        started = r.f['started']
        if not self.branch(started if isinstance(started, bool) else started.e):
            found = self.new_list()

            def step():
                try:
                    x = self.iter_next(sub)
                except PyExc as ex:
                    if 'StopIteration' in exc_classes(ex.cls) and getattr(ex, 'it', None) == sub:
                        raise stop(it)
                    raise
                if self.branch(self.truth(self.call(r.f['fn'], [x], {}))):
                    return True
                raise ReturnEx(x)
            try:
                self.run_loop(step, 'dropwhile', finite=False)
            except ReturnEx as e:
                self.put(it, self.rec(it).with_(started=True))
                return e.v
            raise Unsupported('dropwhile')
        try:
            return self.iter_next(sub)
        except PyExc as ex:
            if 'StopIteration' in exc_classes(ex.cls) and getattr(ex, 'it', None) == sub:
                raise stop(it)
            raise
    if k == 'object':
        try:
            return self.call(self.getattr_(r.f['obj'], '__next__'), [], {})
        except PyExc as ex:
            if 'StopIteration' in exc_classes(ex.cls):
                raise stop(it)
            raise
    raise Unsupported('iterator %s' % k)


@method
def iter_concrete(self, it):
    r = self.rec(it)
    if r.cls == 'seq':
        n = self.seq_n(r.f['src'])
        return isinstance(n, int) and n <= 40 and isinstance(r.f['pos'], int)
    if r.cls == 'zip':
        return any(self.iter_concrete(s) for s in r.f['its'])
    if r.cls == 'map':
        return self.iter_concrete(r.f['it'])
    return False


# ---------------------------------------------------------------- loops
class Havoc(object):
    pass


@method
def run_loop(self, step, what, finite):
    """run step() until it returns False (normal end) or raises; unbounded"""
    peel = 0
    while True:
        r = self.try_loop(step, what, finite)
        if r == 'done':
            return
        if isinstance(r, tuple):
            # dictionaries that the loop fills by number
            for ref in r[1]:
                self.to_map(ref)
            continue
        peel += 1
        if peel == 3:
            raise Unsupported('loop %s: %s' % (what, r))
        self.notes.add('first iteration peeled: %s' % what)
        if not step():
            return


@method
def step_outcome(self, step):
    try:
        return ('cont', None) if step() else ('end', None)
    except BreakEx:
        return ('break', None)
    except ReturnEx as e:
        return ('return', e.v)
    except PyExc as e:
        return ('raise', e)


@method
def try_loop(self, step, what, finite):
    key = None
    self.ctr += 1
    tag = self.ctr
    n = z3.Int('it!%d' % tag)
    heap0 = dict(self.heap)
    havoc = {}          # place -> value at start of the arbitrary iteration
    linear = {}         # place -> (initial value, step): guessed, and checked below
    notlinear = set()
    names = {}
    self.loopvars.append(n)
    consts = set()
    pre = self.heap
    try:
        for rnd in range(12):
            start = dict(heap0)
            for (i, fld), hv in havoc.items():
                rec = start[i]
                f = dict(rec.f)
                if hv is MISSING:
                    f.pop(fld, None)
                else:
                    f[fld] = hv
                start[i] = rec.with_f(f)
            self.heap = start

            def thunk():
                self.assume(n >= 0)
                return self.step_outcome(step)
            paths = self.explore(thunk)
            new = False
            changed = {}
            tomap = set()
            for P in paths:
                if P.out[0] != 'cont':
                    continue
                for i in heap0:
                    ra, rb = start[i], P.heap.get(i)
                    if rb is ra:
                        continue
                    if rb is None:
                        raise Unsupported('object removed in loop')
                    if ra.kind == 'dict' and rb.kind == 'map':
                        tomap.add(i)
                        continue
                    for fld in set(ra.f) | set(rb.f):
                        va, vb = ra.f.get(fld, MISSING), rb.f.get(fld, MISSING)
                        if va is vb or (i, fld) in havoc or same_value(va, vb):
                            continue
                        changed.setdefault((i, fld), []).append((va, vb))
                        new = True
            if tomap:
                return 'map', [Ref(i) for i in tomap]
            for place, vs in changed.items():
                va = vs[0][0]
                d = None
                if place not in notlinear and isinstance(va, (int, SInt)) and not isinstance(va, bool):
                    e0 = self.as_int(va)
                    ds = [None if not isinstance(vb, (int, SInt)) or isinstance(vb, bool) else z3.simplify(self.as_int(vb) - e0) for _, vb in vs]
                    if all(x is not None and z3.is_int_value(x) for x in ds) and all(x.eq(ds[0]) for x in ds):
                        d = ds[0].as_long()
                if d is not None and len(vs) == sum(1 for P in paths if P.out[0] == 'cont'):
                    npf = any(self.is_np(x) for v in vs for x in v)
                    linear[place] = (e0, d, npf)
                    havoc[place] = self.mk_int(z3.simplify(e0 + d * n), npf)
                else:
                    havoc[place] = self.havoc_value(va, place, tag, consts)
            if not new:
                for place in list(linear):
                    e0, d, npf = linear[place]
                    for P in paths:
                        if P.out[0] != 'cont':
                            continue
                        v = P.heap[place[0]].f.get(place[1], MISSING)
                        if not isinstance(v, (int, SInt)) or isinstance(v, bool) or not z3.simplify(self.as_int(v) - (e0 + d * n + d)).eq(z3.IntVal(0)) or self.is_np(v) != npf:
                            linear.pop(place)
                            notlinear.add(place)
                            havoc[place] = self.havoc_value(heap0[place[0]].f[place[1]], place, tag, consts)
                            new = True
                            break
            if not new:
                break
        else:
            raise Unsupported('loop %s does not stabilise' % what)
    finally:
        self.loopvars.pop()
        self.heap = pre
    cont = [P for P in paths if P.out[0] == 'cont']
    exits = [P for P in paths if P.out[0] != 'cont']
    if not cont:
        # at most one iteration
        if len(exits) == 0:
            raise Infeasible()

    # ---- shape of every modified place as a function of the iteration number
    closed = {}         # place -> fn(z3 int) -> value (MISSING allowed)
    scal = []           # (havoc const, fn int->expr)
    seqmap_fn = []      # (havoc seq, fn(N) -> seq)
    extra_facts = []    # fn(N) -> list of facts
    links = []          # ranks of the iterations that assign a variable
    rewrites = []       # conditions on maps under construction, in terms of their history

    def pairs(at_n):
        return [(hc, fn(at_n)) for hc, fn in scal]

    for place, (e0, d, npf) in linear.items():
        closed[place] = (lambda e0, d, npf: lambda k: self.mk_int(z3.simplify(e0 + d * self.z(k)), npf))(e0, d, npf)
    pending = {p: hv for p, hv in havoc.items() if p not in linear}
    why = ''

    def cval(P, place):
        return P.heap[place[0]].f.get(place[1], MISSING)

    def resolved(v):
        return not vmentions(v, consts_left)
    progress = True
    while pending and progress:
        progress = False
        consts_left = set()
        for place, hv in pending.items():
            consts_left |= havoc_names(hv)
        for place, hv in list(pending.items()):
            vals = [(P, cval(P, place)) for P in cont]
            v0 = heap0[place[0]].f.get(place[1], MISSING)
            if any(v is MISSING for _, v in vals) and hv is not MISSING:
                raise Unsupported('loop %s deletes %s' % (what, place[1]))
            # integers and timestamps
            if isinstance(hv, (SInt, STs)):
                typ = type(hv)
                exprs = []
                for P, v in vals:
                    e = self.as_int(v) if typ is SInt else (v.e if isinstance(v, STs) else None)
                    exprs.append(e)
                if all(e is not None for e in exprs):
                    diffs = [z3.simplify(e - hv.e) for e in exprs]
                    d = diffs[0]
                    if all(x.eq(d) for x in diffs) and not has_vars(d, consts_left | {str(n)}) and self.loop_inv(d, n):
                        e0 = self.as_int(v0) if typ is SInt else v0.e
                        npf = hv.np if typ is SInt else False
                        closed[place] = (lambda e0, d, typ, npf: lambda k: self.mk_int(e0 + d * k, npf) if typ is SInt else STs(z3.simplify(e0 + d * k)))(e0, d, typ, npf)
                        scal.append((hv.e, (lambda e0, d: lambda k: z3.simplify(e0 + d * self.z(k)))(e0, d)))
                        del pending[place]
                        progress = True
                        continue
            # lists built by appending
            if isinstance(hv, SSeq) and hv.kind == '$hlist':
                ok = True
                apps = []
                for P, v in vals:
                    if v is hv:
                        apps.append(())
                    elif isinstance(v, SSeq) and v.base is hv:
                        apps.append(v.app)
                    else:
                        ok = False
                if ok and len(set(len(a) for a in apps)) == 1 and len(apps[0]) >= 1 and all(resolved(self.freeze(x, P, heap0)) for (P, _), a in zip(vals, apps) for x in a):
                    k = len(apps[0])
                    base = v0
                    elems = []
                    for q in range(k):
                        elems.append(self.merge_paths([(P, self.freeze(a[q], P, heap0)) for (P, _), a in zip(vals, apps)], n))

                    def mk(N, base=base, elems=elems, k=k):
                        return self.append_many(base, elems, k, n, N, pairs)
                    closed[place] = mk
                    seqmap_fn.append((hv, mk))
                    del pending[place]
                    progress = True
                    continue
                if ok and all(len(a) <= 1 for a in apps) and all(resolved(self.freeze(x, P, heap0)) for (P, _), a in zip(vals, apps) for x in a):
                    # filtered append
                    mk = self.filter_append(v0, [(P, [self.freeze(x, P, heap0) for x in a]) for (P, _), a in zip(vals, apps)], n, pairs, tag, place)
                    closed[place] = mk
                    seqmap_fn.append((hv, mk))
                    del pending[place]
                    progress = True
                    continue
                why = 'list %s is not built by appending' % (place[1],)
            # arrays / maps written by key
            if isinstance(hv, SSeq) and hv.kind == '$harray':
                ok = all(v is hv or (isinstance(v, SSeq) and v.base is hv and v.writes is not None) for _, v in vals)
                if ok:
                    logs = []
                    for P, v in vals:
                        ws = [] if v is hv else v.writes
                        ws = [(lo, hi, (lambda j, g=g, P=P: self.freeze(g(j), P, heap0))) for lo, hi, g in ws]
                        logs.append((P, ws))
                    t = fresh_index()
                    if all(not has_vars(self.z(lo), consts_left) and not has_vars(self.z(hi), consts_left) and not vmentions(g(t), consts_left) for _, ws in logs for lo, hi, g in ws):
                        atn = hv.theory[1]
                        if any(has_vars(c, {atn}) for P in paths for c in P.delta):
                            if not all(z3.simplify(self.z(hi) - self.z(lo)).eq(z3.IntVal(1)) for _, ws in logs for lo, hi, g in ws):
                                return 'condition on an array under construction'
                            mk, rw, fct = self.map_log(v0, logs, n, pairs, tag, place, atn)
                            rewrites.append(rw)
                            extra_facts.append(fct)
                        else:
                            mk = self.write_log(v0, logs, n, pairs, tag, place)
                        closed[place] = mk
                        seqmap_fn.append((hv, mk))
                        del pending[place]
                        progress = True
                        continue
                why = 'array %s' % (place[1],)
            # value of the last iteration
            if all(v is not MISSING for _, v in vals) and vals:
                fr = [(P, self.freeze(v, P, heap0)) for P, v in vals]
                if all(not vmentions(v, consts_left) for _, v in fr) and (len(fr) == 1 or all(same_value(fr[0][1], v) for _, v in fr) or not any(has_vars(c, consts_left) for P, _ in fr for c in P.delta)):
                    g = self.merge_paths(fr, n)
                    if v0 is not MISSING and not self.value_depends(g, n) and same_value(v0, g):
                        closed[place] = lambda k, v0=v0: v0
                        if hasattr(hv, 'e'):
                            scal.append((hv.e, lambda k, v0=v0: hvexpr(self, v0)))
                        del pending[place]
                        progress = True
                        continue
                    if isinstance(hv, (Poison,)) or hv is MISSING or hasattr(hv, 'e'):
                        def last(k, v0=v0, g=g, prev=list(scal)):
                            m = self.z(k) - 1
                            return vsub(vsub(g, [(n, m)]), [(hc, fn(m)) for hc, fn in prev])
                        if v0 is MISSING:
                            closed[place] = lambda k, last=last: last(k)
                            del pending[place]
                            progress = True
                            continue
                        if isinstance(hv, Poison):
                            closed[place] = lambda k, last=last, v0=v0: self.ite(self.z(k) == 0, v0, last(k))
                            del pending[place]
                            progress = True
                            continue
                        if hasattr(hv, 'e'):
                            def lv(k, last=last, v0=v0, hv=hv):
                                a = hvexpr_t(self, v0, hv)
                                b = hvexpr_t(self, last(k), hv)
                                if a is None or b is None:
                                    raise Unsupported('value kind changes in loop')
                                return z3.If(self.z(k) == 0, a, b)
                            try:
                                lv(n)
                            except Unsupported:
                                why = 'kind of %s changes' % (place[1],)
                                continue
                            closed[place] = lambda k, lv=lv, hv=hv: retype(self, hv, lv(k))
                            scal.append((hv.e, lv))
                            del pending[place]
                            progress = True
                            continue
            if not why:
                why = 'no closed form for %s' % (place[1],)
        if pending and not progress:
            # variables whose value at the start of an iteration is never used: dead
            for place, hv in list(pending.items()):
                if heap0[place[0]].kind != 'env' or not (isinstance(hv, Poison) or hv is MISSING or hasattr(hv, 'e')):
                    continue
                nm = havoc_names(hv)
                if nm:
                    used = any(has_vars(c, nm) for P in paths for c in P.delta) or any(P.out[1] is not None and not isinstance(P.out[1], PyExc) and vmentions(P.out[1], nm) for P in paths)
                    for P in paths:
                        for i, rec in P.heap.items():
                            if rec is start.get(i):
                                continue
                            for fld, v in rec.f.items():
                                if (i, fld) != place and vmentions(v, nm):
                                    used = True
                    if used:
                        continue
                closed[place] = lambda k, place=place: Poison('%s is carried by the loop' % (place[1],))
                del pending[place]
                progress = True
        if pending and not progress:
            # variables assigned in some iterations only: the last such iteration decides
            for place, hv in list(pending.items()):
                if not isinstance(hv, (SInt, SBool, STs, SReal)):
                    continue
                vals = [(P, cval(P, place)) for P in cont]
                sets = [(P, self.freeze(v, P, heap0)) for P, v in vals if not (v is hv or same_value(v, hv))]
                if not sets or len(sets) == len(vals):
                    continue
                if any(v is MISSING or vmentions(v, consts_left) or hvexpr_t(self, v, hv) is None for _, v in sets) or any(has_vars(c, consts_left) for P in cont for c in P.delta):
                    continue
                v0 = heap0[place[0]].f[place[1]]
                e0 = hvexpr_t(self, v0, hv)
                if e0 is None:
                    continue
                lv_ = list(self.loopvars)
                cf = z3.Function('last!%d_%s_cnt' % (tag, place[1]), *([z3.IntSort()] * (len(lv_) + 2)))
                pf = z3.Function('last!%d_%s_pos' % (tag, place[1]), *([z3.IntSort()] * (len(lv_) + 2)))
                cnt = lambda k, cf=cf, lv_=lv_: cf(*(lv_ + [self.z(k)]))
                pos = lambda k, pf=pf, lv_=lv_: pf(*(lv_ + [self.z(k)]))
                prev = list(scal)

                def at_m(e, m, prev=prev):
                    return z3.substitute(z3.substitute(e, *[(hc, fn(n)) for hc, fn in prev]) if prev else e, (n, m))
                cond = lambda m, sets=sets, at_m=at_m: z3.Or(*[at_m(z3.And(*P.delta), self.z(m)) for P, _ in sets])

                def lastv(k, sets=sets, cnt=cnt, pos=pos, e0=e0, hv=hv, at_m=at_m):
                    m = pos(cnt(k) - 1)
                    g = None
                    for P, v in reversed(sets):
                        e = at_m(hvexpr_t(self, v, hv), m)
                        g = e if g is None else z3.If(at_m(z3.And(*P.delta), m), e, g)
                    return z3.If(cnt(k) > 0, g, e0)
                extra_facts.append(lambda N, cond=cond, cnt=cnt, pos=pos: self.rank_facts(cond, cnt, pos, self.z(N)))
                if not lv_:
                    links.append((cond, cnt, pos))
                scal.append((hv.e, lastv))
                closed[place] = lambda k, lastv=lastv, hv=hv: retype(self, hv, lastv(k))
                del pending[place]
                progress = True
        if pending and not progress:
            # recursive scalar function of the iteration number
            for place, hv in list(pending.items()):
                if not isinstance(hv, (SInt, SBool, STs, SReal)):
                    continue
                vals = [(P, cval(P, place)) for P in cont]
                others = set()
                for p2, h2 in pending.items():
                    if p2 != place:
                        others |= havoc_names(h2)
                es = [(P, hvexpr_t(self, v, hv)) for P, v in vals]
                if any(e is None for _, e in es) or any(has_vars(e, others) for _, e in es):
                    continue
                if any(has_vars(c, others) for P in cont for c in P.delta):
                    continue
                v0 = heap0[place[0]].f[place[1]]
                e0 = hvexpr_t(self, v0, hv)
                if e0 is None:
                    continue
                lv_ = list(self.loopvars)
                V = z3.Function('V!%d_%s' % (tag, place[1]), *([z3.IntSort()] * (len(lv_) + 1) + [hv.e.sort()]))
                Vf = lambda k, V=V, lv_=lv_: V(*(lv_ + [self.z(k)]))
                if not lv_:
                    self.recfuns.append(Vf)
                g = None
                for P, e in reversed(es):
                    g = e if g is None else z3.If(z3.And(*P.delta), e, g)
                scal.append((hv.e, Vf))
                closed[place] = lambda k, Vf=Vf, hv=hv: retype(self, hv, Vf(k))

                def facts(N, Vf=Vf, g=g, e0=e0, hv=hv):
                    def rec(m):
                        e = z3.substitute(g, *([(n, m)] + pairs(m))) if True else None
                        return Vf(m + 1) == e
                    return [Vf(0) == e0, self.forall(0, N, rec, pats=lambda m: [Vf(m + 1)])] + [z3.Implies(self.z(N) > 0, rec(self.z(N) - 1))]
                extra_facts.append(facts)
                del pending[place]
                progress = True
                self.notes.add('recursive loop function %s in %s' % (place[1], what))
                break
    if pending:
        return '%s; pending: %s' % (why, ', '.join(str(p[1]) for p in pending))

    def sub(e, k):
        """path condition of iteration k"""
        e = z3.substitute(e, *pairs(n)) if scal else e
        # closed forms may themselves mention havoc constants resolved later
        for _ in range(3):
            if scal and any(has_vars(e, {str(hc)}) for hc, _f in scal):
                e = z3.substitute(e, *pairs(n))
        e = z3.substitute(e, (n, self.z(k)))
        for rw in rewrites:
            e = rw(e, self.z(k))
        return e
    lists = set()
    for place, hv in havoc.items():
        if isinstance(hv, SSeq):
            lists.add(hv.theory[1])
    if lists and any(has_vars(sub(c, n), lists) for P in paths for c in P.delta):
        return 'condition on a list under construction'

    def Cont(k):
        return z3.Or(*[z3.And(*[sub(c, k) for c in P.delta]) for P in cont]) if cont else z3.BoolVal(False)

    # ---- leave the loop
    N = self.fresh('N%d' % tag)
    common = [N >= 0]
    if self.bound is not None:
        common.append(N <= self.bound + 2)
    for fct in extra_facts:
        common += fct(N)
    if cont:
        common.append(self.visited(Cont, N))
        common.append(z3.Implies(N > 0, Cont(N - 1)))
        common.append(z3.Implies(N > 0, Cont(z3.IntVal(0))))
    else:
        common.append(N == 0)
    if not finite:
        self.terminations.append(what)
    if not exits:
        raise Unsupported('loop %s never ends' % what)
    alts = [common + [sub(c, N) for c in P.delta] for P in exits]
    np0 = len(self.pc)
    k = self.decide(alts)
    P = exits[k]
    # a loop that runs through a sequence: its iteration number is the length of the sequence
    for (i, fld), hv in havoc.items():
        rec = heap0[i]
        if rec.kind == 'iter' and rec.cls == 'seq' and fld == 'pos' and (i, fld) in closed:
            L = z3.simplify(self.z(self.seq_n(rec.f['src'])) - self.as_int(rec.f['pos']))
            if self.valid(N == L):
                # N is a name for L
                self.pc[np0:] = [c for c in (c if z3.is_quantifier(c) else z3.simplify(c) for c in (z3.substitute(c, (N, L)) for c in self.pc[np0:])) if not z3.is_true(c)]
                self.pc.append(L >= 0)
                N = L
                break
    for cond, cnt, pos in links:
        self.link_ranks(cond, cnt, pos, self.z(N))
    prs = pairs(N) + [(n, N)]
    seqmap = {id(hv): (lambda v, mk=mk: self.rebase(v, mk(N), prs)) for hv, mk in seqmap_fn}

    def full(v):
        v = vsub(v, pairs(n), seqmap) if scal or seqmap else v
        return vsub(v, prs, seqmap)
    heap = dict(P.heap)
    for i, rec in list(heap.items()):
        if rec is heap0.get(i):
            continue
        f = {}
        for fld, v in rec.f.items():
            place = (i, fld)
            if place in havoc and (v is havoc[place] or same_value(v, havoc[place])):
                if havoc[place] is MISSING:
                    continue
                v = closed[place](N)
            elif place in havoc and havoc[place] is MISSING and v is MISSING:
                continue
            else:
                v = full(v)
            f[fld] = v
        # variables first bound inside the loop keep the value of the last iteration
        for place, hv in havoc.items():
            if place[0] == i and hv is MISSING and place[1] not in f:
                f[place[1]] = closed[place](N) if place in closed else Poison('set in loop')
        heap[i] = rec.with_f(f)
    self.heap.clear()
    self.heap.update(heap)
    self.nextid = max(self.nextid, max(heap) + 1)
    kind, val = P.out
    if kind == 'end':
        return 'done'
    if kind == 'break':
        raise BreakEx()
    if kind == 'return':
        raise ReturnEx(full(val))
    raise val


Engine.terminations = []


@method
def visited(self, Cont, N):
    if self.bound is not None:
        return self.forall(0, N, Cont)
    self.ctr += 1
    m = z3.Int('m!%d' % self.ctr)
    body = Cont(m)
    return z3.ForAll([m], z3.Implies(z3.And(m >= 0, m < N), body))


@method
def loop_inv(self, d, n):
    return True


@method
def value_depends(self, v, n):
    return vmentions(v, {str(n)})


def same_value(a, b):
    if a is b:
        return True
    if type(a) is not type(b):
        return False
    if isinstance(a, (int, str, float, bool)):
        return a == b
    if isinstance(a, (SInt, SBool, SReal, STs, STd, SObj)):
        return a.e.eq(b.e)
    if isinstance(a, Ref):
        return a == b
    if isinstance(a, tuple) and len(a) == len(b):
        return all(same_value(x, y) for x, y in zip(a, b))
    if isinstance(a, NT):
        return a.cls is b.cls and all(same_value(x, y) for x, y in zip(a.vals, b.vals))
    return False


def havoc_names(hv):
    if isinstance(hv, (SInt, SBool, SReal, STs, STd, SObj)):
        return {hv.e.decl().name()}
    if isinstance(hv, SSeq):
        return set(hv.theory)
    return set()


@method
def havoc_value(self, v0, place, tag, consts):
    self.ctr += 1
    nm = 'h!%d_%s' % (self.ctr, str(place[1])[:20])
    if isinstance(v0, bool) or isinstance(v0, SBool):
        return SBool(z3.Bool(nm), self.is_np(v0))
    if isinstance(v0, (int, SInt)):
        return SInt(z3.Int(nm), self.is_np(v0))
    if isinstance(v0, STs):
        return STs(z3.Int(nm))
    if isinstance(v0, (SReal, float)):
        return SReal(z3.Real(nm))
    if v0 is MISSING:
        return MISSING
    rec = None
    if place[1] == 'v' and isinstance(v0, (tuple, SSeq)):
        kind = getattr(v0, 'kind', 'list')
        ln = z3.Int(nm + '_n')
        at = z3.Function(nm + '_at', z3.IntSort(), Obj)
        r = self.heap[place[0]] if place[0] in self.heap else None
        hk = '$harray' if (r is not None and r.kind in ('array', 'series', 'map')) else '$hlist'
        n = ln
        if hk == '$harray':
            n = self.seq_n(v0)
        return SSeq(n, lambda j: SObj(at(self.z(j))), hk, theory=(nm + '_n', nm + '_at'))
    return Poison('modified in loop')


def hvexpr(E, v):
    if isinstance(v, (bool, SBool)):
        return E.zbool(v)
    e = E.as_int(v)
    if e is not None:
        return e
    if isinstance(v, float):
        return z3.RealVal(repr(v))
    return v.e


def hvexpr_t(E, v, hv):
    if isinstance(v, Union):
        r = None
        for c, x in reversed(v.alts):
            e = hvexpr_t(E, x, hv)
            if e is None:
                return None
            r = e if r is None else z3.If(c, e, r)
        return r
    if isinstance(hv, SBool):
        return E.zbool(v) if isinstance(v, (bool, SBool)) else None
    if isinstance(hv, SInt):
        if isinstance(v, (bool, SBool)) or (isinstance(v, (int, SInt)) and E.is_np(v) != hv.np):
            return None
        return E.as_int(v)
    if isinstance(hv, STs):
        return v.e if isinstance(v, STs) else None
    if isinstance(hv, SReal):
        if isinstance(v, SObj):
            return None
        return E.as_real(v)
    return None


def retype(E, hv, e):
    if isinstance(hv, SInt):
        return E.mk_int(e, hv.np)
    if isinstance(hv, SBool):
        return SBool(e, hv.np)
    return type(hv)(e)


@method
def freeze(self, v, P, heap0):
    """value of a path, independent of objects created inside the iteration"""
    if isinstance(v, Ref):
        if v.id in heap0:
            return v
        rec = P.heap.get(v.id)
        if rec is None:
            return v
        if rec.kind == 'inst':
            return FInst(rec.cls, {k: self.freeze(x, P, heap0) for k, x in rec.f.items()})
        if rec.kind in ('list', 'array'):
            s = rec.f['v']
            if isinstance(s, tuple):
                return tuple(self.freeze(x, P, heap0) for x in s)
            return s
        return Poison('object created in loop')
    if isinstance(v, tuple):
        return tuple(self.freeze(x, P, heap0) for x in v)
    if isinstance(v, NT):
        return NT(v.cls, [self.freeze(x, P, heap0) for x in v.vals])
    if isinstance(v, Union):
        return Union([(c, self.freeze(x, P, heap0)) for c, x in v.alts])
    return v


@method
def merge_paths(self, pv, n):
    v = MISSING
    for P, x in reversed(pv):
        if v is MISSING:
            v = x
        else:
            v = self.ite(z3.And(*[c for c in P.delta]), x, v)
    return v


@method
def rebase(self, v, closed):
    raise NotImplementedError


def _rebase(self, v, closed, prs):
    """v: list value of an exit path built on the havoc list; None: the list itself"""
    if v is None:
        return closed
    if v.app is not None:
        s = closed
        for x in v.app:
            s = self.seq_append(s, vsub(x, prs))
        return s
    s = closed
    for lo, hi, g in v.writes:
        s = self.seq_store(s, z3.substitute(self.z(lo), *prs), z3.substitute(self.z(hi), *prs), lambda j, g=g: vsub(g(j), prs))
    return s


Engine.rebase = _rebase


@method
def append_many(self, base, elems, k, n, N, pairs):
    """base ++ [elems(0)..., elems(1)..., ..., elems(N-1)...]"""
    n0 = self.seq_n(base)
    Nz = self.z(N)

    def elem(q, m):
        v = elems[q]
        v = vsub(v, pairs(n))
        jj = m
        return vsub(v, [(n, jj)])

    def at(j):
        j = self.z(j)
        d = z3.simplify(j - self.z(n0))
        if k == 1:
            new = elem(0, d)
        else:
            new = None
            for q in range(k - 1, -1, -1):
                e = elem(q, z3.simplify(d / k))
                new = e if new is None else self.ite(d % k == q, e, new)
        if isinstance(n0, int) and n0 == 0:
            return new
        return self.ite(j < self.z(n0), self.seq_at(base, j), new)
    ln = z3.simplify(self.z(n0) + k * Nz)
    kind = base.kind if isinstance(base, SSeq) else 'list'
    return SSeq(ln, at, kind)


@method
def filter_append(self, base, pa, n, pairs, tag, place):
    """base ++ [element of every iteration that appends one]"""
    lv = list(self.loopvars)
    name = 'filt!%d' % tag
    cntf = z3.Function(name + '_cnt', *([z3.IntSort()] * (len(lv) + 1) + [z3.IntSort()]))
    posf = z3.Function(name + '_pos', *([z3.IntSort()] * (len(lv) + 1) + [z3.IntSort()]))
    cnt = lambda k: cntf(*(lv + [self.z(k)]))
    pos = lambda k: posf(*(lv + [self.z(k)]))
    n0 = self.seq_n(base)

    def cond(m):
        return z3.Or(*[z3.substitute(z3.substitute(z3.And(*P.delta), *pairs(n)) if pairs(n) else z3.And(*P.delta), (n, m)) for P, a in pa if a])

    def elem(m):
        v = self.merge_paths([(P, a[0]) for P, a in pa if a], n)
        return vsub(vsub(v, pairs(n)), [(n, m)])
    done = {}

    def mk(N):
        Nz = self.z(N)
        key = str(Nz)
        if key not in done:
            done[key] = True
            self.pc += self.rank_facts(cond, cnt, pos, Nz)
        ln = z3.simplify(self.z(n0) + cnt(Nz))

        def at(j):
            j = self.z(j)
            new = elem(pos(z3.simplify(j - self.z(n0))))
            if isinstance(n0, int) and n0 == 0:
                return new
            return self.ite(j < self.z(n0), self.seq_at(base, j), new)
        return SSeq(ln, at, base.kind if isinstance(base, SSeq) else 'list')
    return mk


@method
def rank_facts(self, cond, cnt, pos, n):
    """cnt(k): number of i < k with cond(i); pos(j): the j-th such i, on [0, n)"""
    return [
        cnt(0) == 0,
        self.forall(0, n, lambda k: cnt(k + 1) == cnt(k) + z3.If(cond(k), 1, 0), pats=lambda k: [cnt(k + 1), pos(cnt(k))]),
        self.forall(0, n, lambda k: z3.And(cnt(k) >= 0, cnt(k) <= cnt(n), cnt(k) <= k, z3.Implies(cond(k), z3.And(pos(cnt(k)) == k, cnt(k) < cnt(n)))), pats=lambda k: [cnt(k)]),
        z3.And(cnt(n) >= 0, cnt(n) <= n),
        self.forall(0, cnt(n), lambda j: z3.And(pos(j) >= 0, pos(j) < n, cnt(pos(j)) == j, cond(pos(j))), pats=lambda j: [pos(j)]),
        # monotonicity and order
        self.forall2(0, n + 1, lambda a, b: z3.Implies(a <= b, cnt(a) <= cnt(b)), pats=lambda a, b: [(cnt(a), cnt(b))]),
        self.forall2(0, n + 1, lambda j, k: z3.Implies(j < cnt(n), (j < cnt(k)) == (pos(j) < k)), pats=lambda j, k: [(pos(j), cnt(k))]),
        self.forall2(0, n, lambda i, j: z3.Implies(z3.And(i < j, j < cnt(n)), pos(i) < pos(j)), pats=lambda i, j: [(pos(i), pos(j))]),
    ]


@method
def link_ranks(self, cond, cnt, pos, n):
    """equal conditions have equal ranks (induction on the position)"""
    probe = z3.Int('k!nz')
    for n2, t, cnt2, pos2, lv in self.nz_theories:
        if lv == 0 and z3.simplify(n2).eq(z3.simplify(n)) and self.check([probe >= 0, probe < n, t != cond(probe)], timeout=1500) == 'unsat':
            self.pc.append(self.forall(0, n + 1, lambda k: cnt(k) == cnt2(k), pats=lambda k: [cnt(k)]))
            self.pc.append(self.forall(0, n + 1, lambda k: cnt(k) == cnt2(k), pats=lambda k: [cnt2(k)]))
            self.pc.append(cnt(n) == cnt2(n))
            self.pc.append(self.forall(0, cnt(n), lambda j: pos(j) == pos2(j), pats=lambda j: [pos(j)]))
            return


@method
def write_log(self, base, logs, n, pairs, tag, place):
    """array after N iterations: the last iteration that wrote j decides"""
    lv = list(self.loopvars)

    def S(e, m):
        e = self.z(e)
        if pairs(n):
            e = z3.substitute(e, *pairs(n))
        return z3.substitute(e, (n, m))

    def covers(m, j):
        alts = []
        for P, ws in logs:
            pcs = [S(c, m) for c in P.delta]
            for lo, hi, g in ws:
                alts.append(z3.And(*(pcs + [S(lo, m) <= j, j < S(hi, m)])))
        return z3.Or(*alts) if alts else z3.BoolVal(False)

    def value(m, j):
        v = MISSING
        for P, ws in logs:
            pcs = [S(c, m) for c in P.delta]
            for lo, hi, g in ws:
                x = vsub(vsub(g(j), pairs(n)), [(n, m)])
                v = x if v is MISSING else self.ite(z3.And(*(pcs + [S(lo, m) <= j, j < S(hi, m)])), x, v)
        return v
    cache = {}

    def mk(N):
        Nz = self.z(N)
        key = str(Nz)
        if key not in cache:
            self.ctr += 1
            lwf = z3.Function('lw!%d' % self.ctr, *([z3.IntSort()] * (len(lv) + 1) + [z3.IntSort()]))
            lw = lambda j: lwf(*(lv + [self.z(j)]))
            size = self.z(self.seq_n(base))
            self.pc.append(self.forall(0, size, lambda j: z3.And(lw(j) >= -1, lw(j) < Nz, z3.Implies(lw(j) >= 0, covers(lw(j), j))), pats=lambda j: [lw(j)]))
            if self.bound is not None:
                self.pc.append(self.forall2(0, z3.If(size > Nz, size, Nz), lambda j, m: z3.Implies(z3.And(j < size, m < Nz, m > lw(j)), z3.Not(covers(m, j)))))
            else:
                self.ctr += 1
                j, m = z3.Int('j!%d' % self.ctr), z3.Int('m!%d' % self.ctr)
                self.pc.append(z3.ForAll([j, m], z3.Implies(z3.And(0 <= j, j < size, m < Nz, m > lw(j), m >= 0), z3.Not(covers(m, j)))))
            cache[key] = lw
        lw = cache[key]

        def at(j):
            j = self.z(j)
            return self.ite(lw(j) < 0, self.seq_at(base, j), value(lw(j), j))
        s = SSeq(self.seq_n(base), at, base.kind if isinstance(base, SSeq) else 'array')
        s.log = (lw, covers, value, base)
        return s
    return mk


def rewrite_apps(e, name, fn, memo=None):
    """replace present(name(arg)) by fn(arg); other uses of `name` are left in place"""
    memo = {} if memo is None else memo
    k = e.get_id()
    if k in memo:
        return memo[k][1]
    r = e
    if z3.is_quantifier(e):
        r = e
    elif z3.is_app(e) and e.num_args():
        if e.decl().name() == 'present' and z3.is_app(e.arg(0)) and e.arg(0).decl().name() == name:
            r = fn(rewrite_apps(e.arg(0).arg(0), name, fn, memo))
        else:
            ch = [rewrite_apps(c, name, fn, memo) for c in e.children()]
            if any(not a.eq(b) for a, b in zip(ch, e.children())):
                k_ = e.decl().kind()
                if k_ == z3.Z3_OP_AND:
                    r = z3.And(*ch)
                elif k_ == z3.Z3_OP_OR:
                    r = z3.Or(*ch)
                else:
                    r = e.decl()(*ch)
    memo[k] = (e, r)
    return r


@method
def map_log(self, base, logs, n, pairs, tag, place, atn):
    """map written by key in a loop whose conditions ask which keys are present:
    LW(k, j) is the last iteration before k that wrote key j, -1 if none"""
    lv = list(self.loopvars)
    self.ctr += 1
    f = z3.Function('LW!%d' % self.ctr, *([z3.IntSort()] * (len(lv) + 2) + [z3.IntSort()]))
    LW = lambda k, j: f(*(lv + [self.z(k), self.z(j)]))

    def rw(e, k):
        return rewrite_apps(e, atn, lambda a: z3.simplify(z3.Or(LW(k, a) >= 0, self.present(self.seq_at(base, a)))))

    def S(e, m):
        e = self.z(e)
        if pairs(n):
            e = z3.substitute(e, *pairs(n))
        return rw(z3.substitute(e, (n, m)), m)

    def writes(m):
        return [(z3.And(*[S(c, m) for c in P.delta]), S(lo, m), g) for P, ws in logs for lo, hi, g in ws]

    def covers(m, j):
        alts = [z3.And(c, lo == j) for c, lo, g in writes(m)]
        return z3.Or(*alts) if alts else z3.BoolVal(False)

    def value(m, j):
        v = MISSING
        for c, lo, g in writes(m):
            x = vsub(vsub(g(j), pairs(n)), [(n, m)])
            v = x if v is MISSING else self.ite(z3.And(c, lo == j), x, v)
        return v

    def facts(N):
        Nz, size = self.z(N), self.z(self.seq_n(base))
        big = z3.If(size > Nz, size, Nz) + 1
        out = [self.forall2(0, big, lambda k, j: z3.Implies(z3.And(k <= Nz, j < size), z3.And(LW(k, j) >= -1, LW(k, j) < k, z3.Implies(LW(k, j) >= 0, covers(LW(k, j), j)))),
                            pats=lambda k, j: [LW(k, j)])]
        for q in range(len(writes(z3.IntVal(0)))):
            def body(m, k, q=q):
                c, lo, g = writes(m)[q]
                return z3.Implies(z3.And(m < k, k <= Nz, c, lo >= 0, lo < size), LW(k, lo) >= m)
            if self.bound is not None:
                out.append(self.forall2(0, Nz + 1, body))
                continue
            self.ctr += 1
            m, k, j = z3.Int('m!%d' % self.ctr), z3.Int('k!%d' % self.ctr), z3.Int('j!%d' % self.ctr)
            apps = direct_apps(writes(m)[q][1], m)
            kw = {'patterns': [z3.MultiPattern(LW(k, j), a) for a in apps]} if apps else {}
            out.append(z3.ForAll([m, k, j], z3.Implies(z3.And(m >= 0, body(m, k)), z3.BoolVal(True)) if False else z3.Implies(m >= 0, body(m, k)), **kw))
        return out

    def mk(N):
        return SSeq(self.seq_n(base), lambda j: self.ite(LW(N, self.z(j)) < 0, self.seq_at(base, self.z(j)), value(LW(N, self.z(j)), self.z(j))),
                    base.kind if isinstance(base, SSeq) else 'array')
    return mk, rw, facts


def direct_apps(e, m):
    out, st, seen = [], [e], set()
    while st:
        x = st.pop()
        if x.get_id() in seen:
            continue
        seen.add(x.get_id())
        if z3.is_app(x) and x.decl().kind() == z3.Z3_OP_UNINTERPRETED and any(a.eq(m) for a in x.children()):
            out.append(x)
        st.extend(x.children())
    return out


@method
def seq_store(self, s, lo, hi, g):
    """sequence s with [lo, hi) replaced by g(j) (absolute index j)"""
    base = s.base if isinstance(s, SSeq) and s.base is not None and s.writes is not None else s
    ws = (list(s.writes) if base is not s else []) + [(lo, hi, g)]

    def at(j, s=s, lo=lo, hi=hi, g=g):
        j = self.z(j)
        return self.ite(z3.And(self.z(lo) <= j, j < self.z(hi)), g(j), self.seq_at(s, j))
    return SSeq(self.seq_n(s), at, s.kind if isinstance(s, SSeq) else 'list', base=base, writes=ws)
