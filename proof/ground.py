"""Ground instantiation in front of the solver.

Quantified facts (class invariants, library models, iteration facts) are
replaced by instances at the index terms that occur in the query, for a bounded
number of generations.  Every instance follows from the fact it comes from, so
'unsat' of the instances implies 'unsat' of the quantified query: a discharged
obligation needs no trust in the choice of instances.
"""
import itertools

import z3


def is_const_var(e, names):
    return z3.is_const(e) and e.decl().kind() == z3.Z3_OP_UNINTERPRETED and e.get_id() in names


class Axiom(object):
    __slots__ = ('id', 'vars', 'ids', 'body', 'pats', 'flat')

    def __init__(self, id, vars, body, pats):
        self.id = id
        self.vars = vars
        self.ids = {v.get_id(): i for i, v in enumerate(vars)}
        self.body = body
        self.pats = pats


class Pat(object):
    """f(args) with each argument: variable + offset, or a term over variables matched last"""
    __slots__ = ('fid', 'args', 'term')


ARITH = (z3.Z3_OP_ADD, z3.Z3_OP_SUB)


def linear_var(e, ids):
    """(index of variable, offset) when e is var + numeral"""
    if is_const_var(e, ids):
        return ids[e.get_id()], 0
    if z3.is_app(e) and e.decl().kind() == z3.Z3_OP_ADD and e.num_args() == 2:
        a, b = e.arg(0), e.arg(1)
        if z3.is_int_value(a) and is_const_var(b, ids):
            return ids[b.get_id()], a.as_long()
        if z3.is_int_value(b) and is_const_var(a, ids):
            return ids[a.get_id()], b.as_long()
    if z3.is_app(e) and e.decl().kind() == z3.Z3_OP_SUB and e.num_args() == 2:
        a, b = e.arg(0), e.arg(1)
        if z3.is_int_value(b) and is_const_var(a, ids):
            return ids[a.get_id()], -b.as_long()
    return None


class Converter(object):
    """formulas -> quantifier-free formulas + axioms (shared by all queries of an engine)"""

    def __init__(self):
        self.cache = {}       # ast id -> (formula, qf, axioms)
        self.n = 0
        self.inst_cache = {}
        self.keep = []
        self.terms_cache = {}

    def convert(self, f):
        k = f.get_id()
        if k in self.cache:
            return self.cache[k][1:]
        axs = []
        qf = self.conv(f, 1, [], axs, top=True)
        self.cache[k] = (f, qf, axs)
        return qf, axs

    def fresh(self, s):
        self.n += 1
        return '%s?%d' % (s, self.n)

    def conv(self, f, pol, env, axs, top=False):
        """pol: 1 positive, -1 negative, 0 both; env: outer variables in scope"""
        if z3.is_quantifier(f):
            return self.quant(f, pol, env, axs, top)
        if not z3.is_bool(f) or not z3.is_app(f) or f.num_args() == 0:
            return f
        if not self.has_quant(f):
            return f
        k = f.decl().kind()
        ch = f.children()
        if k == z3.Z3_OP_NOT:
            return z3.Not(self.conv(ch[0], -pol, env, axs))
        if k == z3.Z3_OP_AND:
            return z3.And(*[self.conv(c, pol, env, axs, top) for c in ch])
        if k == z3.Z3_OP_OR:
            return z3.Or(*[self.conv(c, pol, env, axs) for c in ch])
        if k == z3.Z3_OP_IMPLIES:
            return z3.Implies(self.conv(ch[0], -pol, env, axs), self.conv(ch[1], pol, env, axs))
        if k == z3.Z3_OP_ITE:
            return z3.If(self.conv(ch[0], 0, env, axs), self.conv(ch[1], pol, env, axs), self.conv(ch[2], pol, env, axs))
        if k == z3.Z3_OP_EQ:
            return self.conv(ch[0], 0, env, axs) == self.conv(ch[1], 0, env, axs)
        if k == z3.Z3_OP_XOR or k == z3.Z3_OP_DISTINCT:
            return self.conv(ch[0], 0, env, axs) != self.conv(ch[1], 0, env, axs)
        raise ValueError('quantifier under %s' % f.decl())

    def has_quant(self, f):
        k = ('q', f.get_id())
        r = self.terms_cache.get(k)
        if r is None:
            r = z3.is_quantifier(f) or any(self.has_quant(c) for c in f.children())
            self.terms_cache[k] = r
            self.keep.append(f)
        return r

    def quant(self, q, pol, env, axs, top):
        n = q.num_vars()
        univ = q.is_forall()
        vs = [z3.Const(self.fresh('v'), q.var_sort(i)) for i in range(n)]
        rev = list(reversed(vs))
        body = z3.substitute_vars(q.body(), *rev)
        pats = []
        for i in range(q.num_patterns()):
            p = z3.substitute_vars(q.pattern(i), *rev)
            pats.append(list(p.children()))
        used = [v for v in env if self.mentions(body, v)]
        inner = env + vs
        if univ and top and not env:
            b = self.conv(body, 1, inner, axs)
            axs.append(self.axiom(vs, b, pats, []))
            return z3.BoolVal(True)
        if not univ and top and not env:
            # skolem constants
            sk = [z3.Const(self.fresh('sk'), v.sort()) for v in vs]
            return self.conv(z3.substitute(body, *zip(vs, sk)), 1, [], axs, top)
        # proxy
        B = z3.Function(self.fresh('Q'), *([v.sort() for v in used] + [z3.BoolSort()]))
        app = B(*used)
        need_all = (pol >= 0) if univ else (pol <= 0)      # B must imply the universal reading
        need_wit = (pol <= 0) if univ else (pol >= 0)
        pos_body, lit = (body, app) if univ else (z3.Not(body), z3.Not(app))
        if need_all:
            b = self.conv(pos_body, 1, inner, axs)
            axs.append(self.axiom(used + vs, z3.Implies(lit, b), pats, [app] if used else []))
        if need_wit:
            sk = [z3.Function(self.fresh('sk'), *([v.sort() for v in used] + [x.sort()]))(*used) for x in vs]
            wb = z3.substitute(z3.Not(pos_body), *zip(vs, sk))
            axs2 = []
            b = self.conv(wb, 1, env, axs2)
            axs.extend(axs2)
            fact = z3.Implies(z3.Not(lit), b)
            if used:
                axs.append(self.axiom(used, fact, [[app]], []))
            else:
                axs.append(self.axiom([], fact, [[]], []))
        return app

    def mentions(self, e, v):
        seen = set()
        st = [e]
        vid = v.get_id()
        while st:
            x = st.pop()
            i = x.get_id()
            if i == vid:
                return True
            if i in seen:
                continue
            seen.add(i)
            st.extend(x.children())
        return False

    def axiom(self, vs, body, pats, extra):
        self.n += 1
        ids = {v.get_id(): i for i, v in enumerate(vs)}
        body = z3.simplify(body)
        if not vs:
            return Axiom(self.n, vs, body, [[]])
        if pats:
            alts = [extra + p for p in pats]
        else:
            alts = self.infer(vs, ids, body, extra)
        out = []
        for mp in alts:
            ps = []
            for t in mp:
                p = self.pat(t, ids)
                if p is not None:
                    ps.append(p)
            covered = set()
            for p in ps:
                for a in p.args:
                    if a[0] == 'v':
                        covered.add(a[1])
            if len(covered) == len(vs):
                out.append(ps)
        if not out and pats:
            for mp in self.infer(vs, ids, body, extra):
                ps = [self.pat(t, ids) for t in mp]
                out.append([p for p in ps if p is not None])
        a = Axiom(self.n, vs, body, out)
        self.keep.append(body)
        return a

    def pat(self, t, ids):
        p = Pat()
        if not z3.is_app(t) or t.decl().kind() != z3.Z3_OP_UNINTERPRETED or t.num_args() == 0:
            return None
        p.fid = t.decl().get_id()
        self.keep.append(t)
        p.args = []
        for a in t.children():
            lv = linear_var(z3.simplify(a), ids)
            if lv is not None:
                p.args.append(('v', lv[0], lv[1]))
            else:
                p.args.append(('t', a))
        p.term = t
        return p

    def infer(self, vs, ids, body, extra):
        """trigger candidates: applications that have the variables as direct arguments"""
        apps = []
        seen = set()
        st = [body]
        while st:
            x = st.pop()
            i = x.get_id()
            if i in seen:
                continue
            seen.add(i)
            if z3.is_app(x) and x.decl().kind() == z3.Z3_OP_UNINTERPRETED and x.num_args():
                cov = frozenset(l[0] for l in (linear_var(a, ids) for a in x.children()) if l is not None)
                if cov:
                    apps.append((x, cov))
            st.extend(x.children())
        need = set(range(len(vs)))
        base = set()
        for t in extra:
            for a in t.children():
                l = linear_var(a, ids)
                if l is not None:
                    base.add(l[0])
        need -= base
        if not need:
            return [list(extra)]
        full = [x for x, c in apps if need <= c]
        if full:
            return [extra + [x] for x in full]
        per = []
        for v in sorted(need):
            c = [x for x, cv in apps if v in cv]
            if not c:
                return []
            per.append(c)
        out = []
        for combo in itertools.product(*per):
            mp = []
            for x in combo:
                if not any(x.eq(y) for y in mp):
                    mp.append(x)
            out.append(extra + mp)
            if len(out) > 40:
                break
        return out


class Level(object):
    __slots__ = ('npc', 'pool', 'axioms', 'done', 'seen')

    def __init__(self):
        self.npc = 0
        self.pool = {}       # fid -> list of (args, gen)
        self.axioms = []
        self.done = set()
        self.seen = {}

    def child(self):
        l = Level()
        l.npc = self.npc
        l.pool = {k: list(v) for k, v in self.pool.items()}
        l.axioms = list(self.axioms)
        l.done = set(self.done)
        l.seen = dict(self.seen)
        return l


class Grounder(object):
    """incremental solver over the current path condition"""

    MAXINST = 6000

    def __init__(self):
        self.conv = Converter()
        self.s = z3.SimpleSolver()
        self.stack = [Level()]
        self.pcs = []
        self.instances = 0
        self.argcache = {}

    def sync(self, pc, gen):
        k = 0
        # drop levels that are no longer a prefix
        while k < len(self.pcs) and k < len(pc) and self.pcs[k].eq(pc[k]):
            k += 1
        while len(self.stack) > 1 and self.stack[-1].npc > k:
            self.stack.pop()
            self.s.pop()
        self.pcs = self.pcs[:self.stack[-1].npc]
        if len(pc) > len(self.pcs):
            self.push(pc[len(self.pcs):], gen)
            self.pcs = list(pc)
            self.stack[-1].npc = len(pc)

    def push(self, formulas, gen):
        l = self.stack[-1].child()
        self.stack.append(l)
        self.s.push()
        self.add(l, formulas, gen)

    def pop(self):
        self.stack.pop()
        self.s.pop()

    def add(self, l, formulas, gen):
        newax, newterms = [], []
        for f in formulas:
            qf, axs = self.conv.convert(f)
            if not z3.is_true(qf):
                self.s.add(qf)
                self.scan(l, qf, 0, newterms)
            newax.extend(axs)
        self.saturate(l, newax, newterms, gen)

    def deepen(self, gen):
        """more generations at the current level"""
        l = self.stack[-1]
        self.saturate(l, [], None, gen)

    def scan(self, l, e, g, new):
        seen = l.seen
        st = [e]
        while st:
            x = st.pop()
            i = x.get_id()
            og = seen.get(i)
            if og is not None and og <= g:
                continue
            first = og is None
            seen[i] = g
            if first:
                self.conv.keep.append(x)
            if z3.is_app(x):
                n = x.num_args()
                if n:
                    ch = x.children()
                    d = x.decl()
                    if d.kind() == z3.Z3_OP_UNINTERPRETED:
                        if first:
                            fid = d.get_id()
                            args = tuple(ch)
                            l.pool.setdefault(fid, []).append((args, g))
                            new.append((fid, args, g))
                    st.extend(ch)

    def saturate(self, l, newax, newterms, gen):
        first = newterms is None
        l.axioms.extend(newax)
        rounds = 0
        pending_ax = list(newax)
        full = set(a.id for a in (l.axioms if first else pending_ax))
        terms = newterms or []
        count = 0
        while True:
            rounds += 1
            insts = []
            fresh_ids = {}
            for fid, args, g in terms:
                fresh_ids.setdefault(fid, []).append((args, g))
            for ax in l.axioms:
                if ax.id in full:
                    for mp in ax.pats:
                        self.match(l, ax, mp, 0, [None] * len(ax.vars), 0, gen, insts, None, False)
                else:
                    for mp in ax.pats:
                        if any(p.fid in fresh_ids for p in mp):
                            self.match(l, ax, mp, 0, [None] * len(ax.vars), 0, gen, insts, fresh_ids, False)
            full = set()
            terms = []
            if not insts or rounds > 12:
                break
            for ax, b, g in insts:
                key = (ax.id,) + tuple(x.get_id() for x in b)
                if key in l.done:
                    continue
                l.done.add(key)
                count += 1
                if count > self.MAXINST:
                    return
                inst = self.conv.inst_cache.get(key)
                if inst is None:
                    f = z3.simplify(z3.substitute(ax.body, *zip(ax.vars, b))) if b else ax.body
                    self.conv.inst_cache[key] = inst = (f, b)
                f = inst[0]
                if z3.is_true(f):
                    continue
                self.instances += 1
                self.s.add(f)
                self.scan(l, f, g + 1, terms)

    def match(self, l, ax, mp, i, b, g, gen, out, fresh, usedfresh):
        if i == len(mp):
            if fresh is not None and not usedfresh:
                return
            if any(x is None for x in b):
                return
            out.append((ax, tuple(b), g))
            return
        p = mp[i]
        last = i == len(mp) - 1
        cands = l.pool.get(p.fid, ())
        if fresh is not None and last and not usedfresh:
            cands = fresh.get(p.fid, ())
        for args, tg in cands:
            ng = max(g, tg)
            if ng > gen:
                continue
            nb = None
            ok = True
            for pa, a in zip(p.args, args):
                if pa[0] == 'v':
                    t = a if pa[2] == 0 else self.shift(a, pa[2])
                    cur = (nb or b)[pa[1]]
                    if cur is None:
                        if nb is None:
                            nb = list(b)
                        nb[pa[1]] = t
                    elif not cur.eq(t):
                        ok = False
                        break
            if not ok:
                continue
            nb = nb or list(b)
            for pa, a in zip(p.args, args):
                if pa[0] == 't':
                    t = pa[1]
                    pairs = [(v, x) for v, x in zip(ax.vars, nb) if x is not None]
                    t = z3.simplify(z3.substitute(t, *pairs)) if pairs else t
                    if not t.eq(z3.simplify(a)):
                        ok = False
                        break
            if not ok:
                continue
            uf = usedfresh
            if fresh is not None and not uf:
                uf = last or any(args is fa or all(x.eq(y) for x, y in zip(args, fa)) for fa, _ in fresh.get(p.fid, ()))
            self.match(l, ax, mp, i + 1, nb, ng, gen, out, fresh, uf)

    def shift(self, a, off):
        k = (a.get_id(), off)
        r = self.argcache.get(k)
        if r is None:
            r = z3.simplify(a - off)
            self.argcache[k] = r
            self.conv.keep.append(a)
        return r

    def check(self, pc, extra, timeout, gen, base=1):
        self.sync(pc, base)
        self.push(list(extra), gen)
        try:
            if gen > base:
                self.deepen(gen)
            self.s.set('timeout', timeout)
            return str(self.s.check())
        finally:
            self.pop()

    def model_of(self):
        return self.s.model()
