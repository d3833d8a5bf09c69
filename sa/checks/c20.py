from ..util import *
from ..terms import under
from ..poly import equalities

TECHNIQUE = 'relational loop dataflow: index of the constraint, of its variable list and of the aggregated result compared on every loop back edge'
RULE = ('In every function that runs over the constraints of a program: each loop iteration makes its per-constraint call; the '
        'vector handed to constraint K is gathered in order from the variable list of K; what a constraint contributes to the '
        'residuals is added at the variables of its own list; each total combines the previous total with the result of this '
        'iteration by its own operation (sum, maximum or minimum), starting from a neutral value. Constraints, variable lists '
        'and multiplier lists are appended together, and the KKT solver is bound to them in that order.')

SUM = {'normsqrd', 'frobenius_norm_squared', 'trace', 'inner_product_of_w_and_c', 'inner_product_of_c_and_Qc'}
MAX = {'norminfd', 'lambda_max', 'lower_bound'}
MIN = {'lambda_min', 'upper_bound'}
CONSTRAINTS = {'eqs', 'assembler', 'constraints_'}
LISTS = {'cliques', 'cliques_'}
PER = {'conex::Constraint *', 'const conex::Constraint &', 'conex::Constraint &', 'const conex::Constraint *'}


def per_constraint(fn):
    return bool(fn.params) and fn.rec is None and fn.tu.t(fn.params[0]['t'])['s'] in PER


def chain(t):
    """Locations a read or address goes through, outermost first."""
    out = []
    while isinstance(t, T):
        if t.op in ('f', 'e', 'view'):
            out.append(t)
            t = t.a[0]
        elif t.op in ('i', 'pt', 'addr', 'ad', 'mat', 'buf', 'fv', 'get', 'lp') and t.a:
            t = next((x for x in t.a if isinstance(x, T)), None)
        else:
            break
    return out


def element_of(t, facts=None):
    """Index of the constraint a location belongs to: eqs[K], assembler[K], constraints[K]."""
    for x in subterms(t):
        if x.op == 'e' and len(x.a) == 2:
            c = x.a[0]
            if c.op == 'f' and c.a[1] in CONSTRAINTS or c.op == 'pt':
                if c.op == 'f' or c.a[0].op == 'p':
                    return x.a[1], c
    return None, None


def clique_read(t):
    """(K, j) when t reads entry j of variable list K."""
    t = strip_int(t)
    if t.op == 'i' and t.a[0].op == 'e':
        l = t.a[0]
        k = l.a[0]
        if k.op == 'e' and k.a[0].op == 'f' and k.a[0].a[1] in LISTS:
            return k.a[1], l.a[1]
    return None


def fields(l):
    out = []
    for x in subterms(l):
        if x.op == 'f':
            out.append(x.a[1])
    return out


def same_index(facts, a, b):
    """Equality of two index terms; two unequal plain indices are really different."""
    v = equal(facts, a, b)
    if v is None:
        d = sub(a, b)
        if isc(d):
            return cval(d) == 0
        if any(x.op == 'lp' for x in (strip_int(a), strip_int(b))):
            return False        # a counter that does not advance with the loop
    return v


class Cl(Client):
    by_value = True

    def __init__(self, f):
        self.f = f
        self.gathers = {}       # (loop, location) -> (facts, K, pos, j)
        self.calls, self.scat, self.done, self.left, self.backs = [], [], [], [], []
        self.loopof = {}

    def opaque(self, fn):
        return per_constraint(fn) and fn is not self.f or fn.short in ('SolveInPlace', 'UpdateBlocks')

    def on_write(self, I, st, loc, val, node, op):
        if I.mute:
            return
        if loc.op in ('e', 'view') and loc.a[0].op != 'f':
            idx = loc.a[1] if loc.op == 'e' else None
            if idx is None or len(loc.a) > 3:
                return
            # gather: V[pos] = Y[list K [j]]
            v = val
            g = None
            for x in (v,):
                if x.op == 'i' and x.a[0].op == 'e':
                    g = clique_read(x.a[0].a[1])
                elif x.op == 'get' and x.a[1] == 'e':
                    g = clique_read(x.a[2])
            if g and st.loops:
                self.gathers[(st.loops[-1][0], root(loc))] = (st.facts.copy(), g[0], strip_int(idx), g[1], I.where(node) if hasattr(I, 'where') else '')
            # scatter: S[list K [j]] += X_K[j]
            c = clique_read(idx)
            if c:
                self.scat.append((st.fork(), loc, val, c, I.fr.fn.loc))

    def on_call(self, I, st, node, name, obj, args):
        if I.mute:
            return
        fs = [g for g in I.P.named(name) if per_constraint(g)]
        if not fs or not args:
            return
        a = args[0]
        K, cont = element_of(a)
        if K is None:
            self.calls.append((st.fork(), name, None, None, args, self.content(I, st, args), I.fr.fn.loc))
            return
        self.calls.append((st.fork(), name, K, cont, args, self.content(I, st, args), I.fr.fn.loc))
        st.cs['called'] = st.cs.get('called', frozenset()) | {(name, K)}

    def content(self, I, st, args):
        """Loop values of gathered vectors in each argument."""
        out = []
        for a in args[1:]:
            v = st.readagg(a) if a.op in LOCOPS else a
            seen, todo = set(), [v]
            got = set()
            for _ in range(60):
                if not todo:
                    break
                t = todo.pop()
                for x in subterms(t):
                    if x in seen:
                        continue
                    seen.add(x)
                    if x.op == 'lp':
                        got.add((x.a[0], root(x.a[1])))
                    elif x.op in ('buf', 'mat', 'var', 'tmp') and x in st.store:
                        todo.append(st.store[x])
                    elif x.op == 'buf' and x.a and isinstance(x.a[0], T) and x.a[0] in st.store:
                        todo.append(st.store[x.a[0]])
            out.append(got)
        return out

    def on_loop_back(self, I, st):
        if I.mute:
            return
        lid = st.loops[-1][0]
        cs = st.cs.get('called', frozenset())
        here = {c for c in cs if mentions(c[1], lambda x: x.op == 'ix' and x.a[0] == lid)}
        self.backs.append((lid, frozenset(n for n, _ in here)))
        if here:
            st.cs['called'] = cs - here
            if not st.cs['called']:
                del st.cs['called']

    def on_loop_break(self, I, st, lid):
        self.left.append((lid, 'break', st.cs, None, None))
        st.cs['left'] = st.cs.get('left', frozenset()) | {lid}

    def on_return(self, I, st, v, s):
        own = st.loops[I.fr.loops:]
        if own and not I.mute:
            st.cs['left'] = st.cs.get('left', frozenset()) | {l for l, _ in own}

    def on_loop_done(self, I, lid, ix, trip, entry, modified, backs, exits):
        self.done.append((lid, ix, trip, entry.fork(), [b.fork() for b in backs], dict(modified), I.fr.fn.loc, exits))


def spans(facts, K, ix, trip, size, exits=()):
    """Does the index run over the whole container?"""
    if trip is None:
        last = sub(size, ONE)
        if isc(sub(K, ix)):
            if K is not ix:
                return False
            end = last
        elif isc(add(K, ix)) or equal(facts, add(K, ix), last) is not None:
            if equal(facts, subst(K, {ix: ZERO}), last) is False:
                return False
            end = last
        else:
            return None
        ok = True
        for e in exits:
            g = e.facts.copy()
            if g.entails_ge0(sub(ix, size)):
                continue
            if g.assume(eq0(sub(ix, last)), True) and g.consistent() and not g.eval(ge0(sub(ix, size))):
                small = all(x.op in SIMPLE for t in e.facts.ge for x in subterms(t) if x.op in ('lp', 'h'))
                return False if small else None
            ok = None
        return ok
    t = equal(facts, trip, size)
    if t is not True:
        return t
    lo, hi = subst(K, {ix: ZERO}), subst(K, {ix: sub(trip, ONE)})
    last = sub(size, ONE)
    for a, b in ((lo, hi), (hi, lo)):
        if equal(facts, a, ZERO) and equal(facts, b, last):
            return True
    d = sub(K, ix)
    return False if isc(d) else None


def neutral(op, name, v):
    if op == 'sum':
        return True if v is ZERO or (isc(v) and cval(v) == 0) else False if isc(v) else None
    lim = [x for x in subterms(v) if x.op == 'call' and any('numeric_limits' in str(y) for y in x.a)]
    if lim:
        s = v.op == 'poly'      # negated
        n = str(lim[0].a[0])
        if 'infinity' in n or n.endswith('::max'):
            return s if op == 'max' else not s
        if n.endswith('lowest'):
            return (not s) if op == 'max' else s
        return False
    if isc(v):
        if name == 'norminfd' and op == 'max':
            return cval(v) <= 0
        c = float(cval(v))
        return c <= -1e300 if op == 'max' else c >= 1e300
    return None


def contribution(v, old):
    """Leaf of v that comes from this iteration."""
    out = {x for x in atoms_of(v) if x is not old}
    return out


def atoms_of(v):
    """Leaves of a condition-free float value."""
    if v.op == 'poly':
        return {a for m in pdict(v) for a, _ in m} if False else set(atoms(v))
    return {v} if not isc(v) else set()


def of_iteration(x, ix, outs):
    """The value is produced in this iteration (result of a call on element ix, or a field of it)."""
    return mentions(x, lambda y: y is ix) or mentions(x, lambda y: y.op in ('out', 'call') and mentions(y, lambda z: z is ix))


def last_field(x):
    """Name of the record field a value was read from."""
    while isinstance(x, T):
        if x.op == 'fv':
            return x.a[1]
        if x.op == 'f':
            return x.a[1]
        if x.op in ('i', 'get', 'lp', 'h'):
            x = next((y for y in x.a if isinstance(y, T)), None)
            continue
        return None


def aggregate(R, key, where, name, op, old, new, ix, facts):
    """One total on one back edge."""
    for fc, v in cases(facts, new):
        if op == 'sum':
            d = sub(v, old)
            if isc(d):
                R.bad(key, where, 'an iteration leaves the total of %s unchanged' % name) if cval(d) == 0 else R.bad(key, where, 'adds a constant')
                continue
            at = list(atoms_of(d))
            if len(at) == 1 and of_iteration(at[0], ix, None):
                k = d.op != 'poly'
                n = last_field(at[0])
                R.verdict(k and (n == name or n is None), key, where, 'adds %s to the total of %s' % (show(d), name))
            elif old not in atoms_of(v) and all(of_iteration(a, ix, None) for a in at if a is not old):
                R.bad(key, where, 'the total of %s is overwritten with %s' % (name, show(v)))
            else:
                R.und(key, where, 'adds %s' % show(d))
            continue
        # maximum or minimum: the result is one of old and contribution, and bounds both
        cand = {x for x in leaves(new, fc) if x is not old and not isc(x)}
        con = [x for x in cand if of_iteration(x, ix, None)]
        if len(con) > 1:
            con = [x for x in con if last_field(x) == name] or con
        if not con:
            R.bad(key, where, 'the %s of %s ignores the result of the iteration' % (op, name))
            continue
        if len(con) > 1:
            R.und(key, where, 'several results')
            continue
        c = con[0]
        n = last_field(c)
        if n not in (None, name):
            R.bad(key, where, 'the %s of %s is taken over %s' % (op, name, n))
            continue
        if v is not old and v is not c:
            R.und(key, where, 'the value is %s' % show(v))
            continue
        other = c if v is old else old
        d = sub(v, other) if op == 'max' else sub(other, v)
        e = fc.eval(fge0(d))
        if e is None:
            g = fc.eval(fgt0(d))
            e = True if g else None
            if e is None and fc.eval(fgt0(neg(d))) is True:
                e = False
            if e is None and fc.eval(fge0(neg(d))) is True:
                e = False
            if e is None:
                # no comparison of the two decides this case: the other value is lost
                e = False if not mentions_cmp(fc, c, old) else None
        R.verdict(e, key, where, 'the running %s of %s keeps %s although the other value may be %s' %
                  (op, name, 'the previous value' if v is old else 'the new value', 'larger' if op == 'max' else 'smaller'))


def mentions_cmp(fc, c, old):
    return any(t.op in ('fge0', 'fgt0') and mentions(t, lambda x: x is c) and mentions(t, lambda x: x is old) for t in fc.lit)


def leaves(v, fc):
    out = set()
    for x in subterms(v):
        if x.op == 'ite':
            for y in x.a[1:]:
                if y.op != 'ite':
                    out.add(y)
            for lit in subterms(x.a[0]):
                if lit.op in ('fge0', 'fgt0'):
                    out |= set(atoms_of(lit.a[0]))
    if v.op != 'ite':
        out.add(v)
        for t in fc.lit:
            if t.op in ('fge0', 'fgt0') and mentions(t, lambda x: x is v):
                out |= set(atoms_of(t.a[0]))
    return out


def runners(P):
    """Functions over all constraints of a program."""
    out = []
    for f in sorted(P.fns.values(), key=lambda f: f.key):
        if f.body is None or not P.is_repo(f) or not f.params:
            continue
        ts = [f.tu.t(p['t'])['s'] for p in f.params]
        if f.rec is None and ('ConstraintManager<' in ts[0] or 'vector<' in ts[0] and 'Constraint *' in ts[0]):
            out.append(f)
        elif f.rec == 'conex::SupernodalKKTSolver' and f.short == 'Assemble' and len(f.params) == 3:
            out.append(f)
    return out


def size_at(st, cont):
    from ..lib import sizeloc
    return st.read(sizeloc(cont))


def aggregators(P, R):
    into = {}
    n = ncall = ngat = nscat = nagg = 0
    for f in runners(P):
        cl = Cl(f)
        I = Interp(P, cl)
        name = f.name.replace('conex::', '')
        try:
            outs = I.run(f)
        except (Undecided, RecursionError) as e:
            R.und(name, f.loc, str(e))
            continue
        n += 1
        loops = {d[0]: d[1:7] for d in cl.done}
        exits = {d[0]: d[7] for d in cl.done}
        percall = {}
        for st, cn, K, cont, args, got, where in cl.calls:
            short = cn.replace('conex::', '')
            if K is None:
                R.und('%s:%s:constraint' % (name, short), where, 'the constraint of the call is not identified')
                continue
            ncall += 1
            lids = [x.a[0] for x in subterms(K) if x.op == 'ix']
            if lids:
                percall.setdefault(lids[0], []).append((K, cont, cn, st, where))
            # every vector gathered from the variable lists belongs to this constraint
            for g in got:
                for key in g:
                    if key not in cl.gathers:
                        continue
                    fc, K2, pos, j, _ = cl.gathers[key]
                    ngat += 1
                    R.verdict(same_index(st.facts, K, K2), '%s:%s:variables' % (name, short), where,
                              'constraint %s is given the variables of constraint %s' % (show(K), show(K2)))
                    R.verdict(same_index(fc, pos, j), '%s:%s:order' % (name, short), where,
                              'entry %s of the vector is taken from entry %s of the variable list' % (show(pos), show(j)))
        # loops over the constraints
        for lid, cs in percall.items():
            if lid not in loops:
                continue
            ix, trip, entry, backs, mod, where = loops[lid]
            K, cont, cn, st, _ = cs[0]
            short = cn.replace('conex::', '')
            sz = size_at(entry, cont)
            R.verdict(spans(entry.facts, K, ix, trip, sz, exits[lid]), '%s:%s:all' % (name, short), where,
                      'the loop covers %s of %s constraints' % (show(trip) if trip is not None else '?', show(sz)))
            for names in [n for l, n in cl.backs if l == lid]:
                R.verdict(cn in names, '%s:%s:each' % (name, short), where,
                          'an iteration passes over its constraint without the call')
            for o in outs:
                if o.kind == 'ret' and lid in o.st.cs.get('left', ()):
                    v = o.val
                    failure = v is not None and isc(v) and cval(v) != 0
                    R.verdict(bool(failure), '%s:%s:complete' % (name, short), where,
                              'returns normally without having gone through all constraints')
        # totals
        for lid, (ix, trip, entry, backs, mod, where) in loops.items():
            if not any(backs):
                continue
            over = lid in percall or trip is not None and trip.op == 'i' and trip.a[0].op == 'f' and \
                trip.a[0].a[0].op == 'f' and trip.a[0].a[0].a[1] in CONSTRAINTS
            if not over:
                continue
            tot = {}
            for b in backs:
                for L in set(b.store):
                    if L.op == 'f' and L.a[1] in SUM | MAX | MIN:
                        tot.setdefault(L, []).append(b)
            acc = {L for L in tot if L in mod}
            # results of one iteration live in records written by the call; totals survive it
            for L in sorted(acc, key=lambda t: t.id):
                old = mk('lp', lid, L)
                news = [b.read(L) for b in tot[L]]
                if all(not mentions(v, lambda x: x is old) and not mentions(v, lambda x: x.op == 'lp' and x.a[0] == lid and x.a[1] is L) for v in news) \
                        and not I.visible(L, entry):
                    continue
                if any(v.op in ('fv', 'out') for v in news) and is_temp(L, cl):
                    continue
                fn = L.a[1]
                op = 'sum' if fn in SUM else 'max' if fn in MAX else 'min'
                nagg += 1
                for b, v in zip(tot[L], news):
                    aggregate(R, '%s:%s' % (name, fn), where, fn, op, old, v, ix, b.facts)
                R.verdict(neutral(op, fn, entry.read(L)), '%s:%s:start' % (name, fn), where,
                          'the %s of %s starts at %s' % (op, fn, show(entry.read(L))))
            # totals of the output record that no iteration touches
            for b in backs:
                for L in set(b.store):
                    if L.op == 'f' and L.a[1] in SUM | MAX | MIN and L not in acc and L.a[0].op == 'pt':
                        R.bad('%s:%s' % (name, L.a[1]), where, 'no iteration contributes to %s' % L.a[1])
        # residuals
        for st, loc, val, (K, j), where in cl.scat:
            nscat += 1
            named = [x for x in fields(loc.a[0]) if x in ('AW', 'AQc')]
            tgt = named or [str(x.a[0]) for x in subterms(loc.a[0]) if x.op == 'p']
            key = '%s:%s' % (name, tgt[0] if tgt else '?')
            at = atoms_of(val)
            idx = loc.a[1]
            olds = [a for a in at if a.op in ('get', 'i') and mentions(a, lambda x: x is idx) and
                    (a.op == 'i' and a.a[0] is loc or a.op == 'get')]
            if not olds and not mentions(val, lambda x: x.op == 'Zero'):
                # the very first addition may have been folded into the zero start
                R.bad(key, where, 'overwrites the entries of shared variables instead of adding to them')
                continue
            d = sub(val, olds[0]) if olds else val
            at = atoms_of(d)
            if len(at) != 1 or d.op == 'poly':
                R.verdict(False if d.op == 'poly' and len(at) == 1 else None, key, where, 'adds %s' % show(d))
                continue
            a = next(iter(at))
            K2, _ = element_of(a)
            js = None
            if a.op == 'i' and a.a[0].op == 'e':
                js = a.a[0].a[1]
            elif a.op == 'get':
                js = a.a[2]
            if K2 is None or js is None:
                R.und(key, where, 'adds %s' % show(a))
                continue
            R.verdict(same_index(st.facts, K, K2), key + ':variables', where, 'the residual of constraint %s is added at the variables of constraint %s' % (show(K2), show(K)))
            R.verdict(same_index(st.facts, j, strip_int(js)), key + ':order', where, 'entry %s of the residual is added at entry %s of the variable list' % (show(js), show(j)))
            src = [x for x in fields(a) if x in ('AW', 'AQc')]
            if src and named:
                R.verdict(src[0] == tgt[0], key + ':term', where, '%s is accumulated into %s' % (src[0], tgt[0]))
            elif src and tgt:
                into.setdefault((f.key, src[0]), set()).add(tgt[0])
    for (k, src), ts in into.items():
        R.verdict(len(ts) == 1, '%s:term' % src, '', '%s is accumulated into several results' % src)
    R.floor('functions over all constraints', n, 6)
    R.floor('per-constraint calls', ncall, 5)
    R.count('gathered vectors', ngat)
    R.count('scattered residual entries', nscat)
    R.count('totals', nagg)
    return ngat, nscat, nagg


def is_temp(L, cl):
    return False


class Lists(Client):
    """Appends to the parallel lists of the constraint manager and the values appended."""
    by_value = True

    def __init__(self, mgr, prog=None):
        self.names = {mk('f', mgr, n): n for n in ('eqs', 'cliques', 'dual_vars')}
        if prog is not None:
            self.names[mk('f', prog, 'constraints_')] = 'constraints_'
        self.inner, self.sized, self.done, self.backs, self.ptrs = [], [], [], [], []

    def opaque(self, fn):
        return fn.loc.split(':')[0] not in ('conex/cone_program.cc', 'conex/cone_program.h', 'conex/constraint_manager.h')

    def on_write(self, I, st, loc, val, node, op):
        from ..lib import sizeloc
        if op not in ('push_back', 'emplace_back') or loc.op != 'f':
            return
        L = loc.a[0]
        v = None
        if L in self.names or L.op == 'e' and L.a[0] in self.names:
            v = st.readagg(mk('e', L, sub(val, ONE)))
        if L in self.names:
            n = self.names[L]
            st.cs['n:' + n] = min(st.cs.get('n:' + n, 0) + 1, 3)
            if not I.mute:
                self.ptrs.append((n, v, st.fork()))
        elif L.op == 'e' and L.a[0] in self.names and not I.mute:
            self.inner.append((self.names[L.a[0]], L.a[1], v, st.fork(), st.loops[-1][0] if st.loops else None))

    def on_call(self, I, st, node, name, obj, args):
        if not I.mute and name.endswith('::SetNumberOfVariables') and obj is not None and mentions(obj, lambda x: x in self.names):
            self.sized.append((st.fork(), args[0]))

    def on_loop_back(self, I, st):
        if not I.mute and st.loops:
            self.backs.append((st.loops[-1][0], st.fork()))

    def on_loop_done(self, I, lid, ix, trip, entry, modified, backs, exits):
        self.done.append((lid, ix, trip, entry.fork(), exits))


def structure(P, R):
    """Constraints, variable lists, multiplier lists and pointers are appended together."""
    this = mk('pt', mk('p', 'this'))
    n = 0
    for f in sorted(P.fns.values(), key=lambda f: f.key):
        if f.body is None or f.short not in ('AddConstraint', 'AddEqualityConstraint') or len(f.params) != 2:
            continue
        if f.rec == 'conex::Program':
            mgr, prog = mk('f', this, 'kkt_system_manager_'), this
        elif (f.rec or '').startswith('conex::ConstraintManager'):
            mgr, prog = this, None
        else:
            continue
        cl = Lists(mgr, prog)
        I = Interp(P, cl)
        k = f.name.replace('conex::', '').replace('<Container>', '') + ':' + f.tu.t(f.params[0]['t'])['s'].replace('conex::', '').replace(' ', '')
        try:
            outs = I.run(f, this=this)
        except (Undecided, RecursionError) as e:
            R.und(k, f.loc, str(e))
            continue
        n += 1
        start = mk('f', mgr, 'dual_variable_start_')
        s0 = mk('i', start)
        vars_ = mk('i', mk('pt', mk('p', f.params[1]['n'])))
        nvars = mk('i', mk('f', mk('pt', mk('p', f.params[1]['n'])), '#n'))
        isdual = bool([x for x in cl.inner if x[0] == 'dual_vars'])
        m = ZERO
        for o in outs:
            if o.kind != 'ret':
                continue
            c = [o.st.cs.get('n:' + x, 0) for x in ('eqs', 'cliques', 'dual_vars')]
            R.verdict(c[0] == c[1] == c[2], k + ':together', f.loc,
                      'appends %d constraints, %d variable lists and %d multiplier lists' % tuple(c))
            if c[0]:
                m = sub(o.st.read(start), s0)
                if prog is not None:
                    np_ = o.st.cs.get('n:constraints_', 0)
                    R.verdict(np_ == (0 if isdual else 1), k + ':pointer', f.loc, '%d constraint pointers are kept for one constraint' % np_)
        if not isdual:
            R.verdict(m is ZERO, k + ':multipliers', f.loc, 'reserves multipliers it does not use')
        for nm, v, st in cl.ptrs:
            if nm == 'cliques':
                w = v.a[0] if v.op == 'agg' else v
                same = w is vars_ or equal_agg(v, vars_)
                bad = w.op in ('arr',) or (w.op == 'i' and w is not vars_)
                R.verdict(True if same else False if bad else None, k + ':variables', f.loc, 'the variable list stored is %s' % show(v))
            if nm == 'constraints_':
                nn = mk('i', mk('f', mk('f', mgr, 'eqs'), '#n'))
                x = [y for y in subterms(v) if y.op == 'e' and y.a[0] is mk('f', mgr, 'eqs')]
                if x:
                    g = st.facts
                    idx = [w for fc, w in cases(g, x[0].a[1])]
                    v2 = all(equal(g, w, nn) is True or sub(w, nn) is C(-1) and st.cs.get('n:eqs', 0) == 0 for w in idx) or \
                        any(sub(w, nn) is ZERO for w in idx)
                    R.verdict(v2, k + ':pointer', f.loc, 'the constraint pointer refers to constraint %s' % show(x[0].a[1]))
        for st, a in cl.sized:
            R.verdict(free_equal(st.facts, unstrip(a), add(nvars, m)), k + ':size', f.loc,
                      'the constraint is given %s variables, its list has %s' % (show(a), show(add(nvars, m))))
        for nm, at, v, st, lid in cl.inner:
            ixs = [d for d in cl.done if d[0] == lid]
            if not ixs:
                R.und(k + ':multipliers', f.loc, 'appended outside a loop')
                continue
            ix = ixs[0][1]
            R.verdict(equal(st.facts, v, add(s0, ix)), k + ':multipliers', f.loc,
                      'multiplier %s of the constraint gets index %s' % (show(ix), show(v)))
            for l, b in cl.backs:
                if l == lid:
                    for fc, mv in cases(b.facts, m):
                        d = sub(sub(mv, ix), ONE)
                        v2 = True if fc.entails_ge0(d) else None
                        if v2 is None and mv is not m and all(x.op in ('call', 'i', 'p', 'u', 'ix') for x in atoms_of(d)):
                            g = fc.copy()
                            if g.assume(ge0(sub(ix, mv)), True) and g.consistent():
                                v2 = False
                        R.verdict(v2, k + ':multipliers:fresh', f.loc, 'the next multiplier starts at %s' % show(add(s0, mv)))
            for e in ixs[0][4]:
                for fc, mv in cases(e.facts, m):
                    R.verdict(True if fc.entails_ge0(sub(ix, mv)) else False if mv is ZERO else None, k + ':multipliers:fresh', f.loc,
                              'the next multiplier starts at %s' % show(add(s0, mv)))
        if isdual:
            got = {x[0] for x in cl.inner}
            R.verdict(got == {'cliques', 'dual_vars'}, k + ':multipliers', f.loc, 'multipliers are appended only to %s' % ', '.join(sorted(got)))
    R.floor('functions that append constraints', n, 4)


def free_equal(facts, a, b):
    v = equal(facts, a, b)
    if v is None:
        d = sub(a, b)
        if all(x.op in ('call', 'i', 'p') for x in atoms_of(d)):
            return False        # a polynomial in independent quantities
    return v


def unstrip(a):
    mp = {x: x.a[0] for x in subterms(a) if x.op == 'u'}
    return subst(a, mp) if mp else a


def equal_agg(v, w):
    return v.op == 'agg' and v.a[0] is w


def binding(P, R):
    """The KKT solver sees the constraints, variable lists and multiplier lists in the same order."""
    fs = [f for f in P.fns.values() if f.name == 'conex::Initialize' and f.body is not None and f.params and
          'Program' in f.tu.t(f.params[0]['t'])['s']]
    if not fs:
        raise AnalysisBroken('conex::Initialize not found')
    f = fs[0]
    ctor, bound, events = [], [], []

    class Cl(Client):
        by_value = True

        def __init__(self):
            self.ev, self.ctor, self.bind, self.done = [], [], [], []

        def opaque(self, fn):
            return fn.loc.split(':')[0] not in ('conex/cone_program.cc', 'conex/cone_program.h', 'conex/constraint_manager.h')

        def on_call(self, I, st, node, name, obj, args):
            if I.mute:
                return
            if name == 'std::make_unique' and len(args) == 2 or name == 'conex::SupernodalKKTSolver::SupernodalKKTSolver' and len(args) == 2:
                self.ctor.append([(st.readagg(a) if a.op in LOCOPS else a, a) for a in args])
            if name == 'conex::SupernodalKKTSolver::Bind':
                st.cs['bind'] = 1

        def on_write(self, I, st, loc, val, node, op):
            if I.mute:
                return
            if op in ('push_back', 'emplace_back') and loc.op == 'f' and loc.a[0].op == 'f' and loc.a[0].a[1] == 'kkt':
                v = st.readagg(mk('e', loc.a[0], sub(val, ONE)))
                self.ev.append(('kkt', v, sub(val, ONE), st.fork()))
                st.cs['pushed'] = 1
            if loc.op == 'f' and loc.a[1] == 'workspace_':
                self.ev.append(('workspace_', val, loc, st.fork()))

        def on_loop_done(self, I, lid, ix, trip, entry, modified, backs, exits):
            self.done.append((lid, ix, trip, entry.fork()))
    cl = Cl()
    try:
        outs = Interp(P, cl).run(f)
    except (Undecided, RecursionError) as e:
        R.und('binding', f.loc, str(e))
        return

    def eqi(t):
        for x in subterms(t):
            if x.op == 'e' and x.a[0].op == 'f' and x.a[0].a[1] == 'eqs':
                return x
        return None
    for args in cl.ctor:
        names = [fields(v)[0] if fields(v) else fields(a)[0] if fields(a) else '?' for v, a in args]
        names = [[x for x in fields(v) + fields(a) if x in ('cliques', 'dual_vars')][:1] for v, a in args]
        if all(names):
            R.verdict([x[0] for x in names] == ['cliques', 'dual_vars'], 'binding:lists', f.loc,
                      'the KKT solver is built from %s' % ', '.join(x[0] for x in names))
    loops = {l: (ix, trip, e) for l, ix, trip, e in cl.done}
    for kind, v, at, st in cl.ev:
        x = eqi(v)
        if x is None:
            R.und('binding:' + kind, f.loc, show(v))
            continue
        if kind == 'kkt':
            R.verdict(same_index(st.facts, at, x.a[1]), 'binding:order', f.loc, 'position %s of the KKT solver gets constraint %s' % (show(at), show(x.a[1])))
            lids = [y.a[0] for y in subterms(x.a[1]) if y.op == 'ix']
            if lids and lids[0] in loops:
                ix, trip, e = loops[lids[0]]
                R.verdict(spans(e.facts, x.a[1], ix, trip, size_at(e, x.a[0])), 'binding:all', f.loc, 'not every constraint is bound')
        else:
            y = eqi(at)
            if y is not None:
                R.verdict(same_index(st.facts, x.a[1], y.a[1]), 'binding:workspace', f.loc, 'the assembler of constraint %s works on constraint %s' % (show(y.a[1]), show(x.a[1])))
    R.count('assemblers bound', len([e for e in cl.ev if e[0] == 'kkt']))


def check(P, R):
    aggregators(P, R)
    structure(P, R)
    binding(P, R)
