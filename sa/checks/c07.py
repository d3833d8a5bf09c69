from ..util import *
from ..terms import _byid
from ..lib import handle_loc, rd, rec
from ..engine import deref
from .c06 import core_solve, SRC, last
from .c20 import per_constraint

TECHNIQUE = 'typestate dataflow of the KKT system (assembled, residuals, factored, solved, prepared) through the core solve, with the right-hand side of each linear solve compared symbolically with the weights of the step prepared from it'
RULE = ('On every path of the core solve: a linear solve happens only after a factorization that reported success, of a matrix assembled after '
        'the last change of the iterate, and with residual vectors of the same iterate; a matrix is factored once per assembly; a step is prepared '
        'from an unmodified solution whose right-hand side carries the residual vectors with the weights of that step; a step is taken once per '
        'preparation, with a length that is at most 1 and at most 2/norminf^2.')

SOLVER = 'conex::SupernodalKKTSolver::'
FIELDS = ('AW', 'AQc')


def content(st, v):
    """Matrix value behind a handle, also when it was filled through another handle of the same buffer."""
    if v.op in LOCOPS:
        val = st.read(v)
        if val.op in ('mat', 'solved', 'gather', 'poly') or val.op == 'i' and val.a[0].op == 'mat':
            return resolve(st, val)
        L = handle_loc(val, v) if v.op not in ('mat', 'view') else v
    elif v.op in ('map', 'lref'):
        L = handle_loc(v, None)
    else:
        return resolve(st, v)
    x = st.store.get(L)
    return resolve(st, x if x is not None else st.read(L))


def resolve(st, x):
    for _ in range(6):
        if x.op == 'i' and x.a[0].op == 'mat':
            x = x.a[0]
        if x.op == 'mat' and x.a[0].op == '&' and x.a[0].a[0].op == 'buf':
            y = st.store.get(x)
            x = y if y is not None else st.read(x.a[0].a[0].a[0])
        else:
            break
    return x


def tag(t):
    """Which residual vector a matrix atom is."""
    for _ in range(8):
        if t.op in ('f', 'fv'):
            if len(t.a) < 2:
                return None
            if t.a[1] in FIELDS:
                return t.a[1]
            t = t.a[0]
        elif t.op == 'lp':
            t = t.a[1]
        elif t.op in ('mat', 'i', 'get', 'out', 'view', 'lref', '&', 'buf'):
            t = next((x for x in t.a if isinstance(x, T)), None)
            if t is None:
                return None
        else:
            return None
    return None


def weights(rhs):
    """{'AW': coefficient, 'AQc': coefficient}, [coefficients of everything else]."""
    c, rest = {n: ZERO for n in FIELDS}, []
    for m, k in pdict(rhs).items():
        tags = [(i, p) for i, p in m if tag(_byid[i])]
        if len(tags) == 1 and tags[0][1] == 1:
            n = tag(_byid[tags[0][0]])
            c[n] = add(c[n], pterm({tuple(x for x in m if x != tags[0]): k}))
        elif tags:
            return None, None
        else:
            rest.append(pterm({m: k}))
    return c, rest


class Cl(Client):
    by_value = True

    def __init__(self, R):
        self.R, self.prep, self.take, self.n = R, set(), set(), []

    def opaque(self, fn):
        return fn.loc.split(':')[0] not in SRC

    def obl(self, I, ok, key, msg):
        if I.mute:
            return
        self.n.append((key, ok, I.fr.fn.loc, msg))

    # cs: A none/fresh/used, R none/fresh, F none/ok/failed, S solved?, P none/yes/(taken, loop)
    def get(self, st, k):
        return st.cs.get(k, 'none')

    def put(self, st, **kw):
        for k, v in kw.items():
            if v == 'none':
                st.cs.pop(k, None)
            else:
                st.cs[k] = v

    def call(self, I, st, node, name, obj, args):
        short = name.split('::')[-1]
        if name.startswith(SOLVER):
            if short == 'Assemble':
                self.put(st, A='fresh', R='fresh' if len(args) == 3 else 'none', F='none', P='none')
                return None
            if short == 'Factor':
                self.obl(I, self.get(st, 'A') == 'fresh', 'Factor:assembled',
                         'factors a matrix that %s' % ('has been factored already' if self.get(st, 'A') == 'used' else 'was not assembled since the iterate changed'))
                a = st.fork()
                self.put(a, A='used', F='ok')
                self.put(st, A='used', F='failed')
                return [(a, ONE), (st, ZERO)]
            if short in ('Solve', 'SolveInPlace'):
                F = self.get(st, 'F')
                self.obl(I, F == 'ok', short + ':factored', 'solves with a factorization that %s' % ('failed' if F == 'failed' else 'does not belong to the current iterate'))
                v = args[0]
                if short == 'SolveInPlace':
                    loc = deref(v)
                    L = handle_loc(st.read(loc), loc)
                    rhs = content(st, loc)
                else:
                    rhs = resolve(st, rd(I, st, v, node['a'][0]))
                if any(tag(x) for x in subterms(rhs)):
                    self.obl(I, self.get(st, 'R') == 'fresh', short + ':residuals', 'the right-hand side uses residual vectors that were not recomputed since the iterate changed')
                res = mk('solved', rhs)
                if short == 'Solve':
                    return [(st, res)]
                st.write(L, res)
                return [(st, mk('void'))]
            if short in ('SetSolverMode', 'SetIterativeRefinementIterations', 'Bind'):
                self.put(st, F='none')
            return None
        fn = I.P.fns.get(node.get('fn')) if node.get('fn') is not None else None
        if short == 'Vars' and len(args) == 2:
            x = args[0]
            return [(st, mk('gather', content(st, x) if x.op in LOCOPS or x.op in ('map', 'lref') else resolve(st, x), rd(I, st, args[1], node['a'][1])))]
        return None

    def per(self, I, node, args):
        """A call for a single constraint."""
        return bool(args) and bool(node.get('a')) and rec(I, node['a'][0]) == 'conex::Constraint'

    def on_call(self, I, st, node, name, obj, args):
        short = name.split('::')[-1]
        if short not in ('SetIdentity', 'TakeStep', 'PrepareStep', 'PerformLineSearch') or not name.startswith('conex::') or not self.per(I, node, args):
            return
        lid, where = st.loops[-1] if st.loops else (None, None)
        if short == 'SetIdentity':
            self.put(st, A='none', R='none', F='none', P='none')
        elif short == 'TakeStep':
            p = self.get(st, 'P')
            self.obl(I, p == 'yes' or p == ('taken', where), 'TakeStep:prepared',
                     'takes a step that %s' % ('was taken already' if p == 'done' or isinstance(p, tuple) else 'was not prepared since the iterate changed'))
            self.length(I, st, args)
            self.take.add(lid)
            self.put(st, A='none', R='none', F='none', P=('taken', where))
        elif short == 'PrepareStep':
            self.prep.add(lid)
            self.direction(I, st, args)
        elif short == 'PerformLineSearch':
            self.search(I, st, args)

    def loop_exit(self, I, st, lid, s):
        if lid in self.prep:
            self.put(st, P='yes')
        elif lid in self.take and isinstance(self.get(st, 'P'), tuple):
            self.put(st, P='done')

    def on_write(self, I, st, loc, val, node, op):
        t = loc
        for _ in range(8):
            if t.op == 'f' and t.a[1] in FIELDS and t.a[0].op == 'f' and t.a[0].a[1] == 'sys' or t.op == 'f' and t.a[1] == 'sys':
                self.put(st, R='fresh' if self.get(st, 'A') != 'none' else 'none')
                return
            t = next((x for x in t.a if isinstance(x, T)), None)
            if t is None:
                return

    def opt(self, st, o, n):
        l = deref(o) if o.op == '&' else o
        return st.read(mk('f', l, n)) if l.op in LOCOPS else mk('fv', l, n)

    def system(self, I, st, v, key):
        """The right-hand side behind a vector of variables handed to a constraint."""
        z = content(st, v)
        out = []
        for f, x in tops(st.facts, z):
            if x.op == 'gather':
                x = resolve(st, x.a[0])
            out += tops(f, x)
        good = []
        for f, x in out:
            if x.op == 'solved':
                good.append((f, x.a[0]))
            elif x.op == 'poly' and any(y.op == 'solved' or tag(y) for y in subterms(x)):
                self.obl(I, False, key + ':solution', 'the vector given to the constraints is not the solution of the linear system but %s' % show(x)[:80])
            else:
                self.obl(I, None, key + ':solution', 'origin of the vector not recognised')
        return good

    def match(self, I, f, rhs, e, c, key, k=None):
        w, rest = weights(rhs)
        if w is None:
            self.obl(I, None, key + ':weights', 'right-hand side not linear in the residual vectors')
            return
        hidden = [x for r in rest for x in subterms(r) if tag(x) and x.op in ('lp', 'i', 'mat')] if not any(tag(_byid[i]) for m in pdict(rhs) for i, _ in m) else []
        for n, want, text in (('AQc', c, 'c_weight'), ('AW', neg(add(ONE, e)), '-(1 + e_weight)')):
            r = same(f, w[n], want)
            self.obl(I, None if r is False and hidden else r, key + ':weight of ' + n, 'the right-hand side carries %s with weight %s, the step expects %s = %s' % (n, show(w[n])[:60], text, show(want)[:60]))
        if k is not None:
            for r0 in rest:
                self.obl(I, times(f, r0, k), key + ':weight of the cost', 'the cost enters the right-hand side as %s, not with weight inv_sqrt_mu of the step' % show(r0)[:80])

    def direction(self, I, st, args):
        o = args[1]
        for f, rhs in self.system(I, st, args[2], 'PrepareStep'):
            self.obl(I, True, 'PrepareStep:solution', '')
            self.match(I, f, rhs, self.opt(st, o, 'e_weight'), self.opt(st, o, 'c_weight'), 'PrepareStep', self.opt(st, o, 'inv_sqrt_mu'))

    def search(self, I, st, args):
        p = args[1]
        for v, n in ((args[2], 'c0_weight'), (args[3], 'c1_weight')):
            for f, rhs in self.system(I, st, v, 'PerformLineSearch'):
                self.match(I, f, rhs, ONE, self.opt(st, p, n), 'PerformLineSearch:' + n)

    def length(self, I, st, args):
        o = args[1]
        s = self.opt(st, o, 'step_size')
        for f, x in cases(st.facts, s, 16):
            q = None
            if isc(x):
                # a constant length: must be implied by what is known about the norm
                q = cval(x) <= 1 and any(norm2(p) and implies(p, x) for p in conds(f))
                if cval(x) <= 1 and not q:
                    q = None if any(norm2(p) for p in conds(f)) else False
            elif split(x) is not None and not is_bound(x):
                q = False
            elif is_bound(x):
                q = f.eval(fge0(sub(ONE, x)))
                if q is None:
                    q = any(sub(p, sub(ONE, x)) is ZERO for p in conds(f)) or None
                    if q is None:
                        q = None if any(norm2(p) for p in conds(f)) else False
            self.obl(I, q, 'TakeStep:length', 'step length %s is not limited to 1 and to 2/norminf^2' % show(x)[:80])


def tops(f, v, limit=8):
    """Cases of a value that is itself conditional, leaving its parts alone."""
    out, todo = [], [(f, v)]
    while todo:
        g, x = todo.pop()
        if x.op != 'ite' or len(out) + len(todo) > limit:
            out.append((g, x))
            continue
        for val, y in ((True, x.a[1]), (False, x.a[2])):
            h = g.copy()
            if g.eval(x.a[0]) is (not val) or not h.assume(x.a[0], val) or not h.consistent():
                continue
            todo.append((h, y))
    return out


def same(f, x, y):
    """Equality of two weights; a difference that is a nonzero polynomial of independent values is real."""
    if sub(x, y) is ZERO:
        return True
    r = True
    for g, d in cases(f, sub(x, y), 64):
        if d is ZERO or isc(d) and cval(d) == 0:
            continue
        if any(t.op == 'ite' for t in subterms(d)):
            r = None if r else r
        else:
            r = False
    return r


def times(f, r, k):
    """Does every case of r carry the factor k exactly once?"""
    if k.op != 'poly' and not isc(k) and all((k.id, 1) in m for m in pdict(r)):
        return True
    ok = True
    for g, t in cases(f, mk('pair', r, k), 64):
        x, y = t.a
        if x is ZERO:
            continue
        if any(u.op == 'ite' for u in subterms(t)) or isc(y) or y.op == 'poly':
            ok = None if ok else ok
        elif not all((y.id, 1) in m for m in pdict(x)):
            ok = False
    return ok


def conds(f):
    out = []
    for t, v in f.lit.items():
        if t.op in ('fge0', 'fgt0'):
            out.append(t.a[0] if v else neg(t.a[0]))
    return out


def isnorm(t):
    return any(x.op in ('fv', 'f') and len(x.a) > 1 and x.a[1] == 'norminfd' for x in subterms(t))


def norm2(p):
    return any(x.op == 'inv' and isnorm(x) for x in subterms(p)) or isnorm(p)


def split(p):
    """(a, b, n): p = a + b * inv(norminf)^n with constants a, b."""
    a, b, n = 0, None, 0
    if isc(p):
        return None
    for m, k in pdict(p).items():
        if not m:
            a = k
        elif len(m) == 1 and b is None and isnorm(_byid[m[0][0]]) and _byid[m[0][0]].op == 'inv' and last(_byid[m[0][0]].a[0]) == 'norminfd':
            b, n = k, m[0][1]
        else:
            return None
    return (a, b, n) if b is not None else None


def implies(p, x):
    """p >= 0 implies 2/norminf^2 >= x."""
    s = split(p)
    # a + b u >= 0, b > 0  =>  u >= -a/b ; need 2 u >= x
    return s is not None and s[2] == 2 and s[1] > 0 and 2 * (-s[0] / s[1]) >= cval(x) - 1e-12


def is_bound(x):
    s = split(x)
    return s is not None and s[0] == 0 and s[2] == 2 and s[1] <= 2


def check(P, R):
    f = core_solve(P)
    cl = Cl(R)
    outs = Interp(P, cl).run(f)
    kinds = {}
    for key, ok, loc, msg in cl.n:
        kinds.setdefault(key, []).append((ok, loc, msg))
    for key, l in kinds.items():
        for ok, loc, msg in l:
            R.verdict(ok, key, loc, msg)
    R.floor('factorizations and solves on paths of the core solve', sum(len(l) for k, l in kinds.items() if k.startswith(('Factor', 'Solve'))), 4)
    R.floor('steps prepared', sum(len(l) for k, l in kinds.items() if k.startswith('PrepareStep')), 1)
    R.floor('steps taken', len(kinds.get('TakeStep:prepared', [])), 1)
