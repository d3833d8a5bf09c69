from ..util import *
from .. import api as A

TECHNIQUE = 'path-sensitive dataflow of the solve status against the conditions under which each exit of the main iteration is taken'
RULE = ('On every path of the core solve: the returned value is the recorded status; it is nonzero only when the main iteration was left by '
        'its convergence criterion (not by exhausting max_iterations, not before entering it) and the final duality measure does not exceed the '
        'infeasibility threshold; infeasibility flags are set only together with failure and only beyond that threshold; every early exit '
        'resets all of them. The public solve calls return exactly the verdict of the core solve.')


def core_solve(P):
    fs = [f for f in P.fns.values() if f.name == 'conex::Solve' and f.body is not None and f.params and
          'Program' in f.tu.t(f.params[0]['t'])['s']]
    if not fs:
        raise AnalysisBroken('conex::Solve not found')
    return fs[0]


SRC = ('conex/cone_program.cc', 'conex/cone_program.h', 'conex/constraint_manager.h', 'conex/constraint.h')


def option(t, name):
    return t.op == 'i' and t.a[0].op == 'f' and t.a[0].a[1] == name


def lits(facts):
    """Atomic float and integer comparisons that hold, as polynomials >= 0."""
    out = []
    for t, v in facts.lit.items():
        if t.op in ('fge0', 'fgt0'):
            out.append(t.a[0] if v else neg(t.a[0]))
    for t in facts.ge:
        out.append(t)
    return out


def coeff(p, pred):
    """Coefficient of the atom chosen by pred, when it occurs linearly on its own."""
    try:
        d = pdict(p)
    except Exception:
        return None
    c = None
    for m, k in d.items():
        for a in (x for x in m):
            t = a[0] if isinstance(a, tuple) else a
            if isinstance(t, T) and pred(t):
                c = k if len(m) == 1 else None
    return c


def criterion(facts):
    """Which convergence criterion do these facts establish?"""
    out = set()
    for p in lits(facts):
        has = [x for x in subterms(p) if option(x, 'final_centering_tolerance')]
        if has and mentions(p, lambda x: last(x) == 'norminfd') and sign(p, has[0]) == 1:
            out.add('tolerance')
        has = [x for x in subterms(p) if option(x, 'final_centering_steps')]
        if has and sign(p, has[0]) == -1 and not any(option(x, 'max_iterations') for x in subterms(p)):
            out.add('steps')
    return out


OPTIONS = {'max_iterations', 'final_centering_steps', 'initial_centering_steps_coldstart', 'initial_centering_steps_warmstart'}


def last(x):
    while isinstance(x, T):
        if x.op in ('fv', 'f'):
            return x.a[1]
        if x.op in ('i', 'lp'):
            x = next((y for y in x.a if isinstance(y, T)), None)
            continue
        return None


def sign(p, atom):
    """Direction in which p depends linearly on an atom."""
    lo, hi = subst(p, {atom: ZERO}), subst(p, {atom: ONE})
    d = sub(hi, lo)
    if isc(d):
        return 1 if cval(d) > 0 else -1 if cval(d) < 0 else 0
    return None


def classify(facts):
    """converged / no criterion / unclear, looking into compound conditions."""
    if criterion(facts):
        return 'converged'
    g = facts.copy()
    comp = [(t, v) for t, v in facts.lit.items() if t.op not in ('fge0', 'fgt0') and
            mentions(t, lambda x: option(x, 'final_centering_tolerance') or option(x, 'final_centering_steps'))]
    for t, _ in comp:
        del g.lit[t]
    ws = [g]
    for t, v in comp:
        ws = [h for w in ws for h in worlds(w, t, v)]
        if len(ws) > 64:
            return 'unclear'
    return 'no criterion' if any(not criterion(w) for w in ws) or not ws else 'converged'


class Cl(Client):
    by_value = True

    def __init__(self):
        self.main = set()
        self.breaks = []

    def opaque(self, fn):
        return fn.loc.split(':')[0] not in SRC

    def on_call(self, I, st, node, name, obj, args):
        if name == 'conex::SupernodalKKTSolver::Factor':
            self.main |= {l for l, _ in st.loops}

    def on_loop_break(self, I, st, lid):
        if lid in self.main:
            tag = classify(st.facts)
            self.breaks.append(tag)
            st.cs['exit'] = tag

    def loop_exit(self, I, st, lid, s):
        if lid in self.main:
            st.cs['exit'] = 'exhausted'


def threshold(facts, name='infeasibility_threshold'):
    """+1 the measure is within the threshold, -1 beyond it, 0 unknown."""
    for p in lits(facts):
        has = [x for x in subterms(p) if option(x, name)]
        if has and len(list(atoms(p))) >= 1 and not isc(subst(p, {has[0]: ZERO})):
            s = sign(p, has[0])
            if s:
                return s
    return 0


def core(P, R):
    f = core_solve(P)
    cl = Cl()
    outs = Interp(P, cl).run(f)
    prog = mk('pt', mk('p', f.params[0]['n']))
    stat = lambda n: mk('f', mk('f', prog, 'status_'), n)
    n = 0
    seen, solvable = set(), False
    for o in outs:
        if o.kind != 'ret':
            R.und('exception', f.loc, 'leaves by exception')
            continue
        n += 1
        st, fc = o.st, o.st.facts
        ex = st.cs.get('exit', 'early')
        seen.add(ex)
        val = tobool(o.val)
        sol = tobool(st.read(stat('solved')))
        if val is sol:
            R.ok('status:returned')
        else:
            # the two may differ only if some case decides them differently
            r = True
            for v in (True, False):
                g = fc.copy()
                if g.assume(val, v) and g.consistent():
                    e = g.eval(sol)
                    if e is None:
                        e = all(isc(w) and (cval(w) != 0) == v for _, w in cases(g, ite(sol, ONE, ZERO))) or None
                    r = r and e is v if e is not None else None if r else r
            R.verdict(r, 'status:returned', f.loc, 'returns %s while the status says %s' % (show(val), show(sol)))
        # verdict per exit
        good = worlds(fc, val)
        can = bool(good)
        flags = {x: tobool(st.read(stat(x))) for x in ('primal_infeasible', 'dual_infeasible')}
        if ex == 'early':
            R.verdict(not can, 'early exit:not solved', f.loc, 'reports success without having iterated')
            for x, v in flags.items():
                R.verdict(True if fc.eval(v) is False else False if fc.eval(v) is True or v.op == 'i' or mentions(v, lambda y: y.op == 'i' and last(y) == x) else None,
                          'early exit:' + x, f.loc, 'an early exit leaves %s as %s' % (x, show(v)))
            ni = st.read(stat('num_iterations'))
            R.verdict(True if isc(ni) and cval(ni) == 0 else False if last(ni) == 'num_iterations' or isc(ni) else None, 'early exit:num_iterations', f.loc, 'an early exit reports %s iterations' % show(ni))
        elif ex == 'exhausted':
            R.verdict(True if not can else False, 'exhausted:not solved', f.loc, 'reports success after max_iterations iterations without convergence')
        elif ex == 'no criterion':
            R.verdict(True if not can else False, 'break:criterion', f.loc, 'reports success after leaving the iteration without the final centering criterion')
        elif ex == 'unclear':
            R.und('break:criterion', f.loc, 'criterion of the break not recognised')
        else:
            R.ok('break:criterion')
            solvable = solvable or can
        if can and ex != 'early':
            for may in good:
                t = threshold(may)
                R.verdict(True if t == 1 else False, 'success:threshold', f.loc,
                          'reports success although the duality measure %s the infeasibility threshold' % ('exceeds' if t == -1 else 'is not compared with'))
                for x, v in flags.items():
                    R.verdict(True if not both(may, v) else False, 'success:' + x, f.loc, 'reports success together with %s' % x)
        if ex != 'early':
            for x, v in flags.items():
                for g in worlds(fc, v):
                    t = threshold(g)
                    R.verdict(True if t == -1 else False, 'infeasible:' + x, f.loc,
                              '%s may be set although the duality measure is not beyond the infeasibility threshold' % x)
                # the old value of the flag must not survive
                R.verdict(not mentions(v, lambda y: y.op == 'i' and last(y) == x), 'reset:' + x, f.loc, 'the flag of an earlier solve survives')
            ni = st.read(stat('num_iterations'))
            names = {last(a) for fc2, w in cases(fc, ni) for a in atoms(w)}
            stale = 'num_iterations' in names
            R.verdict(True if names == {'num_iter'} else False if stale or not names or names & OPTIONS else None, 'iterations', f.loc, 'the number of iterations reported is %s' % show(ni))
    R.floor('outcomes of the core solve', n, 3)
    R.verdict(solvable if 'converged' in seen else None, 'converged:solved', f.loc, 'never reports success')
    R.count('exits of the main iteration by criterion', len(cl.breaks))
    if 'exhausted' not in seen:
        R.und('exhausted:not solved', f.loc, 'no exhausted exit found')
    R.floor('kinds of exit', len(seen), 2)


def both(facts, v):
    """Worlds in which v holds too; a measure cannot be on both sides of the threshold."""
    out = []
    for g in worlds(facts, v):
        s = {sign(p, x) for p in lits(g) for x in subterms(p) if option(x, 'infeasibility_threshold')}
        if not {1, -1} <= s:
            out.append(g)
    return out


def handed_on(P, R, f, outs, is_call):
    """The result is nonzero exactly when the wrapped solve succeeded."""
    n = 0
    for o in outs:
        if o.kind != 'ret':
            continue
        n += 1
        fc, v = o.st.facts, o.val
        calls = {x for x in subterms(v) if is_call(x)} | {x for t in fc.lit for x in subterms(t) if is_call(x)}
        if not o.st.cs.get('solve'):
            e = fc.eval(tobool(v))
            R.verdict(True if e is False else False if e is True else None, f.name + ':refused', f.loc, 'reports success without solving')
            continue
        if not calls:
            e = fc.eval(tobool(v))
            R.verdict(False if e is not None or not any('solved' in x.a for x in subterms(v)) else None, f.name + ':verdict', f.loc, 'returns %s whatever the solve returned' % show(v))
            continue
        if len(calls) > 1:
            R.und(f.name + ':verdict', f.loc, 'several solves')
            continue
        c0 = calls.pop()
        bs = {x for t in [v] + list(fc.lit) for x in subterms(t) if x.op == 'b' and x.a[-1] is c0}
        c = bs.pop() if bs else tobool(c0)
        ok = True
        for want in (True, False):
            for g in worlds(fc, c, want):
                e = g.eval(truth(v))
                ok = False if e is (not want) else ok if e is want or ok is False else None
        if ok is None and not any(x is c0 or 'solved' in x.a for x in subterms(v)):
            # nothing in the value says whether the problem was solved
            ok = False
        R.verdict(ok, f.name + ':verdict', f.loc, 'returns %s for the result %s of the solve' % (show(v), show(c)))
    return n


def truth(v):
    return v if v.op in ('b', 'and', 'or', 'not', 'ite') and v.op != 'ite' else tobool(v)


def public(P, R):
    """CONEX_Solve / CONEX_Maximize and the overload with a linear cost hand on the verdict."""
    n = 0
    for f in A.entries(P):
        if A.kind(f) != 'solve':
            continue
        try:
            outs = Interp(P, A.Api(f)).run(f)
        except (Undecided, RecursionError) as e:
            R.und(f.name, f.loc, str(e))
            continue
        n += handed_on(P, R, f, outs, lambda x: x.op == 'call' and x.a[0] in A.SOLVES)
    R.floor('outcomes of the public solve calls', n, 4)
    main = core_solve(P)

    class Cl2(Client):
        by_value = True

        def opaque(self, fn):
            return fn is main or fn.short == 'AddLinearCost'

        def on_call(self, I, st, node, name, obj, args):
            if name == 'conex::Solve':
                st.cs['solve'] = 1
    for f in P.fns.values():
        if f.name == 'conex::Solve' and f is not main and f.body is not None and f.params:
            try:
                outs = Interp(P, Cl2()).run(f)
            except (Undecided, RecursionError) as e:
                R.und('Solve(b)', f.loc, str(e))
                continue
            handed_on(P, R, f, outs, lambda x: x.op == 'call' and x.a[0] == 'conex::Solve')


def check(P, R):
    core(P, R)
    public(P, R)
