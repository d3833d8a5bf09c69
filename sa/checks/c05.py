from ..util import *
from ..terms import under
from .. import api as A

TECHNIQUE = 'interprocedural path-sensitive dataflow of effects (appends, stores) against returned status and id'
RULE = ('For every entry point that adds a constraint or cost, on every path: a success return is reached exactly when one '
        'constraint was appended, the id is the number of constraints before the call, and on a failure return nothing of '
        'the problem (constraints, cliques, multipliers, costs, number of variables) was modified and no output was '
        'written. A variable list is accepted only if every entry is in range and occurs once.')

# solution state: discarding it does not change the problem
SOLUTION = {'workspaces', 'is_initialized', 'stats', 'sys', 'memory_', 'status_', 'solver', 'kkt'}


class Eff(A.Api):
    def on_write(self, I, st, loc, val, node, op):
        super().on_write(I, st, loc, val, node, op)
        b = self.base(loc)
        if b is self.h and b is not None:
            x = loc
            names = []
            while x is not b and x.op in ('f', 'e', 'view', 'mat'):
                if x.op == 'f':
                    names.append(x.a[1])
                x = x.a[0] if x.op != 'mat' else b
            top = names[-1] if names else '?'
            if top not in SOLUTION:
                st.cs['prob'] = st.cs.get('prob', frozenset()) | {top}


def n0(P, h):
    fs = [f for f in P.fns.values() if f.name == 'conex::Program::NumberOfConstraints' and f.body is not None]
    if not fs:
        raise AnalysisBroken('NumberOfConstraints not found')
    return [o.val for o in Interp(P).run(fs[0], this=h) if o.kind == 'ret'][0]


def id_out(f):
    """Output parameter for the id: the only pointer to a non-const int."""
    ps = [p for p in A.ptr_params(f) if f.tu.t(p['t'])['s'].replace(' ', '') == 'int*']
    return ps[0] if len(ps) == 1 else None


def adders(P, R):
    n = 0
    for f in A.entries(P):
        if not (f.name.startswith('CONEX_New') or f.name.startswith('CONEX_Add')):
            continue
        cl = Eff(f)
        I = Interp(P, cl)
        try:
            outs = I.run(f)
        except (Undecided, RecursionError) as e:
            R.und(f.name, f.loc, str(e))
            continue
        n += 1
        k, out = A.kind(f), id_out(f)
        good = 0
        for o in outs:
            if o.kind != 'ret':
                R.und(f.name + ':exception', f.loc, 'leaves by exception')
                continue
            app, fail, cs = o.st.cs.get('app', 0), A.is_failure(f, o.st, o.val), o.st.cs
            if fail is None:
                # a status that is neither: look at it under both outcomes
                R.und(f.name + ':verdict', f.loc, 'returns %s' % show(o.val))
                continue
            if fail:
                R.verdict(not app, f.name + ':failure-appends', f.loc, 'reports failure although it has added a constraint')
                if not app:
                    R.verdict(not cs.get('prob'), f.name + ':failure-modifies', f.loc,
                              'reports failure although it has modified %s' % ', '.join(sorted(cs.get('prob', ()))))
                    if out:
                        R.verdict(not cs.get('out:' + out['n']), f.name + ':failure-writes-id', f.loc, 'writes an id although it reports failure')
            else:
                good += 1
                R.verdict(app == 1, f.name + ':success-appends', f.loc,
                          'reports success although %s' % ('nothing was added' if not app else 'it has added several constraints'))
                idv = o.val if k == 'id' else o.st.read(mk('pt', mk('p', out['n']))) if out else None
                if out and not cs.get('out:' + out['n']):
                    R.bad(f.name + ':success-id', f.loc, 'reports success without an id')
                elif idv is not None and app == 1:
                    v = equal(o.st.facts, strip_int(idv), strip_int(n0(P, cl.h)))
                    R.verdict(v, f.name + ':id', f.loc, 'the id is %s, the constraint has index %s' % (show(idv), show(n0(P, cl.h))))
        if f.name != 'CONEX_AddLinearInequalities':
            R.verdict(bool(good), f.name + ':accepts', f.loc, 'no path adds the constraint')
    R.floor('entry points that add constraints', n, 8)


def setters(P, R):
    f = api(P, 'CONEX_SetNumberOfVariables')
    cl = Eff(f)
    outs = Interp(P, cl).run(f)
    get = [g for g in P.fns.values() if g.name == 'conex::Program::GetNumberOfVariables' and g.body is not None]
    if not get:
        raise AnalysisBroken('GetNumberOfVariables not found')
    ints = [p for p in f.params if f.tu.t(p['t'])['k'] == 'int']
    n = 0
    for o in outs:
        if o.kind != 'ret':
            continue
        n += 1
        fail = A.is_failure(f, o.st, o.val)
        if fail:
            R.verdict(not o.st.cs.get('prob'), f.name + ':failure-modifies', f.loc, 'reports failure although it has modified %s' % sorted(o.st.cs.get('prob', ())))
        elif fail is False:
            for o2 in Interp(P).run(get[0], this=cl.h, st=o.st.fork()):
                R.verdict(equal(o.st.facts, o2.val, mk('p', ints[0]['n'])), f.name + ':effect', f.loc,
                          'reports success but the program has %s variables' % show(o2.val))
        else:
            R.und(f.name + ':verdict', f.loc, show(o.val))
    R.floor('outcomes of CONEX_SetNumberOfVariables', n, 2)


def program_level(P, R):
    """The same contract for the C++ methods the entry points are built on."""
    n = 0
    this = mk('pt', mk('p', 'this'))
    for f in sorted(P.fns.values(), key=lambda f: f.key):
        if f.rec != 'conex::Program' or f.body is None or f.short not in ('AddConstraint', 'AddQuadraticCost', 'AddLinearCost'):
            continue

        class Cl(Eff):
            def __init__(self):
                self.f, self.h, self.ptrs = f, this, {}
                self.eqs = mk('f', mk('f', this, 'kkt_system_manager_'), 'eqs')
                self.acc, self.maps, self.wr, self.idx, self.narrow, self.unchecked, self.app = [], [], [], [], [], [], []
        I = Interp(P, Cl())
        k = f.name.replace('conex::', '') + ':' + ','.join(f.tu.t(p['t'])['s'].replace('const ', '').replace('conex::', '') for p in f.params)
        k = k.replace(' ', '')
        try:
            outs = I.run(f, this=this)
        except (Undecided, RecursionError) as e:
            R.und(k, f.loc, str(e))
            continue
        n += 1
        for o in outs:
            if o.kind != 'ret':
                continue
            app, cs = o.st.cs.get('app', 0), o.st.cs
            e = o.st.facts.eval(tobool(o.val))
            if e is None:
                R.und(k + ':verdict', f.loc, show(o.val))
                continue
            if e:
                R.verdict(not app and not cs.get('prob'), k + ':failure', f.loc,
                          'reports failure although it has modified %s' % ', '.join(sorted(cs.get('prob', ()))))
            elif f.short == 'AddLinearCost':
                R.verdict(app == 0, k + ':success', f.loc, 'adds a constraint')
            else:
                R.verdict(app == 1, k + ':success', f.loc, 'reports success although %d constraints were added' % app)
    R.floor('program methods that add constraints or costs', n, 6)


def excludes(facts, c):
    """The facts rule out that the mark c was already set (one)."""
    if facts.eval(tobool(c)) is False:
        return True
    g = facts.copy()
    if not g.assume(eq0(sub(c, ONE)), True) or not g.consistent():
        return True
    for t, v in facts.lit.items():
        if t.op in ('fge0', 'eq0') and len(t.a) == 1:
            u = subst(t.a[0], {c: ONE})
            if isc(u) and ((cval(u) >= 0) if t.op == 'fge0' else (cval(u) == 0)) != v:
                return True
    return False


def unique(P, R):
    """A variable list is accepted only if every entry is in range and occurs once."""
    fs = [f for f in P.fns.values() if f.name == 'conex::IsUnique' and f.body is not None]
    if not fs:
        R.und('variable list', '', 'validation function not found')
        return
    f = fs[0]
    N, X = mk('p', f.params[0]['n']), f.params[1]['n']
    backs = {}

    class Cl(Client):
        def on_loop_back(self, I, st):
            if not I.mute:
                backs.setdefault(getattr(I, 'nloop', 0), []).append(st.fork())
    try:
        outs = Interp(P, Cl()).run(f)
    except (Undecided, RecursionError) as e:
        R.und('variable list', f.loc, str(e))
        return
    rng, dup, counted = None, None, False
    for l, sts in backs.items():
        for st in sts:
            xs = {x for t in list(st.facts.ge) + list(st.facts.lit) for x in subterms(t)
                  if x.op == 'i' and x.a[0].op == 'e' and mentions(x.a[0].a[0], lambda y: y is mk('p', X) or y.op == 'p' and y.a[0] == X)}
            r = any(st.facts.entails_ge0(x) and st.facts.entails_ge0(sub(sub(N, ONE), x)) for x in xs)
            rng = r if rng is None else rng and r
            # counters or marks indexed by the entry, as they were before this iteration
            cnt = {x for t in list(st.facts.ge) + list(st.facts.lit) for x in subterms(t)
                   if x not in xs and x.op in ('i', 'get', 'lv', 'var') and mentions(x, lambda y: y in xs)}
            if cnt:
                d = any(excludes(st.facts, c) for c in cnt)
                counted = counted or any(t.op == 'fge0' for t in st.facts.lit)
                dup = d if dup is None else dup and d
    if rng is None:
        R.und('variable list:range', f.loc, 'no loop over the list')
    else:
        R.verdict(True if rng else False if len(backs) == 1 else None, 'variable list:range', f.loc, 'a variable outside [0, N) is accepted')
        R.verdict(True if dup else False if dup is False and len(backs) == 1 and counted else None, 'variable list:once', f.loc, 'a repeated variable may be accepted')
    acc = [o for o in outs if o.kind == 'ret' and o.st.facts.eval(tobool(o.val)) is not False]
    R.verdict(bool(acc), 'variable list:accepts', f.loc, 'every list is rejected')


def check(P, R):
    adders(P, R)
    setters(P, R)
    program_level(P, R)
    unique(P, R)
