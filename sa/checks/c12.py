from ..engine import LOCOPS
from ..steps import *

TECHNIQUE = 'effect analysis of every operation of every constraint kind: members written, members read before they are written, coverage of the iterate'
RULE = ('No operation of a constraint writes its problem data. Line search, slack eigenvalues, Schur assembly and rank do not write the '
        'iterate. SetIdentity and TakeStep each write the whole iterate on every path; what SetIdentity writes does not depend on the old '
        'iterate. No value that an operation writes or returns depends on what scratch members held before, except that TakeStep reads '
        'members that the non-affine PrepareStep writes on every path. In the core solve a prepared non-affine step is taken, or the '
        'iterate is reset, before the constraints are used again.')

SCRATCH = ('WS', 'minus_s', 'A_dot_x_', 'lambda_')
QUERIES = ('GetWeightedSlackEigenvalues', 'PerformLineSearch', 'ConstructSchurComplementSystem', 'Rank')
NOT_OPS = ('Initialize',)


def name(p):
    return '.'.join(x for x in p if x != 'workspace_')


def simplek(k):
    return k.replace('conex::', '').replace('(anonymous namespace)::', '')


def opts(f, affine):
    """Entry state with the affine flag of the step options set."""
    st = State()
    for p in f.params:
        t = f.tu.t(p['t'])
        if 'StepOptions' in t['s']:
            st.write(mk('f', mk('pt', mk('p', p['n'] or 'options')), 'affine'), ONE if affine else ZERO)
    return st


def analyse(P, f, affine=None):
    root = f.params[0]['n'] or 'arg0'
    cl = Eff(root, SCRATCH)
    st = opts(f, affine) if affine is not None else None
    args = [mk('pt', mk('p', root))] if f.short == 'Rank' else None
    return cl, Interp(P, cl).run(f, args, None, st) if st is not None else Interp(P, cl).run(f, args)


def stale(cl):
    """Scratch members read before they are written: {member: (function, what depends on it)}."""
    out = {}
    looped = set()
    for p, v, op, wr, fn, loops in cl.writes:
        if op == 'out':
            continue
        for r in reads(v, cl.root) - wr - looped:
            if role(r, SCRATCH) == 'scratch' and not any(w == () or w == ('workspace_',) for w in wr):
                out.setdefault(r, (fn, 'the argument %s' % p[1] if p[0] == 'arg' else name(p)))
        if loops:
            looped.add(p)
    return out


def effects(R, key, cl, f, queries):
    for r, what in (('data', 'the problem data'), ('iterate', 'the iterate')):
        if r == 'iterate' and not queries:
            continue
        hit = [(p, fn) for p, v, op, wr, fn, loops in cl.writes if p and p[0] != 'arg' and role(p, SCRATCH) == r and op != 'out']
        soft = [(p, fn) for p, v, op, wr, fn, loops in cl.writes if p and p[0] != 'arg' and role(p, SCRATCH) == r and op == 'out']
        R.verdict(False if hit else None if soft else True, '%s:leaves %s' % (key, what), (hit or soft or [(0, f.loc)])[0][1],
                  '%s writes %s' % (f.short, ', '.join(sorted({name(p) for p, _ in hit or soft}))))


def written_all(outs):
    return [o.st.cs.get('written', frozenset()) for o in rets(outs)]


class Seq(Trip):
    """Typestate of a prepared step in the core solve."""
    OPS = set(OPS) | {'Assemble', 'AssembleSchurComplementResiduals'}

    def __init__(self, root):
        super().__init__()
        self.root, self.bad, self.n, self.taken = root, [], 0, 0

    def opaque(self, fn):
        return fn is not self.root and (fn.short in self.OPS or fn.short in (
            'ComputeMuFromLineSearch', 'ComputeMuFromDivergence', 'Factor', 'Solve', 'SolveInPlace', 'Initialize', 'ApplyLimits'))

    def on_call(self, I, st, node, nm, obj, args):
        s = nm.split('::')[-1].split('<')[0]
        if s == 'PrepareStep':
            if st.cs.get('prepared') == 1:
                self.bad.append((I.fr.fn.loc, 'another step is prepared'))
            a = None
            for v in args:
                for loc in ([v.a[0]] if v.op == '&' else [v]):
                    x = st.read(mk('f', loc, 'affine')) if loc.op in LOCOPS else None
                    if x is not None and isc(x):
                        a = cval(x)
            st.cs['prepared'] = 1 if a == 0 else 0
            if not I.mute:
                self.n += 1
        elif s in ('TakeStep', 'SetIdentity'):
            st.cs['prepared'] = 0
            if not I.mute:
                self.taken += 1
        elif s in ('Assemble', 'GetWeightedSlackEigenvalues', 'PerformLineSearch', 'ComputeMuFromLineSearch', 'ComputeMuFromDivergence'):
            if st.cs.get('prepared') == 1 and not I.mute:
                self.bad.append((I.fr.fn.loc, '%s uses the constraints' % s))


def check(P, R):
    n = 0
    for k, ops in sorted(kinds(P).items()):
        K = simplek(k)
        got = {}
        for op, f in sorted(ops.items()):
            for aff in ((0, 1) if op == 'PrepareStep' else (0,) if op == 'TakeStep' else (None,)):
                key = '%s:%s%s' % (K, op, '' if aff is None or op == 'TakeStep' else ' affine' if aff else ' geodesic')
                try:
                    cl, outs = analyse(P, f, aff)
                except (Undecided, RecursionError) as x:
                    R.und(key, f.loc, str(x))
                    continue
                n += 1
                got[(op, aff)] = (cl, outs)
                effects(R, key, cl, f, op in QUERIES)
                if op != 'TakeStep':
                    s = stale(cl)
                    for o in rets(outs):
                        for r in reads(o.val, cl.root):
                            if role(r, SCRATCH) == 'scratch' and r not in o.st.cs.get('written', ()):
                                s.setdefault(r, (f.loc, 'the result'))
                    R.verdict(not s, key + ':no stale scratch', (list(s.values()) or [(f.loc,)])[0][0],
                              'depends on what %s held before' % ', '.join('%s (%s)' % (name(r), s[r][1]) for r in sorted(s)))
        ident, take, prep = got.get(('SetIdentity', None)), got.get(('TakeStep', 0)), got.get(('PrepareStep', 0))
        if ident and take:
            it = set()
            for cl, outs in (ident, take):
                it |= {p for p, v, op, wr, fn, l in cl.writes if p and p[0] != 'arg' and role(p, SCRATCH) == 'iterate' and op != 'out'}
            for (cl, outs), op in ((ident, 'SetIdentity'), (take, 'TakeStep')):
                f = ops[op]
                for p in sorted(it):
                    ok = all(p in w for w in written_all(outs))
                    if not ok and any(q == p and l for q, v, o, wr, fn, l in cl.writes):
                        ok = None           # written in a loop
                    if ok and not all(p in o.st.cs.get('whole', ()) for o in rets(outs)):
                        ok = None           # extent of the parts is not decided
                    R.verdict(ok, '%s:%s:writes %s' % (K, op, name(p)), f.loc, '%s of the iterate is not updated on some path of %s' % (name(p), op))
            cl = ident[0]
            for p, v, op, wr, fn, l in cl.writes:
                if p in it:
                    old = {r for r in reads(v, cl.root) - wr if r in it}
                    R.verdict(not old, '%s:SetIdentity:%s from scratch' % (K, name(p)), fn, 'the identity depends on what the iterate was before')
        if take and prep:
            ready = None
            for w in written_all(prep[1]):
                ready = set(w) if ready is None else ready & w
            s = stale(take[0])
            some = set().union(*written_all(prep[1])) if rets(prep[1]) else set()
            for r in sorted(s):
                loop = any(q == r and l for q, v, o, wr, fn, l in prep[0].writes)
                R.verdict(r in (ready or ()) or () in (ready or ()) or (None if loop else False), '%s:TakeStep:%s is prepared' % (K, name(r)), s[r][0],
                          'TakeStep reads %s, which PrepareStep does not write%s' % (name(r), ' on every path' if r in some else ''))
    # what is computed through virtual functions of a constraint
    for r in P.records.values():
        for m in r['methods']:
            f = P.fns.get(m['fn']) if m.get('ov') else None
            if not f or f.body is None or not P.is_repo(f) or 'Model<' in f.name or f.short.startswith('~') or f.short in NOT_OPS:
                continue
            if not (f.rec or '').endswith(('Constraint', 'Epigraph', 'ConstraintBase')):
                continue
            key = '%s::%s' % (simplek(f.rec), f.short)
            cl = Eff('this', SCRATCH)
            try:
                Interp(P, cl).run(f)
            except (Undecided, RecursionError) as x:
                R.und(key, f.loc, str(x))
                continue
            n += 1
            effects(R, key + '@%d' % len(f.params), cl, f, True)
            first = {}
            for p, v, op, wr, fn, l in cl.writes:
                if p and p[0] == 'arg' and p[1] != 'this' and p[1] not in first and op != 'out':
                    first[p[1]] = any(x.op == 'mat' and any(y.op == 'p' and y.a[0] == p[1] for y in subterms(x)) for x in subterms(v))
            for a, dep in sorted(first.items()):
                R.verdict(not dep, '%s:%s from scratch' % (key, a), f.loc, 'what is stored in %s depends on what it held before' % a)
    for f in P.named('conex::Solve'):
        if f.body is None or not any('SolverConfiguration' in f.tu.t(p['t'])['s'] for p in f.params) or not P.is_repo(f):
            continue
        cl = Seq(f)
        try:
            outs = Interp(P, cl).run(f)
        except (Undecided, RecursionError) as x:
            R.und('Solve:prepared step', f.loc, str(x))
            continue
        if not cl.n:
            continue
        left = [o for o in rets(outs) if o.st.cs.get('prepared') == 1]
        R.verdict(not cl.bad and not left, 'Solve@%d:a prepared step is taken' % len(f.params), cl.bad[0][0] if cl.bad else f.loc,
                  'a step has been prepared but not taken, and %s' % (cl.bad[0][1] if cl.bad else 'the solve returns'))
    R.floor('operations analysed', n, 10)
