from ..util import *
from ..lib import sizeloc
from .. import api as A

TECHNIQUE = 'null-pointer typestate dataflow over every public entry point, plus composition of abstract post-states for the handle check'
RULE = ('For every public entry point and every pointer parameter: on every path on which that pointer is null, nothing '
        'reachable from it is accessed, the program is not modified and the returned value is the failure value. For '
        'every abstract state a handle can be in (freshly created, variables set, constraint added, solved, constraint '
        'added after a solve) every entry point that adds a constraint has a path that accepts the handle.')


def null_params(P, R):
    n = 0
    for f in A.entries(P):
        if A.kind(f) == 'ptr':
            continue
        for p in A.ptr_params(f):
            pv = mk('p', p['n'])
            b = mk('pt', pv)
            k = '%s(%s=null)' % (f.name, 'handle' if b is A.Api(f).h else p['n'])
            n += 1
            try:
                cl, I, outs = A.run(P, f, [(eq0(pv), True)])
            except (Undecided, RecursionError) as e:
                R.und(k, f.loc, str(e))
                continue
            hit = None
            for s, base, loc, kind, w in cl.acc:
                if base is b and s.facts.eval(eq0(pv)) is True:
                    hit = hit or (w or f.loc, kind, loc)
            if hit:
                R.bad(k + ':access', hit[0], '%s through the null pointer (%s)' % (hit[1], show(hit[2])))
            else:
                R.ok(k + ':access', f.loc)
            if not outs:
                R.und(k + ':returns', f.loc, 'no outcome')
            for o in outs:
                if o.kind != 'ret':
                    R.und(k + ':returns', f.loc, 'leaves by exception')
                    continue
                fail = A.is_failure(f, o.st, o.val)
                R.verdict(fail, k + ':returns', f.loc, 'returns %s for a null pointer; failure is %s' % (show(o.val), A.FAIL[A.kind(f)]))
                if o.st.cs.get('mut'):
                    R.bad(k + ':unmodified', f.loc, 'the program is modified although %s is null' % p['n'])
                else:
                    R.ok(k + ':unmodified', f.loc)
    R.floor('entry point / pointer parameter pairs', n, 30)


def step(P, f, st, handle, extra=()):
    """Outcomes of an entry point from a given state, other pointers non-null."""
    cl = A.Api(f, handle)
    I = Interp(P, cl)
    I.ntmp = 100000 + len(st.store) * 7
    I.nloop = 1000 + len(st.store)
    s = st.fork()
    s.cs = {}
    args = []
    for p in f.params:
        hp = A.handle_param(f)
        if hp is not None and p['n'] == hp['n']:
            args.append(handle)
            continue
        args.append(mk('p', f.name + '.' + p['n']))
        if f.tu.t(p['t'])['k'] == 'ptr':
            s.assume(eq0(args[-1]), False)
    return [o for o in I.run(f, args=args, st=s) if o.kind == 'ret']


def accepted(f, outs):
    return [o for o in outs if A.is_failure(f, o.st, o.val) is not True]


def refine(name, st, h):
    """Cases of a state: number of constraints, and every condition its sizes and flags depend on. A handle must be
    accepted in each of them, not only in some."""
    b = deref(h)
    n = st.read(sizeloc(mk('f', mk('f', b, 'kkt_system_manager_'), 'eqs')))
    out = []
    for what, conds in ((', no constraint', [(eq0(n), True)]), (', one constraint', [(eq0(sub(n, ONE)), True)]), (', several constraints', [(ge0(sub(n, C(2))), True)])):
        s = st.fork()
        if not all(s.assume(t, v) for t, v in conds) or not s.facts.consistent():
            continue
        todo = [s]
        for loc in (sizeloc(mk('f', b, 'workspaces')), mk('f', b, 'is_initialized')):
            nxt = []
            for x in todo:
                for fc, v in cases(x.facts, x.read(loc)):
                    if any(isc(d) and cval(d) < 0 for p in fc.ge for q in fc.ge for d in (add(p, q),)):
                        continue                # no such state
                    y = x.fork()
                    y.facts = fc.copy()
                    y.write(loc, v)
                    nxt.append(y)
            todo = nxt[:16]
        out += [(name + what, x, h) for x in todo]
    return out


def handles(P, R):
    ents = {f.name: f for f in A.entries(P)}
    adders = [f for f in ents.values() if A.kind(f) in ('id', 'status') and A.handle_param(f) is not None and
              (f.name.startswith('CONEX_New') or f.name.startswith('CONEX_Add')) and f.name != 'CONEX_AddLinearInequalities']
    upd = [f for f in ents.values() if f.name.startswith('CONEX_Update')]
    states = []
    # fresh
    I = Interp(P)
    for o in I.run(ents['CONEX_CreateConeProgram']):
        states.append(('created', o.st, o.val))
    h0 = states[0][2]
    setv = ents['CONEX_SetNumberOfVariables']
    o1 = accepted(setv, step(P, setv, states[0][1], h0))
    R.verdict(bool(o1), 'accepts:SetNumberOfVariables:created', setv.loc, 'a freshly created handle is rejected')
    if o1:
        states.append(('variables set', o1[0].st, h0))
    # solved: any program whose workspaces have been laid out
    iw = [f for f in P.fns.values() if f.name == 'conex::Program::InitializeWorkspace' and f.body is not None]
    hp = mk('p', 'handle')
    if iw:
        I = Interp(P)
        try:
            for o in I.run(iw[0], this=mk('pt', hp)):
                if o.kind == 'ret':
                    o.st.assume(eq0(hp), False)
                    states.append(('solved', o.st, hp))
                    J = Interp(P)
                    J.ntmp = J.nloop = 5000
                    for o2 in J.run(iw[0], this=mk('pt', hp), st=o.st.fork()):
                        if o2.kind == 'ret':
                            states.append(('solved twice', o2.st, hp))
        except Undecided as e:
            R.und('solved state', iw[0].loc, str(e))
    else:
        R.und('solved state', '', 'workspace layout not found')
    n = 0
    more = []
    states = [x for s in states for x in refine(*s)]
    for name, st, h in states:
        for f in adders + (upd if name.startswith('solved,') and not name.endswith('no constraint') else []):
            try:
                acc = accepted(f, step(P, f, st, h))
            except Undecided as e:
                R.und('accepts:%s:%s' % (f.name, name), f.loc, str(e))
                continue
            n += 1
            R.verdict(bool(acc), 'accepts:%s:%s' % (f.name, name), f.loc,
                      'every path rejects a valid handle (%s)' % name)
            if acc and f in adders:
                grown = [o for o in acc if o.st.cs.get('app') == 1] or acc
                more.append((name + ', then ' + f.name, grown[0].st, h))
    for name, st, h in more:
        for f in adders + upd:
            try:
                acc = accepted(f, step(P, f, st, h))
            except Undecided as e:
                R.und('accepts:%s:%s' % (f.name, name), f.loc, str(e))
                continue
            n += 1
            R.verdict(bool(acc), 'accepts:%s:%s' % (f.name, name), f.loc,
                      'every path rejects a valid handle (%s)' % name)
    R.floor('handle states / entry points', n, 40)


def check(P, R):
    null_params(P, R)
    handles(P, R)
