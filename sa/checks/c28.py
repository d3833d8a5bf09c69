from ..engine import LOCOPS
from ..steps import *
from .c12 import opts, SCRATCH, simplek

TECHNIQUE = 'alias and value analysis of the member that the dual-variable interface reads, against the iterate after every operation that changes it'
RULE = ('The interface copies workspace()->W. After SetIdentity, TakeStep and an affine PrepareStep, that member is the iterate itself, or a '
        'view of exactly the storage (first matrix, rank x rank) that the iterate then has, or has been assigned from it. An affine '
        'PrepareStep leaves an iterate that depends on the step that was passed, and does not change the iterate of the line otherwise.')

from ..terms import BY_ID, pdict


def entry(f, affine):
    st = opts(f, affine)
    if affine:
        # as in the last step of a solve: no multiple of the identity, no affine term
        for p in f.params:
            if 'StepOptions' in f.tu.t(p['t'])['s']:
                for w in ('e_weight', 'c_weight'):
                    st.write(mk('f', mk('pt', mk('p', p['n'] or 'options')), w), ZERO)
    return st


def parts(v, c=1):
    """A value as a sum: [(coefficient, product as a list of terms)]."""
    if v.op == 'call' and isinstance(v.a[0], str):
        n = v.a[0].split('::')[-1].split('<')[0]
        if n == 'Add' and len(v.a) == 3:
            return parts(v.a[1], c) + parts(v.a[2], c)
        if n == 'ScalarMultiply' and len(v.a) == 3 and isc(v.a[2]):
            return parts(v.a[1], c * cval(v.a[2]))
    out = []
    for m, k in pdict(v).items():
        ts = [BY_ID(i) for i, p in m for _ in range(p)]
        if len(ts) == 1 and ts[0] is not v:
            out += parts(ts[0], c * k)
        else:
            out.append((c * k, ts))
    return out


SCALES = ('b_scaling_', 'c_scaling_', 'sqrt_inv_mu')
WPATH = ('workspace_', 'W')


def check(P, R):
    n = 0
    for k, ops in sorted(kinds(P).items()):
        K = simplek(k)
        if 'SetIdentity' not in ops or 'TakeStep' not in ops:
            continue
        got = {}
        for op, aff in (('SetIdentity', None), ('TakeStep', 0), ('PrepareStep', 1)):
            f = ops.get(op)
            if f is None:
                continue
            cl = Eff(f.params[0]['n'] or 'arg0', SCRATCH)
            try:
                got[op] = f, cl, rets(Interp(P, cl).run(f, None, None, entry(f, aff) if aff is not None else State()))
            except (Undecided, RecursionError) as x:
                R.und('%s:%s' % (K, op), f.loc, str(x))
        if 'SetIdentity' not in got or 'TakeStep' not in got:
            continue
        iterate = set()
        for op in ('SetIdentity', 'TakeStep'):
            f, cl, outs = got[op]
            iterate |= {p for p, v, o, wr, fn, l in cl.writes if p and p[0] != 'arg' and role(p, SCRATCH) == 'iterate' and o not in ('out', 'init')}
        if iterate > {WPATH}:
            iterate.discard(WPATH)
        if not iterate:
            continue            # no cone: there is no iterate to report
        n += 1
        for op, (f, cl, outs) in sorted(got.items()):
            root = mk('pt', mk('p', cl.root))
            wrote = {p for p, v, o, wr, fn, l in cl.writes if p in iterate}
            if op == 'PrepareStep' and 'PrepareStep' in got:
                affine(R, K, f, cl, outs, iterate)
            if not wrote:
                continue
            key = '%s:%s%s:the dual variable is the iterate' % (K, op, ' affine' if op == 'PrepareStep' else '')
            if iterate == {WPATH}:
                R.ok(key, f.loc, 'the iterate is what is read')
                continue
            view = mk('f', mk('f', root, 'workspace_'), 'W')
            res, why = [], ''
            for o in outs:
                r, w = follows(o, root, view, iterate)
                res.append(r)
                why = w if r is False or not why else why
            R.verdict(True if all(r is True for r in res) else False if any(r is False for r in res) else None, key, f.loc, why)
    scaled(P, R)
    copied(P, R)
    R.floor('constraint kinds with an iterate', n, 3)


def follows(o, root, view, iterate):
    """Does the reported member follow the iterate at the end of a path?"""
    own = o.st.read(mk('f', view, 'data'))
    W = mk('f', root, 'W')
    if ('W',) in iterate:
        if ('W',) not in o.st.cs.get('written', ()):
            return True, ''
        old = mk('i', mk('f', view, 'data'))
        res = []
        for f, v in cases(o.st.facts, own):
            while v.op in ('f', 'fv') and v.a[0].op == 'map' and v.a[1] == 'data':
                m = v.a[0]
                if not buffer_of(m.a[0], W):
                    return None, 'the view refers to %s' % show(m.a[0])[:80]
                if not (len(m.a) >= 3 and m.a[1] is m.a[2]):
                    return None, 'extents of the view'
                res.append(True)
                break
            else:
                if v is old:
                    # the old view is kept only where it already refers to the storage of the iterate
                    same = [c for c in eqs(own) if old in c.a and any(buffer_of(x, W) for x in c.a[1:] if x is not old)]
                    res.append(any(f.eval(c) is True for c in same))
                else:
                    res.append(None)
        if all(r is True for r in res):
            return True, ''
        return (False if any(r is False for r in res) else None), 'the iterate got new storage, but the member that is reported still refers to the old one'
    # the iterate lives in other members of the workspace: the reported one has to be assigned from them
    wr = o.st.cs.get('written', ())
    if WPATH not in wr:
        return False, 'the iterate (%s) is changed, but the member that is reported is not' % ', '.join(sorted(p[-1] for p in iterate))
    whole, v = [], o.st.readagg(view)
    while v.op == 'upd':
        whole.append(v.a[-1])
        v = v.a[0]
    whole.append(v)
    res, ws = [], mk('f', root, 'workspace_')
    for p in sorted(iterate):
        m = mk('f', ws, p[-1])
        ptr, dat = o.st.read(m), o.st.read(mk('f', m, 'data'))
        now = {o.st.read(mk('pt', ptr)), o.st.read(mk('mat', dat))}
        e = State()
        old = {e.read(mk('pt', e.read(m))), e.read(mk('mat', e.read(mk('f', m, 'data')))), e.readagg(m)}
        if any(x in now and (x not in old or p not in wr) for x in whole):
            res.append((True, ''))
        elif p in wr and any(x in old for x in whole):
            res.append((False, 'the member that is reported gets the %s from before the change' % p[-1]))
        elif p in wr and len(whole) - 1 < len(iterate) and whole[-1].op in ('i', 'mat'):
            res.append((False, 'the member that is reported does not get all of the iterate'))
        elif p in wr and any(other(x, root, iterate) for x in whole[:-1]):
            res.append((False, 'the member that is reported gets something else than the iterate'))
        else:
            res.append((None, 'the value of %s that is reported was not recognised' % p[-1]))
    if all(r is True for r, w in res):
        return True, ''
    return sorted((x for x in res if x[0] is not True), key=lambda x: x[0] is None)[0]


def other(x, root, iterate):
    """The value that another member of the constraint had at entry."""
    p = fieldof(x.a[0], root.a[0].a[0]) if x.op == 'i' and hasattr(x.a[0], 'op') else None
    return bool(p) and p not in iterate


def buffer_of(p, W):
    """Pointer to the first entry of the first component of the iterate."""
    if p.op != '&':
        return False
    t = p.a[0]
    if t.op not in ('buf', 'e', 'f', 'view') and not t.a:
        return False
    seen = t
    while hasattr(seen, 'op') and seen.op in ('buf', 'i', 'e', 'mat'):
        if seen.op == 'e' and not (len(seen.a) > 1 and (seen.a[1] == 0 or hasattr(seen.a[1], 'op') and isc(seen.a[1]) and cval(seen.a[1]) == 0)):
            return False
        if seen.a[0] is W:
            return True
        seen = seen.a[0]
    return seen is W


def eqs(v):
    return [x for x in subterms(v) if x.op == 'b' and x.a and x.a[0] == 'eqp']


def affine(R, K, f, cl, outs, iterate):
    y = [p['n'] for p in f.params if 'Ref' in f.tu.t(p['t'])['s'] or 'Eigen' in f.tu.t(p['t'])['s']]
    wrote = [(p, v) for p, v, o, wr, fn, l in cl.writes if p in iterate and o not in ('init', 'out')]
    key = '%s:affine step reaches the iterate' % K
    if not wrote:
        R.bad(key, f.loc, 'an affine step does not change the iterate')
        return
    if not y:
        return
    for p in sorted({p for p, v in wrote}):
        vals = [v for q, v in wrote if q == p]
        dep = any(x.op == 'p' and x.a[0] in y for v in vals for x in subterms(v))
        blind = any(x.op in ('lp', 'fresh', 'havoc') for v in vals for x in subterms(v))
        R.verdict(True if dep else None if blind else False, '%s:%s' % (key, p[-1]), f.loc,
                  'the %s that an affine step leaves does not depend on the step' % p[-1])
        for v in vals[-1:]:
            ps = parts(v)
            old = [(c, t) for c, t in ps if len(t) == 1 and t[0].op in ('mat', 'i') and fieldof(t[0], cl.root) == p]
            rest = [(c, t) for c, t in ps if (c, t) not in old]
            known = ('poly', 'call', 'i', 'mat', 'f', 'pt', 'p', 'mm', 'get', 'rows', 'cols', 'c')
            if not old and not (len(ps) > 1 or v.op in ('mat', 'i') or all(x.op in known and (x.op != 'call' or x.a[0] == 'cwiseProduct') for x in subterms(v))):
                R.und('%s:%s:adds to the iterate' % (key, p[-1]), f.loc, 'not a sum')
                continue
            why = None
            if sum(c for c, t in old) != 1:
                why = 'the %s that an affine step leaves is not the old one plus a multiple of the step' % p[-1]
            elif not blind and any(not any(x.op == 'p' and x.a[0] in y for w in t for x in subterms(w)) for c, t in rest):
                why = 'a part of the change of %s does not depend on the step' % p[-1]
            elif len(rest) == 1 and len(rest[0][1]) == 1 and rest[0][0] != 1:
                why = 'the change of %s is multiplied by %s' % (p[-1], rest[0][0])
            R.verdict(why is None, '%s:%s:adds to the iterate' % (key, p[-1]), f.loc, why or '')


class Dual(Trip):
    def __init__(self, f):
        super().__init__()
        self.f, self.copied, self.final, self.index = f, [], [], []

    def on_call(self, I, st, node, name, obj, args):
        if name == 'conex::Constraint::get_dual_variable' and not I.mute:
            e = obj
            while e is not None and e.op in ('f', 'pt', 'i', '&'):
                e = e.a[0]
            self.index.append((st.facts.copy(), e, I.fr.fn.loc))

    def on_write(self, I, st, loc, val, node, op):
        x = loc
        while hasattr(x, 'op') and x.op in ('mat', 'f', 'i', 'pt', 'e', 'view', 'buf'):
            if x.op == 'p' or not x.a:
                break
            x = x.a[0]
        if x.op == 'p' and x.a[0] == self.f.params[1]['n'] and op != 'out' and not I.mute:
            self.final.append((loc, val))


def scaled(P, R):
    """Program::GetDualVariable undoes the scaling of the solve."""
    n = 0
    for f in P.named('conex::Program::GetDualVariable'):
        if f.body is None or len(f.params) != 2 or not f.params[1]['n']:
            continue
        cl = Dual(f)
        key = 'GetDualVariable@%d' % n
        try:
            outs = Interp(P, cl).run(f)
        except (Undecided, RecursionError) as x:
            R.und(key, f.loc, str(x))
            continue
        n += 1
        for facts, e, loc in cl.index:
            ix = e.a[1] if e is not None and e.op == 'e' and len(e.a) > 1 else None
            R.verdict(None if ix is None else equal(facts, ix, mk('p', f.params[0]['n'])), key + ':constraint', loc,
                      'the dual variable of another constraint is returned')

        vals = final(outs, cl)
        divided = [v for v in vals if any(x.op == 'f' and x.a[1] in SCALES for x in subterms(v[1]))]
        for loc, val in divided or vals:
            m = pdict(val)
            if len(m) != 1:
                R.und(key + ':scaling', f.loc, 'not a product')
                continue
            (mono, c), = m.items()
            names, rec, good = [], None, c == 1
            for i, p in mono:
                t = BY_ID(i)
                if t.op == 'inv' and t.a[0].op == 'i' or t.op == 'i' and any(x.op == 'f' and x.a[1] in SCALES for x in subterms(t)):
                    l = t.a[0].a[0] if t.op == 'inv' else t.a[0]
                    p = p if t.op == 'inv' else -p
                    last = l
                    while last.op in ('e', 'mat', 'pt', 'i') and last.a and hasattr(last.a[0], 'op'):
                        if last.op == 'e':
                            rec = last
                        last = last.a[0]
                    names.append((last.a[1] if last.op == 'f' else '?', p))
                elif fieldless(t, f.params[1]['n']):
                    names.append(('value', p))
                else:
                    names.append(('other', p))
            ok = sorted(names) == [('b_scaling_', 1), ('sqrt_inv_mu', 1), ('value', 1)] and good
            simplep = all(x[0] in SCALES + ('value',) for x in names)
            R.verdict(True if ok else False if simplep else None, key + ':scaling', f.loc,
                      'the iterate is not divided once by the final 1/sqrt(mu) and once by the scaling of b')
            if rec is not None and ok:
                pos = rec.a[1]
                num = [x for x in subterms(pos) if x.op == 'i' and x.a[0].op == 'f' and x.a[0].a[1] == 'num_iter']
                R.verdict(None if not num else sub(pos, num[0]) is C(-1), key + ':last iteration', f.loc, 'not the value of the last iteration')


def final(outs, cl):
    """What the caller's vector holds at the end of every path on which it was changed."""
    locs = {l for l, v in cl.final}
    got = []
    for o in rets(outs):
        for l in locs:
            for f, v in cases(o.st.facts, o.st.read(l)):
                if (l, v) not in got and v is not State().read(l):
                    got.append((l, v))
    return got


def fieldless(t, name):
    while hasattr(t, 'op') and t.op in ('mat', 'i', 'pt', 'f', 'buf', 'e', '&') and t.a:
        t = t.a[0]
    return hasattr(t, 'op') and t.op == 'p' and t.a[0] == name


class Copy(Trip):
    def __init__(self):
        super().__init__()
        self.got = []

    def on_call(self, I, st, node, name, obj, args):
        if (name or '').split('::')[-1].split('<')[0] in ('memcpy', 'memmove') and len(args) == 3 and not I.mute:
            self.got.append((st.facts.copy(), args))


def copied(P, R):
    """What the interface copies is the reported member, all of it."""
    ops = {}
    for f in P.fns.values():
        if f.body is not None and (f.rec or '').startswith('conex::Constraint::Model') and f.short in ('do_get_dual_variable', 'do_dual_variable_size'):
            ops.setdefault(f.name.rsplit('::', 1)[0], {})[f.short] = f
    for rec, fs in sorted(ops.items()):
        if len(fs) != 2:
            continue
        key = rec.split('Model', 1)[-1].strip('<>').replace('conex::', '').replace('(anonymous namespace)::', '') + ':copy'
        get, size = fs['do_get_dual_variable'], fs['do_dual_variable_size']
        cl = Copy()
        try:
            outs = rets(Interp(P, cl).run(get))
            sizes = rets(Interp(P, Trip()).run(size))
        except (Undecided, RecursionError) as x:
            R.und(key, get.loc, str(x))
            continue
        if len(cl.got) != 1 or len(outs) != 1 or len(sizes) != 1 or sizes[0].val is None:
            R.und(key, get.loc, 'not a single copy')
            continue
        facts, (to, src, n) = cl.got[0]
        mem = {x.a[1] for x in subterms(src) if x.op == 'f' and x.a[0].op == 'f' and x.a[0].a[1] == 'workspace_'}
        R.verdict(to is mk('p', get.params[0]['n'] or 'arg0'), key + ':to the caller', get.loc, 'not to the start of the memory of the caller')
        R.verdict(True if mem == {'W'} else False if mem else None, key + ':from', get.loc, 'another member of the workspace is copied: %s' % ', '.join(sorted(mem)))
        R.verdict(equal(facts, n, mul(C(8), sizes[0].val)), key + ':all of it', get.loc, 'the number of bytes copied is not that of the reported size')
        dims = set()
        for x in subterms(sizes[0].val):
            if x.op in ('rows', 'cols'):
                m = x.a[0]
                while m.op in ('i', 'mat', 'pt') and m.a and hasattr(m.a[0], 'op'):
                    m = m.a[0]
                dims.add((x.op, m.a[1] if m.op == 'f' else '?'))
        ok = dims == {('rows', 'W'), ('cols', 'W')} and len(pdict(sizes[0].val)) == 1
        only = all(BY_ID(i).op in ('rows', 'cols') for m in pdict(sizes[0].val) for i, p in m)
        R.verdict(True if ok else False if dims and only and all(d[1] != '?' for d in dims) else None, key + ':size', size.loc, 'the size is not that of the member that is reported')
