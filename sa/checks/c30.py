from ..util import *
from ..terms import _byid
from . import c06, c07
from .c09 import split, atoms as catoms

TECHNIQUE = 'symbolic dataflow of the cost and of the solution through the entry points and the core solve'
RULE = ('The cost that enters the Newton equations is the negated linear cost of the program, scaled by the scaling of b, and the c weight of a step '
        'is 1/sqrt(mu) times the scaling of c. Wherever the solve can report success, the memory of the caller holds the first entries of the '
        'final y divided exactly once by the final 1/sqrt(mu) and once by the scaling of c. Solve(b, ...) replaces the linear cost by -b, AddLinearCost adds its argument '
        'or fails without a change, ClearLinearCosts zeroes it; the entry points hand b and y on unchanged and return the verdict. On a cold start both scalings are 1.')

NAMES = ('b_scaling_', 'c_scaling_')


def fieldof(t):
    return t.a[1] if isinstance(t, T) and t.op in ('f', 'fv') and len(t.a) > 1 else None


def scale(st, name, *terms):
    """The current value of a scaling."""
    locs = [l for l in st.store if l.op == 'pt' and fieldof(l.a[0]) == name]
    if not locs:
        locs = list({x for t in terms for x in subterms(t) if x.op == 'pt' and fieldof(x.a[0]) == name})
    return st.read(locs[0]) if len(locs) == 1 else None


def lincost(t):
    """Is this the linear cost of the program?"""
    while isinstance(t, T) and t.op in ('i', 'mat', 'f', 'fv', 'lp', '&', 'get', 'pt'):
        if fieldof(t) == 'linear_cost_':
            return True
        if t.op == 'get':
            return False
        t = next((y for y in t.a if isinstance(y, T)), None)
    return False


class S(c07.Cl):
    def __init__(self, R):
        super().__init__(R)
        self.y, self.o, self.facts = None, None, []

    def opaque(self, fn):
        if fn.name.startswith('conex::WorkspaceStats') and fn.name.endswith('_scaling'):
            return False
        return fn.name == 'conex::Initialize' or super().opaque(fn)

    def add(self, I, key, ok, why):
        if not I.mute:
            self.facts.append((key, ok, why, I.fr.fn.loc))

    def direction(self, I, st, args):
        o = args[1]
        if st.facts.eval(tobool(self.opt(st, o, 'affine'))) is True or cval0(self.opt(st, o, 'affine')) == 1:
            return
        if not I.mute and I.fr.fn.name != 'conex::Solve':
            # per constraint: find the options and the variables of the solve in the callers
            pass
        k, c = self.opt(st, o, 'inv_sqrt_mu'), self.opt(st, o, 'c_weight')
        if not I.mute:
            self.o = o
        cs, bs = scale(st, 'c_scaling_', c, k), None
        if cs is None:
            self.add(I, 'c weight', None, 'scaling of c not recognised')
        else:
            self.add(I, 'c weight', c07.same(st.facts, c, mul(k, cs)), 'the c weight is %s, not 1/sqrt(mu) times the scaling of c' % show(c)[:80])
        for f, rhs in self.system(I, st, args[2], 'PrepareStep'):
            w, rest = c07.weights(rhs)
            if w is None:
                continue
            bs = scale(st, 'b_scaling_', rhs)
            if not rest:
                self.add(I, 'cost', False, 'the cost is missing from the right-hand side')
            if len(rest) > 1:
                self.add(I, 'cost', None, 'several terms besides the residual vectors')
                continue
            for r in rest:
                if bs is None:
                    self.add(I, 'cost scale', None if not any(fieldof(x) == 'c_scaling_' for x in subterms(r)) else False, 'the cost does not carry the scaling of b but %s' % show(r)[:60])
                    continue
                q = mul(mul(r, inv(k)), inv(bs))
                d = pdict(q)
                if len(d) != 1:
                    self.add(I, 'cost', None, 'cost is %s' % show(q)[:60])
                    continue
                (m, co), = d.items()
                left = [(_byid[i], p) for i, p in m]
                vec = [x for x, p in left if any(lincost(y) for y in subterms(x)) and x.op in ('upd', 'i', 'mat', 'get')]
                extra = [x for x, p in left if x not in vec]
                if extra or co not in (1, -1):
                    und = any(x.op in ('call', 'bigmul', 'poly') for x in extra) or not vec and not any(x.op in ('inv', 'lp', 'i', 'ite') for x in extra)
                    self.add(I, 'cost scale', None if und else False, 'the cost carries the factor %s besides 1/sqrt(mu) and the scaling of b' % (show(extra[0])[:60] if extra else co))
                    continue
                self.add(I, 'cost scale', True, '')
                self.add(I, 'cost', signof(vec[0], co) if vec else None, 'the cost is not the negated linear cost')
        I_y = args[2]
        if not I.mute:
            self.y = I_y


def cval0(t):
    return cval(t) if isc(t) else None


def signof(x, co):
    """Does a vector consist of the negated linear cost, followed by zeros?"""
    if x.op == 'upd':
        base, val = x.a[0], x.a[-1]
        if base.op not in ('Zero', 'zero') and not (base is ZERO):
            return None
        if x.a[1] in ('tail', 'bottomRows'):
            return False
        if x.a[1] not in ('head', 'topRows'):
            return None
        d = pdict(val)
    else:
        d = pdict(x)
    if len(d) != 1:
        return None
    (m, c), = d.items()
    if len(m) != 1 or m[0][1] != 1 or not lincost(_byid[m[0][0]]):
        return None
    return c * co == -1


def of_y(x, cl):
    """Is this the y that the last step was prepared from?"""
    if x in cl.sol:
        return True
    while x.op in ('lp', 'i'):
        x = x.a[1] if x.op == 'lp' else x.a[0]
    return x is cl.top[0] or x.op == 'mat' and cl.top[0].op == 'mat' and x.a[0] is cl.top[0].a[0]


def flat(t, asg, facts):
    """Decide the conditions inside a value."""
    for _ in range(60):
        mp = {}
        for x in subterms(t):
            if x.op == 'ite':
                r = truth(x.a[0], asg, facts)
                if not isinstance(r, T):
                    mp[x] = x.a[1] if r else x.a[2]
        if not mp:
            return t
        t = subst(t, mp)
    return t


def drop(t, locs):
    """The value apart from paths on which it was never set."""
    if t.op == 'ite':
        for x, y in ((t.a[1], t.a[2]), (t.a[2], t.a[1])):
            if x.op == 'i' and x.a[0] in locs:
                return drop(y, locs)
    return t


def truth(c, asg, facts):
    """Value of a condition under decided atoms; the first undecided atom otherwise."""
    if isc(c):
        return cval(c) != 0
    if c.op == 'not':
        r = truth(c.a[0], asg, facts)
        return r if isinstance(r, T) else not r
    if c.op in ('and', 'or'):
        first = None
        for x in c.a:
            r = truth(x, asg, facts)
            if isinstance(r, T):
                first = first if first is not None else r
            elif r == (c.op == 'or'):
                return r
        return first if first is not None else c.op == 'and'
    if c.op == 'ite':
        r = truth(c.a[0], asg, facts)
        return r if isinstance(r, T) else truth(c.a[1] if r else c.a[2], asg, facts)
    if c in asg:
        return asg[c]
    e = facts.eval(c)
    return c if e is None else e


def bcases(facts, vs, val, limit=4000):
    """Unconditional values of vs in every combination of conditions in which val holds (conditions are atoms)."""
    out, todo, n = {}, [(facts, {})], 0
    while todo:
        f, asg = todo.pop()
        n += 1
        if n > limit:
            return None
        r = truth(val, asg, f)
        if r is False:
            continue
        res = []
        if not isinstance(r, T):
            for x in vs:
                while x.op == 'ite':
                    r = truth(x.a[0], asg, f)
                    if isinstance(r, T):
                        break
                    x = x.a[1] if r else x.a[2]
                else:
                    res.append(x)
                    continue
                break
            else:
                out[tuple(res)] = asg
                continue
        for b in (True, False):
            g = f.copy()
            if g.assume(r, b) and g.consistent():
                todo.append((g, {**asg, r: b}))
    return out


def nozero(t):
    return {m: c for m, c in pdict(t).items() if not any(_byid[i].op == 'Zero' for i, _ in m)}


def ops(t):
    """Operands of a product."""
    return {y for m in pdict(t) for i, _ in m for y in [_byid[i].a[0] if _byid[i].op == 'inv' else _byid[i]]}


def leaves(t):
    if t.op == 'ite':
        return leaves(t.a[1]) | leaves(t.a[2])
    return {t}


def check(P, R):
    f = c06.core_solve(P)
    seen = {}

    def obl(key, v, where, why):
        old = seen.get(key)
        if old is None or (old[0] is True and v is not True) or (old[0] is None and v is False):
            seen[key] = (v, where, why)
    cl = S(R)

    class Top(S):
        pass
    cl = S(R)
    base = cl.on_call

    def on_call(I, st, node, name, obj, args):
        # the call of the core solve itself names the vector and the options
        if name == 'conex::PrepareStep' and I.fr.fn is f and len(args) == 4 and not I.mute:
            if st.facts.eval(tobool(cl.opt(st, args[1], 'affine'))) is not True and cval0(cl.opt(st, args[1], 'affine')) != 1:
                y = args[2]
                cl.top = (c07.handle_loc(st.read(y), y) if y.op in c07.LOCOPS else c07.handle_loc(y, None), args[1])
        if name == 'conex::PrepareStep' and I.fr.fn is f and len(args) == 4:
            if st.facts.eval(tobool(cl.opt(st, args[1], 'affine'))) is not True and cval0(cl.opt(st, args[1], 'affine')) != 1:
                cl.sol |= leaves(c07.content(st, args[2]))
        return base(I, st, node, name, obj, args)
    ghost = {n: mk('f', mk('pt', mk('p', '#ghost')), n) for n in ('K', 'CS')}
    target = mk('mat', mk('p', f.params[2]['n']))
    base_write = cl.on_write

    def on_write(I, st, loc, v, node, op):
        if loc is target and cl.top is not None:
            st.store[ghost['K']] = cl.opt(st, cl.top[1], 'inv_sqrt_mu')
            cs = scale(st, 'c_scaling_', v, *st.store.keys())
            if cs is not None:
                st.store[ghost['CS']] = cs
        return base_write(I, st, loc, v, node, op)
    cl.top, cl.sol = None, set()
    cl.on_call, cl.on_write = on_call, on_write
    outs = Interp(P, cl).run(f)
    for key, ok, why, where in cl.facts:
        obl('newton:' + key, ok, where, why)
    out = mk('mat', mk('p', f.params[2]['n']))
    n = 0
    for o in rets(outs):
        st = o.st
        V, val = st.read(out), tobool(o.val)
        if cl.top is None:
            continue
        K, CS = st.store.get(ghost['K']), st.store.get(ghost['CS'])
        if K is None:
            continue
        K, CS = [drop(x, ghost.values()) if x is not None else None for x in (K, CS)]
        gs = [x for x in subterms(V) if x.op == 'get' and isinstance(x.a[0], T) and all(of_y(z, cl) for z in leaves(x.a[0]))]
        if not gs:
            if V.op != 'i' and st.facts.eval(val) is not False and any(x.op in ('solved', 'lp') for x in subterms(V)):
                obl('solution:vector', None, f.loc, 'the result is %s' % show(V)[:60])
            continue
        n += 1
        for g in gs:
            first = g.a[1] in ('topRows', 'head')
            obl('solution:vector', True if first else False if g.a[1] in ('bottomRows', 'tail') else None, f.loc, 'the result is taken from y by %s' % g.a[1])
        if CS is None:
            some = any(fieldof(x) == 'c_scaling_' for x in subterms(V))
            obl('solution:scale', None if some else False, f.loc, 'the scaling of c is not taken out of the result')
            continue
        ga, ka, sa = mk('p', '#y'), mk('p', '#k'), mk('p', '#s')
        mp = {g: ga for g in gs}
        simp = dict(mp)
        for x, y in ((K, ka), (CS, sa)):
            if x.op != 'poly' and not isc(x):
                simp[x] = y
        bad, sure = [], []
        for m, k, s in ((simp, simp.get(K, K), simp.get(CS, CS)), (mp, K, CS)):
            cs_ = bcases(st.facts, (subst(V, m), k, s), subst(val, m))
            bad = [None] if cs_ is None else []
            for (x, kk, ss), asg in (cs_ or {}).items():
                if any(b is False and 'conex::Initialize' in show(c) for c, b in asg.items()):
                    continue
                # operands that are still conditional are decided together with the result
                if x is not mul(mul(ga, inv(kk)), inv(ss)):
                    y = flat(x, asg, st.facts)
                    if y is not mul(mul(ga, inv(flat(kk, asg, st.facts))), inv(flat(ss, asg, st.facts))):
                        bad.append(y)
            if not bad:
                break
            # nothing but the three operands, or the solution of another system
            sure = [x for x in bad if x is not None and (ops(x) <= {ga, ka, sa} or any(z.op == 'get' and any(w.op == 'solved' and w not in cl.sol for w in leaves(z.a[0])) for u in ops(x) for z in leaves(u)))]
            if sure and m is simp:
                bad = sure
                break
        if not bad:
            obl('solution:scale', True, f.loc, '')
        for x in bad:
            pure = x is not None and (x in sure or len(pdict(x)) == 1 and ga in set(subterms(x)))
            obl('solution:scale', False if pure else None, f.loc, 'a solve that reports success leaves %s in the memory of the caller' % (show(x)[:120] if x is not None else '?'))
    R.count('ends of the core solve with a result', n)

    # ---- the cost on its way to the core solve
    for g in [g for g in P.fns.values() if g.name == 'conex::Solve' and g.body is not None and g is not f and P.is_repo(g) and len(g.params) == 4]:
        class W(Client):
            by_value = True

            def opaque(self, fn):
                return fn is f or fn.loc.split(':')[0] not in c06.SRC

            def on_call(self, I, st, node, name, obj, args):
                if name == 'conex::Solve' and len(args) == 3 and not I.mute:
                    prog = args[0].a[0] if args[0].op == '&' else args[0]
                    for fc, (lin,), _ in split(st.facts, (st.read(mk('f', prog, 'linear_cost_')),)):
                        d = nozero(lin)
                        mine = lambda t: any(x.op == 'p' and x.a[0] == g.params[0]['n'] for x in subterms(t))
                        ok = None
                        if len(d) == 1:
                            (m, c), = d.items()
                            if len(m) == 1 and m[0][1] == 1 and mine(_byid[m[0][0]]) and _byid[m[0][0]].op in ('i', 'pt', 'p', 'mat'):
                                ok = c == -1
                        if ok is None and any(lincost(x) for x in subterms(lin)) and mine(lin):
                            ok = False
                        obl('Solve(b):cost', ok, g.loc, 'the linear cost is %s when the core solve begins' % show(lin)[:80])
        os_ = Interp(P, W()).run(g)
    for name, want in (('conex::Program::AddLinearCost', 'add'), ('conex::Program::ClearLinearCosts', 'zero')):
        for g in [g for g in P.fns.values() if g.name == name and g.body is not None]:
            loc = mk('f', mk('pt', mk('p', 'this')), 'linear_cost_')
            for o in rets(Interp(P, Client()).run(g)):
                x = o.st.read(loc)
                old = [y for y in subterms(x) if lincost(y)]
                if want == 'zero':
                    ok = True if x is ZERO or x.op in ('Zero', 'zero') else False if x.op == 'i' else None
                    obl('ClearLinearCosts', ok, g.loc, 'the linear cost becomes %s' % show(x)[:80])
                    continue
                for fc, (y, r), _ in split(o.st.facts, (x, mk('ite', tobool(o.val), ONE, ZERO))):
                    d = nozero(y)
                    lin = [m for m in d if len(m) == 1 and m[0][1] == 1 and lincost(_byid[m[0][0]])]
                    arg = [m for m in d if len(m) == 1 and m[0][1] == 1 and any(z.op == 'p' and z.a[0] == g.params[0]['n'] for z in subterms(_byid[m[0][0]]))]
                    if r is ONE:
                        obl('AddLinearCost:failure', True if len(d) == 1 and lin and d[lin[0]] == 1 else False if lin or arg else None, g.loc, 'a failing call leaves %s' % show(y)[:80])
                    elif r is ZERO:
                        good = len(d) == 2 and lin and arg and d[lin[0]] == 1 and d[arg[0]] == 1
                        obl('AddLinearCost:adds', True if good else False if (lin or arg) and len(d) == len(lin) + len(arg) else None, g.loc, 'the linear cost becomes %s' % show(y)[:80])
    # ---- entry points
    for name in ('CONEX_Maximize', 'CONEX_Solve'):
        g = api(P, name)
        ynm = g.params[3 if name == 'CONEX_Solve' else 4]['n'] if False else [p['n'] for p in g.params if p['n'] == 'y'][0] if any(p['n'] == 'y' for p in g.params) else None

        class E(Client):
            by_value = True

            def opaque(self, fn):
                return fn.name == 'conex::Solve'

            def on_call(self, I, st, node, nm, obj, args):
                if nm != 'conex::Solve' or I.mute:
                    return
                y = args[-1]
                ok = y.op == 'p' and g.params[-2]['n'] == y.a[0]
                obl(name + ':y', True if ok else False if y.op in ('p', 'padd') else None, g.loc, 'the result is written to %s' % show(y)[:60])
                if len(args) == 4:
                    b = args[0]
                    b = c07.content(st, b)
                    d = pdict(b)
                    ok = None
                    if len(d) == 1:
                        (m, c), = d.items()
                        if len(m) == 1 and m[0][1] == 1 and _byid[m[0][0]].op in ('i', 'mat', 'map', 'p', 'pt') and any(z.op == 'p' and z.a[0] == g.params[1]['n'] for z in subterms(_byid[m[0][0]])):
                            ok = c == 1
                    obl(name + ':b', ok, g.loc, 'the cost handed on is %s' % show(b)[:80])
        for o in rets(Interp(P, E()).run(g)):
            pass
    # ---- scalings on a cold start
    for g in [g for g in P.fns.values() if g.name == 'conex::Initialize' and g.body is not None and len(g.params) == 2 and g.loc.split(':')[0] == f.loc.split(':')[0]]:
        class Z(Client):
            by_value = True

            def opaque(self, fn):
                return not (fn.loc.split(':')[0] == g.loc.split(':')[0] or fn.name.startswith('conex::WorkspaceStats'))

            def joincs(self, x, y):
                return {n_: x[n_] if x.get(n_) == y.get(n_) else 'other' for n_ in set(x) | set(y)}

            def on_call(self, I, st, node, nm, obj, args):
                if nm.endswith('InitializeWorkspace'):
                    st.cs.clear()

            def on_write(self, I, st, loc, v, node, op):
                t = loc.a[0] if loc.op == 'pt' else None
                n_ = fieldof(t.a[0] if t is not None and t.op == 'i' else t)
                if n_ in NAMES:
                    st.cs[n_] = 'one' if isc(v) and cval(v) == 1 else 'other'
        init = State()
        init.assume(mk('eq0', mk('i', mk('f', mk('pt', mk('p', g.params[1]['n'])), 'initialization_mode'))), True)
        for o in rets(Interp(P, Z()).run(g, st=init)):
            st = o.st
            if isc(o.val) and cval(o.val) == 0:
                continue
            for n_ in NAMES:
                v = st.cs.get(n_)
                obl('cold start:' + n_.rstrip('_'), v == 'one', g.loc, 'the scaling is not 1 after a cold start')
    for k, (v, where, why) in sorted(seen.items()):
        R.verdict(v, k, where, why)
    R.floor('facts about costs and solutions', len(seen), 4)
