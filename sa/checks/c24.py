from ..util import *
from .c27 import Trip, span

TECHNIQUE = 'symbolic value and path-condition analysis of every row appended by the preprocessing'
RULE = ('PreprocessLinearInequality appends to each pair of outputs, for every row of the input and under the same conditions, a multiple of '
        'that row of the matrix and the same multiple of its bound: an equation exactly when the two bounds are equal; otherwise a positive '
        'multiple of row and upper bound exactly when the upper bound is below 1e8 and a negative multiple of row and lower bound exactly '
        'when the lower bound is above -1e8.  AppendRow keeps the rows that are there and adds the new ones after them.')

BIG = 10 ** 8
NAMES = ('inequality matrix', 'inequality right-hand side', 'equation matrix', 'equation right-hand side')


class Rows(Trip):
    def __init__(self, f):
        super().__init__()
        self.outs = {mk('p', f.params[i]['n']): i - 3 for i in range(3, 7)}
        self.ev, self.other = [], []

    def opaque(self, fn):
        return fn.short == 'AppendRow' or super().opaque(fn)

    def on_call(self, I, st, node, name, obj, args):
        if name.split('::')[-1] == 'AppendRow' and len(args) == 2:
            i = self.outs.get(args[0])
            v = deref_arg(I.P, I, st, args[1])
            self.ev.append((I.mute, i, v, st.facts, list(st.pc), node))

    def on_write(self, I, st, loc, val, node, op):
        if op != 'out' and any(x in self.outs for x in subterms(loc)) and loc.op != 'var':
            self.other.append((loc, val, node))


def rowof(v, what):
    """[(row term, row index)] of the matrix `what` in a value."""
    out = []
    for x in subterms(v):
        if x.op == 'get' and len(x.a) >= 3 and x.a[1] == 'row' and under(x.a[0], what):
            out.append((x, x.a[2] if hasattr(x.a[2], 'op') else C(x.a[2])))
    return out


def under(t, p):
    while t.op in ('i', 'pt', 'mat', 'fv') and t.a:
        t = t.a[0]
    return t.op == 'p' and t.a[0] == p


def split(v, params):
    """(factor polynomial, row, index, name) of a multiple of one row of one of the inputs."""
    d = pdict(v) if v.op == 'poly' else {((v.id, 1),): 1}
    if len(d) != 1:
        return None
    (m, c), = d.items()
    rows, rest = [], []
    for i, p in m:
        t = BY_ID(i)
        if t.op == 'get' and len(t.a) >= 3 and t.a[1] == 'row' and p == 1:
            rows.append(t)
        else:
            rest.append((i, p))
    if len(rows) != 1:
        return None
    nm = [q for q in params if under(rows[0].a[0], q)]
    if len(nm) != 1:
        return None
    ix = rows[0].a[2]
    return (tuple(sorted(rest)), c, rows[0], ix if hasattr(ix, 'op') else C(ix), nm[0])


def positive(rest, c):
    """Sign of a factor: products of square roots, norms and their inverses are not negative."""
    for i, p in rest:
        t = BY_ID(i)
        while t.op == 'inv':
            t = t.a[0]
        ok = t.op == 'call' and str(t.a[0]).split('::')[-1] in ('sqrt', 'norm', 'squaredNorm', 'abs', 'fabs', 'exp', 'hypot') or isc(t) and cval(t) > 0 or p % 2 == 0
        if not ok and t.op == 'poly':
            ok = all(cc > 0 and positive(mm, 1) for mm, cc in pdict(t).items())
        if not ok:
            return None
    return c > 0


def check(P, R):
    fs = [f for f in P.named('conex::PreprocessLinearInequality') if f.body is not None and len(f.params) == 7]
    if not fs:
        raise AnalysisBroken('PreprocessLinearInequality not found')
    f = fs[0]
    A, lb, ub = (f.params[i]['n'] for i in range(3))
    cl = Rows(f)
    outs = Interp(P, cl).run(f)
    seen = {}

    def obl(key, v, node, why):
        old = seen.get(key)
        if old is None or (old[0] is True and v is not True) or (old[0] is None and v is False):
            seen[key] = (v, node, why)
    ev = [e for e in cl.ev if not e[0]]
    if not ev or any(e[1] is None for e in ev) or cl.other:
        R.und('rows', f.loc, 'rows are not appended to the outputs by AppendRow alone')
        ev = []
    groups = {}
    for mute, o, v, facts, pc, node in ev:
        s = split(v, (A, lb, ub))
        if s is None:
            obl('%s:row' % NAMES[o], None, node, 'the appended row %s is not a multiple of one row of an input' % show(v)[:80])
            continue
        groups.setdefault(s[3], []).append((o, s, facts, pc, node))
        if o % 2 == 0:
            obl('%s:row' % NAMES[o], s[4] == A, node, 'rows of %s are appended to the %s' % (s[4], NAMES[o]))
        else:
            obl('%s:row' % NAMES[o], s[4] != A, node, 'rows of the matrix are appended to the %s' % NAMES[o])
    # the kinds of pairs
    full = {}
    for ix, es in groups.items():
        mats = [e for e in es if e[0] % 2 == 0]
        rhss = [e for e in es if e[0] % 2 == 1]
        for o, s, facts, pc, node in mats:
            part = [e for e in rhss if e[0] == o + 1 and e[3] == pc]
            same = [e for e in part if (e[1][0], e[1][1]) == (s[0], s[1])]
            if same:
                e = same[0]
                rhss.remove(e)
                obl('%s:same multiple' % NAMES[o], True, node, '')
                full.setdefault(ix, []).append((o, s, e[1][4], facts, pc, node))
            elif part:
                # factors may be equal in another form
                e = part[0]
                plain = not any(BY_ID(i).op in ('lp', 'out') for i, p in s[0] + e[1][0])
                obl('%s:same multiple' % NAMES[o], False if plain and comparable(s, e[1], o == 2) else None, node,
                    'the row is multiplied by %s, its bound by %s' % (fac(s), fac(e[1])))
            else:
                obl('%s:same multiple' % NAMES[o], False if not rhss else None, node, 'a row is appended without its bound')
        for o, s, facts, pc, node in rhss:
            if not any(e[0] == o - 1 and e[3] == pc for e in mats):
                obl('%s:same multiple' % NAMES[o], False, node, 'a bound is appended without its row')
    for ix, es in sorted(full.items(), key=lambda x: show(x[0])):
        for o, s, bound, facts, pc, node in es:
            nm = ('inequality', 'equation')[o // 2]
            sg = positive(s[0], s[1])
            r = mkfacts(facts)
            cond = conds(pc, A, lb, ub, ix)
            if o == 2:
                obl('equation:bound', bound in (lb, ub), node, 'the right-hand side of an equation is row of %s' % bound)
            else:
                want = None if sg is None else ub if sg else lb
                obl('inequality:%s bound:sign' % ('upper' if bound == ub else 'lower'), None if want is None else bound == want, node,
                    'row and %s bound are multiplied by a %s factor' % ('upper' if bound == ub else 'lower', 'positive' if sg else 'negative'))
            if cond is None:
                obl('%s:%s:condition' % (nm, bound), None, node, 'the condition under which it is appended was not recognised')
        # coverage: for every combination of (equal, ub below 1e8, lb above -1e8)
        recog = [conds(e[4], A, lb, ub, ix) for e in es]
        if any(c is None for c in recog):
            continue
        for e, c in zip(es, recog):
            for k, v in c:
                if k == 'extra':
                    obl('every row', False, e[5], 'whether a row is kept depends on its coefficients')
                elif k.startswith('wrong'):
                    obl('limit of %s' % k[6:], False, e[4 + 1], 'the bound counts as infinite at a value other than 1e8')
        if any(k == 'extra' for c in recog for k, v in c):
            continue
        recog = [[(k.replace('wrong ', ''), v) for k, v in c] for c in recog]
        for eq in (True, False):
            for hu in (True, False):
                for hl in (True, False):
                    act = sorted((e[0], e[2] if e[0] == 0 else 'bound') for e, c in zip(es, recog)
                                 if all({'eq': eq, 'ub': hu, 'lb': hl}[k] == v for k, v in c))
                    want = [(2, 'bound')] if eq else sorted([(0, ub)] * hu + [(0, lb)] * hl)
                    why = 'for a row with %s bounds, upper bound %s1e8 and lower bound %s-1e8: %s instead of %s' % (
                        'equal' if eq else 'different', 'below ' if hu else 'not below ', 'above ' if hl else 'not above ',
                        names(act, ub), names(want, ub))
                    obl('rows for %s bounds, %s upper, %s lower' % (('different', 'equal')[eq], ('infinite', 'finite')[hu], ('infinite', 'finite')[hl]),
                        act == want, es[0][5], why)
    # every row of the input
    ixs = [ix for ix in groups if ix.op == 'ix' or not isc(ix)]
    done = False
    for g in groups:
        if isc(g):
            continue
        sp = span(cl, g)
        if sp is None:
            continue
        done = True
        rows_ = next((x for x in subterms(sp[1]) if x.op == 'rows' and len(x.a) == 1 and any(under(x.a[0], q) for q in (A, lb, ub))), None)
        e = ok_and(equal(Facts(), sp[0], ZERO), equal(Facts(), sp[1], sub(rows_, ONE))) if rows_ is not None else False if simple(sp[1]) else None
        obl('all rows', e, None, 'rows %s to %s of the input are visited' % (show(sp[0])[:30], show(sp[1])[:40]))
    if not done and ev:
        obl('all rows', None, None, 'loop over the rows not recognised')
    if cl.brk:
        obl('all rows', None, None, 'the loop over the rows can be left early')
    for k, (v, node, why) in sorted(seen.items()):
        R.verdict(v, k, (node or {}).get('l') or f.loc, why)

    # ---- AppendRow
    for g in repo_fns(P, 'AppendRow'):
        if len(g.params) != 2:
            continue
        dst, src = g.params[0]['n'], g.params[1]['n']
        for o in rets(Interp(P, Trip()).run(g)):
            l = mk('pt', mk('p', dst))
            v = o.st.read(l)
            old, new = mk('i', l), None
            e, why = None, 'the final value %s was not recognised' % show(v)[:100]
            if v is old:
                s0 = [x for x in subterms(v)]
                e = None
            if v.op == 'upd' and v.a[0].op == 'shaped' and len(v.a) >= 4:
                base, kind = v.a[0], v.a[1]
                data = v.a[3]
                isold, isnew = under(base.a[0], dst), under(data, src)
                r = [x for x in subterms(base.a[1]) if x.op == 'rows']
                ro = next((x for x in r if under(x.a[0], dst)), None)
                rn = next((x for x in r if under(x.a[0], src)), None)
                if not isold and base.a[0].op in ('mat0', 'Zero'):
                    e, why = False, 'the rows that were there are lost'
                elif isold and isnew and ro is not None and rn is not None:
                    e = equal(o.st.facts, base.a[1], add(ro, rn))
                    why = 'the result has %s rows' % show(base.a[1])[:60]
                    ar = v.a[2]
                    if e and kind in ('bottomRows',):
                        e, why = equal(o.st.facts, ar[0], rn), 'the new rows are written to the last %s rows' % show(ar[0])[:40]
                    elif e and kind in ('row', 'middleRows'):
                        e, why = equal(o.st.facts, ar[0], ro), 'the new rows are written from row %s on' % show(ar[0])[:40]
                        if kind == 'row' and e:
                            e = None
                    elif e and kind in ('topRows',):
                        e, why = False, 'the new rows overwrite the first rows'
                    elif e:
                        e = None
            elif v.op == 'upd' and v.a[0].op in ('mat0', 'Zero') and not any(x.op == 'i' and under(x, dst) for x in subterms(v.a[3] if len(v.a) > 3 else v)):
                e, why = False, 'the rows that were there are lost'
            elif v.op == 'shaped':
                e, why = False, 'the new rows are not written'
            R.verdict(e, 'AppendRow:keeps and adds rows', g.loc, why)
    R.floor('appended rows', max(len(ev), len(seen)), 1)


def ok_and(*vs):
    return False if any(v is False for v in vs) else None if any(v is None for v in vs) else True


def comparable(s, t, eq):
    """Do the factors differ for certain?  (not just in form)"""
    if s[0] == t[0] or not s[0] or not t[0]:
        return True
    def leaves(r):
        return {x.a[0] for i, p in r for x in subterms(BY_ID(i)) if x.op == 'p'}
    a, b = leaves(s[0]), leaves(t[0])
    return a != b and not eq


def fac(s):
    return show(poly({s[0]: s[1]}))[:60] if False else '%s%s' % ('-' if s[1] < 0 else '', '*'.join(show(BY_ID(i))[:40] for i, p in s[0]) or s[1])


def names(l, ub):
    return ', '.join('an equation' if o == 2 else '%s bound' % ('upper' if b == ub else 'lower') for o, b in l) or 'nothing'


def mkfacts(f):
    return f


def conds(pc, A, lb, ub, ix):
    """The path condition in terms of eq / ub / lb, or None."""
    out = set()
    todo, flat = list(pc), []
    while todo:
        c, v = todo.pop()
        if c.op == 'not':
            todo.append((c.a[0], not v))
        elif (c.op, v) in (('and', True), ('or', False)):
            todo += [(x, v) for x in c.a]
        else:
            flat.append((c, v))
    for c, v in flat:
        k = cond(c, A, lb, ub, ix)
        if k is None:
            return None
        if k[0] == 'trip':
            continue
        out.add((k[0], k[1] == v))
    return sorted(out)


def cond(c, A, lb, ub, ix):
    c = tobool(c) if c.op not in ('and', 'or', 'not') else c
    if c.op == 'not':
        k = cond(c.a[0], A, lb, ub, ix)
        return None if k is None else (k[0], not k[1])
    ps = {x.a[0] for x in subterms(c) if x.op == 'p'}
    if ps <= {A} and any(x.op == 'rows' for x in subterms(c)):
        return ('trip', True)
    if ps == {A}:
        return ('extra', True)
    if {lb, ub} <= ps:
        for x in subterms(c):
            if x.op == 'call' and x.a[0] in ('op==', 'op!='):
                y = [rowof(a, p) for a in x.a[1:] for p in (lb, ub)]
                ok = all(t.op == 'get' and t.a[1] == 'row' for t in x.a[1:])
                if ok and c.op == 'eq0':
                    return ('eq', x.a[0] == 'op!=')
        if c.op in ('feq0', 'eq0') and len([x for x in subterms(c) if x.op == 'i']) >= 2:
            return ('eq', True)
        return None
    for p, nm in ((ub, 'ub'), (lb, 'lb')):
        if ps - {A} == {p} or ps == {p}:
            if c.op in ('fgt0', 'fge0', 'gt0') and c.a[0].op == 'poly':
                d = pdict(c.a[0])
                k0 = d.get((), 0)
                t = [(m, cc) for m, cc in d.items() if m]
                if len(t) != 1 or len(t[0][0]) != 1 or t[0][0][0][1] != 1:
                    return None
                cc = t[0][1]
                e = BY_ID(t[0][0][0][0])
                if e.op != 'i' and not e.op.startswith('get'):
                    return None
                # BIG - ub > 0   /   BIG + lb > 0 ;  or the opposite
                if c.op == 'fgt0' and (nm, cc, k0) in (('ub', -1, BIG), ('lb', 1, BIG)):
                    return (nm, True)
                if c.op == 'fge0' and (nm, cc, k0) in (('ub', 1, -BIG), ('lb', -1, -BIG)):
                    return (nm, False)
                return ('wrong ' + nm, (cc > 0) == (nm == 'lb'))
    return None
