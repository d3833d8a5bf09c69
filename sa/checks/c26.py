import time
from ..util import *
from ..front import walk
from ..terms import *
from .c27 import Trip

TECHNIQUE = 'ranking analysis of every loop at its fixpoint, and acyclicity of the call graph'
RULE = ('On every path from the head of a loop back to its head, a conjunct of the loop condition comes closer to failing by at least one '
        '(integer measure bounded below by the condition itself); a range loop does not change the size of its range; no function calls itself, '
        'directly or through others.')

LOOPY = {}
LOOPS = ('for', 'while', 'do', 'forr')


class TI(Interp):
    def __init__(self, P, cl):
        super().__init__(P, cl)
        self.heads = {}

    def fix(self, s, st, R, lid, ix, trip, pre, post, cond, body):
        self.heads[lid] = (s, cond)
        return super().fix(s, st, R, lid, ix, trip, pre, post, cond, body)


class Rank(Trip):
    def __init__(self, own):
        super().__init__()
        self.own, self.found, self.depth = own, [], 3

    def opaque(self, fn):
        return super().opaque(fn) or LOOPY.get(fn.key, False)

    def on_loop_done(self, I, lid, ix, trip, entry, modified, backs, exits):
        s, cond = I.heads[lid]
        if id(s) not in self.own:
            return
        self.found.append((s, *rank(I, s, cond, lid, ix, trip, entry, modified, backs)))


def conjuncts(c):
    if c.op == 'and':
        return [y for x in c.a for y in conjuncts(x)]
    return [c]


def head(I, entry, modified, ix, lid):
    h = entry.fork()
    for loc in sorted(modified, key=lambda t: t.id):
        how = modified[loc]
        h.clear(loc)
        h.store[loc] = I.step(entry.read(loc), how, ix) if how[0] == 'ind' else mk('lp', lid, loc)
    return h


def evalc(I, cond, st):
    I.mute += 1
    th, I.throws = I.throws, []
    try:
        return [(s, tobool(v)) for s, v in I.ev(cond, st.fork())]
    finally:
        I.throws = th
        I.mute -= 1


def floating(c):
    return c.op in ('fgt0', 'feq0', 'fge0') or c.op == 'not' and floating(c.a[0])


def measure(c):
    """(term that is >= 0 while the condition holds, kind)."""
    if c.op == 'ge0':
        return c.a[0], 'ge'
    if c.op == 'not' and c.a[0].op == 'eq0':
        return c.a[0].a[0], 'ne'
    return None, c.op


def rank(I, s, cond, lid, ix, trip, entry, modified, backs):
    if trip is not None:
        return True, 'range'
    if not backs:
        return True, 'no path leads back to the head'
    if cond is None:
        return None, 'no condition'
    hs = evalc(I, cond, head(I, entry, modified, ix, lid))
    if len(hs) != 1:
        return None, 'the condition has %d values' % len(hs)
    e0 = evalc(I, cond, entry)
    if all(floating(c) for c in conjuncts(hs[0][1])):
        return False, 'only a floating-point comparison ends the loop: %s' % show(hs[0][1])[:80]
    best, why = None, 'no conjunct is a comparison'
    for k, c in enumerate(conjuncts(hs[0][1])):
        X, kind = measure(c)
        if X is None:
            why = 'condition %s' % show(c)[:80]
            continue
        res = []
        # whether something else than the measure and the data changes from one iteration to the next
        used = {x.a[1] for x in subterms(X) if x.op == 'lp'} | {l for l, how in modified.items() if how[0] == 'ind' and any(y is ix for y in subterms(X))}
        others = [l for l in modified if l not in used and root(l) not in used and l.op not in ('mat', 'e', 'buf')]
        for b in backs:
            for bs, v in evalc(I, cond, b):
                if bs.facts.eval(v) is False:
                    res.append(True)
                    continue
                cs = conjuncts(v)
                if len(cs) != len(conjuncts(hs[0][1])):
                    res.append(None)
                    continue
                Y, kd = measure(cs[k])
                if Y is None or kd != kind:
                    res.append(None)
                    continue
                d = sub(Y, X)
                if kind == 'ge':
                    for f, q in cases(bs.facts, d):
                        if isc(q) and cval(q) > -1:
                            res.append(False if s['k'] == 'for' or not others else None)
                        else:
                            res.append(True if isc(q) or f.eval(ge0(sub(C(-1), q))) is True else None)
                else:
                    if isc(d) and abs(cval(d)) == 1:
                        sg = -1 if cval(d) > 0 else 1
                        X0 = measure(conjuncts(e0[0][1])[k])[0] if len(e0) == 1 and k < len(conjuncts(e0[0][1])) else None
                        e = None if X0 is None else entry.facts.eval(ge0(mul(C(sg), X0)))
                        res.append(True if e is True else None)
                    else:
                        res.append(False if isc(d) and cval(d) == 0 else None)
        if all(r is True for r in res):
            return True, ''
        v = False if any(r is False for r in res) else None
        if best is None:
            best = v
            why = 'on a path through the body the loop comes no closer to its end (%s)' % show(X)[:80]
        elif v is None:
            best = None
    return best, why


def check(P, R):
    n = 0
    for f in P.fns.values():
        LOOPY[f.key] = f.body is not None and (f.short != 'operator()') and any(x.get('k') in LOOPS and 'b' in x for x in walk(f.body))
    for f in sorted(P.fns.values(), key=lambda f: (f.name, f.loc)):
        if f.body is None or not P.is_repo(f):
            continue
        own = {id(x): x for x in walk(f.body) if x.get('k') in LOOPS and 'b' in x}
        if not own:
            continue
        cl = Rank(own)
        t0 = time.time()
        try:
            TI(P, cl).run(f)
            err = None
        except (Undecided, RecursionError) as x:
            err = str(x)
        res = {}
        for s, v, why in cl.found:
            res.setdefault(id(s), []).append((v, why))
        for i, x in enumerate(sorted(own.values(), key=lambda x: str(x.get('l')))):
            key = '%s:loop' % f.name
            n += 1
            got = res.get(id(x))
            if not got:
                (R.und if err else R.ok)('%s:%d' % (key, i), x.get('l') or f.loc, err or '')
                continue
            vs = [v for v, w in got]
            v = False if any(q is False for q in vs) else None if None in vs else True
            R.verdict(v, '%s:%d' % (key, i), '%s' % (x.get('l') or f.loc), next((w for q, w in got if q is v), ''))
        if time.time() - t0 > 3:
            print('slow', f.name, time.time() - t0)
    recursion(P, R)
    R.floor('loops analysed', n, 50)


def recursion(P, R):
    g = {}
    for f in P.fns.values():
        if f.body is None or not P.is_repo(f):
            continue
        out = g.setdefault(f.key, set())
        for x in walk(f.body):
            k = x.get('fn')
            for t in [k] + [o for o in (P.overriders(k) if k else []) if o != f.key]:   # a qualified call of the base is not virtual
                h = P.fns.get(t)
                if h is not None and h.body is not None and P.is_repo(h):
                    out.add(t)
    R.count('functions in the call graph', len(g))
    R.count('calls in the call graph', sum(map(len, g.values())))
    seen = set()
    for k in g:
        if k in seen:
            continue
        # everything reachable from k that reaches k again
        reach, todo = set(), list(g[k])
        while todo:
            x = todo.pop()
            if x not in reach:
                reach.add(x)
                todo += g.get(x, ())
        if k in reach:
            f = P.fns[k]
            seen.add(k)
            R.und('%s:recursive' % f.name, f.loc, 'calls itself, directly or through others')
    if not seen:
        R.ok('call graph:no recursion')
