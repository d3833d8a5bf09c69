"""Order in which a pair of nested loops visits the entries of a triangle."""
from .util import *
from .engine import LOCOPS


class Order(Client):
    """Collects writes through / into a list of entries together with the pair of positions they belong to."""
    by_value = True

    def __init__(self, inside):
        self.inside = inside
        self.ev, self.phi, self.ranges = [], {}, {}

    def opaque(self, fn):
        return not self.inside(fn)

    def on_write(self, I, st, loc, val, node, op):
        if I.mute or len(st.loops) < 2:
            return
        cur = cursor(loc)
        if cur is None:
            return
        prs = list(positions(val))
        if prs:
            self.ev.append((cur, prs, st.loops, I.fr.fn.loc))

    def on_loop_done(self, I, lid, ix, trip, entry, modified, backs, exits):
        for loc, how in modified.items():
            self.phi[(lid, loc)] = (entry.read(loc), [b.read(loc) for b in backs]) if how[0] == 'phi' else None
        self.ranges[lid] = (ix, trip, entry, exits)


def cursor(loc):
    """n for entry n of a list of addresses (written through) or of a list of entries."""
    l = loc
    if l.op == 'pt' and l.a[0].op == 'i':
        l = l.a[0].a[0]
    elif l.op != 'e':
        return None
    if l.op == 'e' and len(l.a) == 2:
        return strip_int(l.a[1])
    return None


def entry(t):
    t = strip_int(t)
    if t.op == 'i' and t.a[0].op == 'e' and len(t.a[0].a) == 2:
        return t.a[0].a[1]
    if t.op == 'get' and len(t.a) == 3 and t.a[1] == 'e':
        return t.a[2]
    return None


def positions(val):
    for x in subterms(val):
        if x.op == 'call' and x.a[0] == 'dot' and len(x.a) == 3:
            c = [y for y in x.a[1:]]
            if all(y.op == 'get' and y.a[1] == 'col' for y in c):
                yield strip_int(c[0].a[2]), strip_int(c[1].a[2])
        elif x.op in ('call', 'get') and len(x.a) >= 3:
            idx = [z for z in (entry(y) for y in x.a if isinstance(y, T)) if z is not None]
            if len(idx) == 2 and ('GetCoeff' in str(x.a[0]) or 'LookupAddress' in str(x.a[0])):
                yield strip_int(idx[0]), strip_int(idx[1])


def trips(cl, lid):
    ix, trip, entry, exits = cl.ranges[lid]
    if trip is not None:
        return trip
    for x in exits:
        for p in x.facts.ge:
            r = sub(p, ix)
            if pdict(p).get(((ix.id, 1),), 0) == 1 and not any(y is ix for y in subterms(r)):
                return neg(r)
    return None


NS = mk('p', 'nsep')


def anon(t, keep):
    """The number of separators, however it is spelled, is NS."""
    mp = {}
    for x in subterms(t):
        if x.op in ('rows', 'cols') or x.op == 'p' and x not in keep or x.op == 'i' and x.a[0].op == 'f' and x.a[0].a[1] == '#n' or x.op == 'fv' and x.a[1] == '#n':
            mp[x] = NS
        elif x.op == 'u' and len(x.a) == 1:
            mp[x] = x.a[0]
    for _ in range(3):
        t = subst(t, mp) if mp else t
    mp = {x: mk('ix', x.a[0]) for x in subterms(t) if x.op == 'ix' and len(x.a) > 1}
    return subst(t, mp) if mp else t


def signature(cl, ev):
    """(first, second, outer trips, inner trips) with O, I for the loop counters; None if not recognised."""
    cur, prs, loops, where = ev
    lo, li = loops[-2][0], loops[-1][0]
    if lo not in cl.ranges or li not in cl.ranges:
        return None
    O, I_ = mk('ix', lo), mk('ix', li)
    To, Ti = trips(cl, lo), trips(cl, li)
    if To is None or Ti is None:
        return None
    out = []
    for a, b in prs:
        a, b = anon(a, ()), anon(b, ())
        has = lambda t: any(x is I_ for x in subterms(t))
        if has(a) and not has(b):
            a, b = b, a
        out.append((a, b))
    To, Ti = anon(To, ()), anon(Ti, ())
    c = anon(cur, ())
    start = sub(c, I_)
    okc = None
    for x in subterms(sub(cur, cl.ranges[li][0])):
        if x.op == 'lp' and x.a[0] == lo and sub(cur, cl.ranges[li][0]) is x:
            e = cl.phi.get((x.a[0], x.a[1]))
            if e:
                okc = e[0] is ZERO and all(anon(sub(b, x), ()) in (Ti, I_) for b in e[1])
    ren = {O: mk('p', 'O'), I_: mk('p', 'I')}
    return okc, tuple(sorted({(show(subst(a, ren)), show(subst(b, ren))) for a, b in out})), show(subst(To, ren)), show(subst(Ti, ren)), \
        all(x.op in ('p', 'c', 'poly') for t in [To, Ti] + [y for p in out for y in p] for x in subterms(subst(t, ren)))


def compare(P, R, fns, inside, prefix):
    """All functions visit the pairs of separators in the same order."""
    sig = {}
    for f in fns:
        cl = Order(inside)
        try:
            Interp(P, cl).run(f)
        except Undecided as e:
            R.und(prefix + f.short, f.loc, str(e))
            continue
        got = {}
        for ev in cl.ev:
            s = signature(cl, ev)
            if s is not None:
                got[s] = ev
        # the general iteration: the signature that mentions both counters
        gen = [s for s in got if any('I' in b or 'I' in a for a, b in s[1])]
        if len(gen) != 1:
            R.und(prefix + f.short, f.loc, 'order of the entries not recognised (%d candidates)' % len(gen))
            continue
        s = gen[0]
        R.verdict(s[0], prefix + f.short + ':counter', f.loc, 'the position in the list of entries is not advanced once per pair')
        sig[f] = s
    if not sig:
        return 0
    ref = {}
    for f, s in sig.items():
        ref.setdefault(s[1:4], []).append(f)
    major = max(ref, key=lambda k: len(ref[k]))
    for k, fs in ref.items():
        for f in fs:
            R.verdict(True if k == major else False if sig[f][4] and sig[ref[major][0]][4] else None, prefix + f.short + ':order', f.loc,
                      'visits the pairs of separators in another order (%s for %s, %s) than the entries are stored (%s for %s, %s)' % (
                          k[0], k[1], k[2], major[0], major[1], major[2]))
    return len(sig)
