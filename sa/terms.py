"""Hash-consed value-number terms, polynomial normal form, facts.

Terms are the abstract values of the dataflow analysis (sa/engine.py): two
expressions get the same term only if they denote the same value on every run
that reaches them (global value numbering; reals are treated exactly, integer
wrap-around is ignored).
"""
_tab = {}
_n = [0]


class T:
    __slots__ = ('op', 'a', 'id', '_h')

    def __repr__(self):
        return show(self)

    def __lt__(self, o):
        return self.id < o.id


def mk(op, *a):
    k = (op,) + tuple((x.id, 'T') if isinstance(x, T) else (x, type(x).__name__) for x in a)
    t = _tab.get(k)
    if t is None:
        t = T()
        t.op, t.a, t.id = op, a, _n[0]
        _n[0] += 1
        _tab[k] = t
    return t


_fresh = [0]


def fresh(tag, *a):
    _fresh[0] += 1
    return mk('h', tag, _fresh[0], *a)


def show(t, d=0):
    if not isinstance(t, T):
        return str(t)
    if d > 7:
        return '...'
    o, a = t.op, t.a
    s = lambda x: show(x, d + 1)
    if o == 'c':
        return str(a[0])
    if o == 'poly':
        out = []
        for mono, c in a[0]:
            m = '*'.join(s(BY_ID(i)) + ('^%d' % p if p != 1 else '') for i, p in mono)
            out.append(('' if c == 1 and m else ('-' if c == -1 and m else str(c) + ('*' if m else ''))) + m)
        return '(' + ' + '.join(out) + ')'
    if o == 'var':
        return str(a[-1])
    if o == 'i':
        return s(a[0])
    if o == 'f' and len(a) == 2:
        return s(a[0]) + '.' + str(a[1])
    if o == 'fv':
        return s(a[0]) + '.' + str(a[1])
    if o == 'e':
        return s(a[0]) + '[' + ','.join(s(x) for x in a[1:]) + ']'
    if o == 'pt':
        return '*' + s(a[0])
    if o == '&':
        return '&' + s(a[0])
    if o == 'p':
        return str(a[0])
    if o == 'h':
        return '%s#%d' % (a[0], a[1]) + ('{' + ','.join(s(x) for x in a[2:]) + '}' if len(a) > 2 else '')
    if o == 'ge0':
        return s(a[0]) + '>=0'
    return o + '(' + ', '.join(s(x) for x in a) + ')'


_byid = {}


def BY_ID(i):
    return _byid[i]


def C(v):
    if isinstance(v, bool):
        v = int(v)
    if isinstance(v, float) and abs(v) < 1e300 and v == int(v):
        v = int(v)
    return mk('c', v)


TRUE, FALSE, ZERO, ONE = C(1), C(0), C(0), C(1)


def isc(t):
    return t.op == 'c'


def cval(t):
    return t.a[0]


# ---- polynomials ---------------------------------------------------------
def pdict(t):
    """term -> {monomial: coeff}; monomial = tuple of (atom id, power) sorted."""
    if t.op == 'c':
        v = t.a[0]
        return {(): v} if v != 0 else {}
    if t.op == 'poly':
        return dict(t.a[0])
    _byid[t.id] = t
    return {((t.id, 1),): 1}


def pterm(d):
    d = {m: c for m, c in d.items() if c != 0}
    if not d:
        return ZERO
    if len(d) == 1:
        (m, c), = d.items()
        if m == ():
            return C(c)
        if c == 1 and len(m) == 1 and m[0][1] == 1:
            return _byid[m[0][0]]
    return mk('poly', tuple(sorted(d.items())))


def add(x, y):
    if isc(x) and isc(y):
        return C(x.a[0] + y.a[0])
    if isc(x) and x.a[0] == 0:
        return y
    if isc(y) and y.a[0] == 0:
        return x
    d = pdict(x)
    for m, c in pdict(y).items():
        d[m] = d.get(m, 0) + c
    return pterm(d)


def scale(x, k):
    return pterm({m: c * k for m, c in pdict(x).items()})


def sub(x, y):
    return add(x, scale(y, -1))


def neg(x):
    return scale(x, -1)


def mul(x, y):
    if isc(x) and isc(y):
        return C(x.a[0] * y.a[0])
    dx, dy = pdict(x), pdict(y)
    if len(dx) * len(dy) > 400:
        return mk('bigmul', *sorted((x, y), key=lambda t: t.id))
    d = {}
    for m1, c1 in dx.items():
        for m2, c2 in dy.items():
            pw = dict(m1)
            for i, p in m2:
                pw[i] = pw.get(i, 0) + p
            # inv(x) * x cancels
            for i in list(pw):
                t = _byid[i]
                if t.op == 'inv' and i in pw:
                    b = t.a[0]
                    if b.id in pw:
                        k = min(pw[i], pw[b.id])
                        pw[i] -= k
                        pw[b.id] -= k
            m = tuple(sorted((i, p) for i, p in pw.items() if p))
            d[m] = d.get(m, 0) + c1 * c2
    return pterm(d)


def inv(x):
    if isc(x) and x.a[0] != 0:
        v = x.a[0]
        return C(1.0 / v)
    if x.op == 'inv':
        return x.a[0]
    d = pdict(x)
    if len(d) == 1:
        (m, c), = d.items()
        r = C(1.0 / c) if c not in (1, -1) else C(c)
        for i, p in m:
            for _ in range(p):
                b = _byid[i]
                r = mul(r, b.a[0] if b.op == 'inv' else mk('inv', b))
        return r
    return mk('inv', x)


def div(x, y):
    return mul(x, inv(y))


def idiv(x, y):
    if isc(x) and isc(y) and y.a[0] != 0:
        q = abs(x.a[0]) // abs(y.a[0])
        return C(q if (x.a[0] >= 0) == (y.a[0] >= 0) else -q)
    if isc(y) and y.a[0] == 1:
        return x
    if isc(y) and y.a[0]:
        d = pdict(x)
        if all(c % y.a[0] == 0 for c in d.values()):
            return pterm({m: c // y.a[0] for m, c in d.items()})
    return mk('idiv', x, y)


def imod(x, y):
    if isc(x) and isc(y) and y.a[0] != 0:
        return C(abs(x.a[0]) % abs(y.a[0]) * (1 if x.a[0] >= 0 else -1))
    return mk('imod', x, y)


def atoms(t):
    """Atoms (non-poly subterms at the top polynomial level)."""
    out = []
    for m in pdict(t):
        for i, _ in m:
            if _byid[i] not in out:
                out.append(_byid[i])
    return out


def subterms(t, seen=None, skip=()):
    if seen is None:
        seen = set()
    st = [t]
    while st:
        x = st.pop()
        if not isinstance(x, T) or x.id in seen or x.op in skip:
            continue
        seen.add(x.id)
        yield x
        if x.op == 'poly':
            for m, _ in x.a[0]:
                st.extend(_byid[i] for i, _ in m)
        else:
            for y in x.a:
                if isinstance(y, T):
                    st.append(y)
                elif isinstance(y, tuple):
                    st.extend(_flat(y))


def _flat(y):
    for z in y:
        if isinstance(z, T):
            yield z
        elif isinstance(z, tuple):
            yield from _flat(z)


def mentions(t, pred):
    return any(pred(x) for x in subterms(t))


def subst(t, mp, memo=None):
    """Replace terms (dict T->T) bottom-up, re-normalising."""
    if memo is None:
        memo = {}
    if not isinstance(t, T):
        if isinstance(t, tuple):
            return tuple(subst(x, mp, memo) for x in t)
        return t
    if t in mp:
        return mp[t]
    r = memo.get(t.id)
    if r is not None:
        return r
    if t.op == 'c':
        r = t
    elif t.op == 'poly':
        r = ZERO
        ch = False
        for m, c in t.a[0]:
            x = C(c)
            for i, p in m:
                y = subst(_byid[i], mp, memo)
                if y is not _byid[i]:
                    ch = True
                for _ in range(p):
                    x = mul(x, y)
            r = add(r, x)
        if not ch:
            r = t
    else:
        na = tuple(subst(x, mp, memo) for x in t.a)
        if all(x is y for x, y in zip(na, t.a)):
            r = t
        else:
            r = rebuild(t.op, na)
    memo[t.id] = r
    return r


def rebuild(op, a):
    if op == 'not':
        return lnot(a[0])
    if op == 'and':
        return land(*a)
    if op == 'or':
        return lor(*a)
    if op == 'ite':
        return ite(*a)
    if op == 'ge0':
        return ge0(a[0])
    if op == 'eq0':
        return eq0(a[0])
    if op == 'fgt0':
        return fgt0(a[0])
    if op == 'inv':
        return inv(a[0])
    if op == 'idiv':
        return idiv(*a)
    if op == 'imod':
        return imod(*a)
    if op == 'pt':
        return deref(a[0])
    if op == '&':
        return addr(a[0])
    return mk(op, *a)


# ---- booleans ------------------------------------------------------------
def lnot(t):
    if isc(t):
        return C(0 if t.a[0] else 1)
    if t.op == 'not':
        return t.a[0]
    if t.op == 'ge0':
        return ge0(sub(C(-1), t.a[0]))
    if t.op == 'fgt0':
        return fge0(neg(t.a[0]))
    if t.op == 'fge0':
        return fgt0(neg(t.a[0]))
    if t.op == 'and':
        return lor(*[lnot(x) for x in t.a])
    if t.op == 'or':
        return land(*[lnot(x) for x in t.a])
    if t.op == 'ite' and is_bool(t.a[1]) and is_bool(t.a[2]):
        return ite(t.a[0], lnot(t.a[1]), lnot(t.a[2]))
    return mk('not', t)


BOOLOPS = {'ge0', 'fgt0', 'fge0', 'eq0', 'not', 'and', 'or', 'b'}


def is_bool(t):
    return t.op in BOOLOPS or (t.op == 'c' and t.a[0] in (0, 1)) or \
        (t.op == 'ite' and is_bool(t.a[1]) and is_bool(t.a[2]))


def ge0(p):
    if isc(p):
        return C(p.a[0] >= 0)
    # divide by gcd of coefficients (integers)
    d = pdict(p)
    cs = [c for m, c in d.items() if m]
    if all(isinstance(c, int) for c in d.values()) and len(cs) >= 1:
        from math import gcd
        g = 0
        for c in cs:
            g = gcd(g, abs(c))
        if g > 1:
            d = {m: (c // g if m else c // g) for m, c in d.items()}
            p = pterm(d)
    return mk('ge0', p)


def fgt0(p):
    if isc(p):
        return C(p.a[0] > 0)
    return mk('fgt0', _fnorm(p))


def fge0(p):
    if isc(p):
        return C(p.a[0] >= 0)
    return mk('fge0', _fnorm(p))


def _fnorm(p):
    d = pdict(p)
    lead = sorted(d.items())[-1][1]
    if lead not in (1, -1) and lead:
        return pterm({m: c / abs(lead) for m, c in d.items()})
    return p


def eq0(p):
    if isc(p):
        return C(p.a[0] == 0)
    d = pdict(p)
    items = sorted(d.items())
    lead = items[-1][1]
    if lead < 0:
        p = neg(p)
    return mk('eq0', p)


def land(*xs):
    out = []
    for x in xs:
        if x.op == 'and':
            out.extend(x.a)
        else:
            out.append(x)
    o2 = []
    for x in out:
        if isc(x):
            if not x.a[0]:
                return FALSE
            continue
        if lnot(x) in o2:
            return FALSE
        if x not in o2:
            o2.append(x)
    if not o2:
        return TRUE
    if len(o2) == 1:
        return o2[0]
    return mk('and', *sorted(o2, key=lambda t: t.id))


def lor(*xs):
    out = []
    for x in xs:
        if x.op == 'or':
            out.extend(x.a)
        else:
            out.append(x)
    o2 = []
    for x in out:
        if isc(x):
            if x.a[0]:
                return TRUE
            continue
        if lnot(x) in o2:
            return TRUE
        if x not in o2:
            o2.append(x)
    if not o2:
        return FALSE
    if len(o2) == 1:
        return o2[0]
    return mk('or', *sorted(o2, key=lambda t: t.id))


def ite(c, x, y):
    if isc(c):
        return x if c.a[0] else y
    if x is y:
        return x
    if c.op == 'not':
        c, x, y = c.a[0], y, x
    if x.op == 'ite' and x.a[0] is c:
        x = x.a[1]
    if y.op == 'ite' and y.a[0] is c:
        y = y.a[2]
    if x is y:
        return x
    if isc(x) and isc(y) and x.a[0] == 1 and y.a[0] == 0 and is_bool(c):
        return c
    if isc(x) and isc(y) and x.a[0] == 0 and y.a[0] == 1 and is_bool(c):
        return lnot(c)
    if is_bool(x) and is_bool(y):
        if isc(x):
            return lor(c, y) if x.a[0] else land(lnot(c), y)
        if isc(y):
            return lor(lnot(c), x) if y.a[0] else land(c, x)
    # canonical polarity: keep the smaller literal
    n = lnot(c)
    if n.op == c.op and n.id < c.id:
        c, x, y = n, y, x
    return mk('ite', c, x, y)


def tobool(t):
    """C++ truth value of a scalar term."""
    if isc(t):
        return C(1 if t.a[0] else 0)
    if is_bool(t):
        return t
    if t.op == '&':
        return TRUE
    if t.op == 'ite':
        return ite(t.a[0], tobool(t.a[1]), tobool(t.a[2]))
    return lnot(eq0(t))


def cmp(op, x, y, flt):
    if op in ('==', '!='):
        if x is y:
            r = TRUE
        elif (x.op == '&' and isc(y)) or (y.op == '&' and isc(x)):
            r = FALSE
        elif is_bool(x) and not isc(x) and isc(y):
            r = x if y.a[0] == 1 else (lnot(x) if y.a[0] == 0 else FALSE)
        elif is_bool(y) and not isc(y) and isc(x):
            r = y if x.a[0] == 1 else (lnot(y) if x.a[0] == 0 else FALSE)
        elif x.op == 'ite' and isc(x.a[1]) and isc(x.a[2]) and isc(y):
            r = ite(x.a[0], C(x.a[1].a[0] == y.a[0]), C(x.a[2].a[0] == y.a[0]))
        elif x.op == '&' or y.op == '&':
            r = mk('b', 'eqp', *sorted((x, y), key=lambda t: t.id))
        else:
            r = eq0(sub(x, y))
        return r if op == '==' else lnot(r)
    if op == '<':
        return fgt0(sub(y, x)) if flt else ge0(sub(sub(y, x), ONE))
    if op == '>':
        return cmp('<', y, x, flt)
    if op == '<=':
        return fge0(sub(y, x)) if flt else ge0(sub(y, x))
    if op == '>=':
        return cmp('<=', y, x, flt)
    raise ValueError(op)


# ---- locations -----------------------------------------------------------
def deref(p):
    if p.op == '&':
        return p.a[0]
    if p.op == 'padd':
        return mk('e', deref(p.a[0]), p.a[1])
    if p.op == 'ite':
        return mk('lite', p.a[0], deref(p.a[1]), deref(p.a[2]))
    return mk('pt', p)


def addr(l):
    if l.op == 'pt':
        return l.a[0]
    if l.op == 'lite':
        return ite(l.a[0], addr(l.a[1]), addr(l.a[2]))
    if l.op == 'e' and len(l.a) == 2 and l.a[0].op == 'pt':
        return padd(l.a[0].a[0], l.a[1])
    return mk('&', l)


def padd(p, n):
    if isc(n) and n.a[0] == 0:
        return p
    if p.op == 'padd':
        return padd(p.a[0], add(p.a[1], n))
    if p.op == '&' and p.a[0].op == 'e' and len(p.a[0].a) == 2:
        e = p.a[0]
        return mk('&', mk('e', e.a[0], add(e.a[1], n)))
    return mk('padd', p, n)


def ptr_split(p):
    if p.op == 'padd':
        return p.a[0], p.a[1]
    if p.op == '&' and p.a[0].op == 'e' and len(p.a[0].a) == 2:
        return p.a[0].a[0], p.a[0].a[1]
    return p, ZERO


def ptr_diff(x, y):
    """x - y for pointers into one array, else None."""
    (bx, ox), (by, oy) = ptr_split(x), ptr_split(y)
    if bx is by and (x.op in ('padd', '&') or y.op in ('padd', '&')):
        return sub(ox, oy)
    return None


LOCOPS = {'var', 'f', 'e', 'pt', 'heap', 'tmp', 'view', 'mat', 'glob', 'lite', 'buf'}


def parent(l):
    return l.a[0] if l.op in ('f', 'e', 'view') else None


def root(l):
    while l.op in ('f', 'e', 'view'):
        l = l.a[0]
    return l


def under(l, p):
    """l is p or a sub-location of p."""
    while True:
        if l is p:
            return True
        if l.op in ('f', 'e', 'view'):
            l = l.a[0]
        else:
            return False


# ---- facts ---------------------------------------------------------------
NONNEG_OPS = {'size', 'rows', 'cols', 'ix', 'al', 'u', 'nn'}


class Facts:
    __slots__ = ('lit', 'ge')

    def __init__(self, lit=None, ge=None):
        self.lit = lit if lit is not None else {}
        self.ge = ge if ge is not None else ()

    def copy(self):
        return Facts(dict(self.lit), self.ge)

    def meet(self, o):
        lit = {k: v for k, v in self.lit.items() if o.lit.get(k) == v}
        ge = tuple(p for p in self.ge if p in o.ge or o.entails_ge0(p))
        ge += tuple(p for p in o.ge if p not in ge and self.entails_ge0(p))
        return Facts(lit, ge)

    def assume(self, t, val=True):
        """Add literal; returns False on contradiction."""
        if isc(t):
            return bool(t.a[0]) == val
        if not val:
            if t.op == 'not':
                return self.assume(t.a[0], True)
            return self.assume(lnot(t), True) if t.op != 'not' and lnot(t).op != 'not' else self._lit(t, False)
        if t.op == 'not':
            return self.assume(t.a[0], False) if lnot(t.a[0]).op != 'not' else self._lit(t.a[0], False)
        if t.op == 'and':
            ok = True
            for x in t.a:
                ok = self.assume(x, True) and ok
            return ok
        if t.op == 'or':
            live = [x for x in t.a if self.eval(x) is not False]
            if not live:
                return False
            if len(live) == 1:
                return self.assume(live[0], True)
            return self._lit(t, True)
        if t.op == 'ite':
            c, x, y = t.a
            ex, ey = self.eval(x), self.eval(y)
            if ex is False:
                return self.assume(c, False) and self.assume(y, True)
            if ey is False:
                return self.assume(c, True) and self.assume(x, True)
            return self._lit(t, True)
        if t.op == 'ge0':
            p = t.a[0]
            if self.entails_ge0(sub(C(-1), p)):
                return False
            for a in atoms(p):
                if a.op == 'u' and pdict(p).get(((a.id, 1),), 0) < 0:
                    x = a.a[0]
                    self._ge(x)
                    self._ge(subst(p, {a: x}))
            self._ge(p)
            # a product of sizes that is positive has positive factors
            d = pdict(p)
            big = [m for m in d if m]
            if len(big) == 1 and d[big[0]] > 0 and d.get((), 0) < 0 and (len(big[0]) > 1 or big[0][0][1] > 1) \
                    and all(_byid[i].op in ('rows', 'cols', 'size') for i, _ in big[0]):
                return all([self.assume(ge0(sub(_byid[i], ONE)), True) for i, _ in big[0]])
            # p>=0 and -p>=0 => equality
            return True
        if t.op == 'eq0':
            p = t.a[0]
            e = self.eval(t)
            if e is False:
                return False
            self._ge(p)
            self._ge(neg(p))
        return self._lit(t, True)

    def _ge(self, p):
        if isc(p):
            return
        if p not in self.ge:
            self.ge = self.ge + (p,)
            if self.lit.get(eq0(p)) is False:      # p >= 0 and p != 0
                self._ge(sub(p, ONE))

    def _lit(self, t, v):
        if t in self.lit:
            return self.lit[t] == v
        e = self.eval(t)
        if e is not None and e != v:
            return False
        self.lit[t] = v
        if t.op == 'eq0' and not v:
            for p in (t.a[0], neg(t.a[0])):
                if p in self.ge:
                    self._ge(sub(p, ONE))
        return True

    def consistent(self):
        """No stored literal is refuted by the others."""
        for t, v in list(self.lit.items()):
            del self.lit[t]
            e = self.eval(t)
            self.lit[t] = v
            if e is not None and e != v:
                return False
        return True

    def eval(self, t):
        """True/False/None."""
        if isc(t):
            return bool(t.a[0])
        if t in self.lit:
            return self.lit[t]
        if t.op == 'not':
            r = self.eval(t.a[0])
            return None if r is None else not r
        if t.op == 'and':
            rs = [self.eval(x) for x in t.a]
            if any(r is False for r in rs):
                return False
            return True if all(r for r in rs) else None
        if t.op == 'or':
            rs = [self.eval(x) for x in t.a]
            if any(r is True for r in rs):
                return True
            if all(r is False for r in rs):
                return False
            return None
        if t.op == 'ite':
            c = self.eval(t.a[0])
            if c is None:
                x, y = self.eval(t.a[1]), self.eval(t.a[2])
                return x if x == y else None
            return self.eval(t.a[1] if c else t.a[2])
        if t.op == 'ge0':
            if self.entails_ge0(t.a[0]):
                return True
            if self.entails_ge0(sub(C(-1), t.a[0])):
                return False
            return None
        if t.op == 'eq0':
            p = t.a[0]
            if self.entails_ge0(sub(p, ONE)) or self.entails_ge0(sub(C(-1), p)):
                return False
            if p in self.ge and neg(p) in self.ge:
                return True
            if self.entails_ge0(p) and self.entails_ge0(neg(p)):
                return True
            return None
        if t.op in ('fgt0', 'fge0'):
            p = t.a[0]
            if t.op == 'fge0':
                if self.lit.get(mk('fgt0', p)) or nonneg_float(p):
                    return True
                if self.lit.get(fgt0(neg(p))):
                    return False
            else:
                if self.lit.get(fge0(neg(p))) or nonneg_float(neg(p)):
                    return False
                if self.lit.get(fgt0(neg(p))):
                    return False
            return None
        return None

    def entails_ge0(self, p, depth=2):
        """Linear reasoning: p = (non-negative) + combination of known facts."""
        if nonneg(p) or p in self.ge:
            return True
        if depth == 0 or len(self.ge) > 200:
            return False
        d = pdict(p)
        negm = [m for m, c in d.items() if c < 0 and m]
        short = d.get((), 0) < 0
        posm = [m for m, c in d.items() if c > 0 and m and
                (short or any(pw % 2 and not nonneg_atom(_byid[i]) for i, pw in m))]
        for q in self.ge:
            dq = pdict(q)
            # use q only if it cancels some monomial of p that may be negative
            for m in negm + posm:
                if dq.get(m, 0) * d[m] > 0:
                    k = d[m] / dq[m]
                    if isinstance(d[m], int) and isinstance(dq[m], int) and d[m] % dq[m] == 0:
                        k = d[m] // dq[m]
                    if self.entails_ge0(sub(p, scale(q, k)), depth - 1):
                        return True
                    break
        # al(n) >= n
        for m in negm:
            if len(m) == 1 and m[0][1] == 1:
                a = _byid[m[0][0]]
                # p has -k*a; look for bound a <= something structural
                for ub in upper_bounds(a):
                    if self.entails_ge0(add(p, scale(sub(a, ub), -d[m])), depth - 1):
                        return True
        # p contains +k*al(x): use al(x) >= x
        for m, c in d.items():
            if c > 0 and len(m) == 1 and m[0][1] == 1:
                a = _byid[m[0][0]]
                for lb in lower_bounds(a):
                    if self.entails_ge0(add(p, scale(sub(lb, a), c)), depth - 1):
                        return True
        return False


def lower_bounds(a):
    if a.op == 'al':
        return [a.a[0]]
    return []


def upper_bounds(a):
    if a.op == 'ix' and len(a.a) > 1 and isinstance(a.a[1], T):
        return [sub(a.a[1], ONE)]
    if a.op == 'imod' and isc(a.a[1]):
        return [C(a.a[1].a[0] - 1)]
    return []


def _hash(n):
    return isinstance(n, str) and n[:1] == '#'


def nonneg_atom(a):
    if a.op in ('i', 'lp') and isinstance(a.a[-1], T) and a.a[-1].op == 'f' and _hash(a.a[-1].a[1]):
        return True
    if a.op == 'fv' and _hash(a.a[1]):
        return True
    return a.op in NONNEG_OPS or (a.op == 'imod' and nonneg(a.a[0])) or \
        (a.op == 'idiv' and nonneg(a.a[0]) and nonneg(a.a[1]))


def nonneg(p):
    for m, c in pdict(p).items():
        if c < 0:
            return False
        for i, pw in m:
            if pw % 2 and not nonneg_atom(_byid[i]):
                return False
    return True


def nonneg_float(p):
    for m, c in pdict(p).items():
        if c < 0:
            return False
        for i, pw in m:
            a = _byid[i]
            if pw % 2 and not (nonneg_atom(a) or (a.op == 'call' and a.a[0] in ('sqrt', 'fabs', 'abs', 'norm', 'squaredNorm'))):
                return False
    return True
