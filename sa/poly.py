"""Nonnegativity of products: p >= 0 follows from facts f >= 0 when p = f*q + r with q, r >= 0."""
from .terms import *
from .terms import pdict, pterm, atoms


def equalities(facts):
    mp = {}
    ges = set(facts.ge)
    eqs = [p for p in facts.ge if neg(p) in ges]
    for t, v in list(facts.lit.items()):
        if t.op == 'eq0' and v:
            eqs.append(t.a[0])
    for p in eqs:
        p = subst(p, mp) if mp else p
        d = pdict(p)
        lin = [(m, c) for m, c in d.items() if len(m) == 1 and m[0][1] == 1 and abs(c) == 1]
        lin = [(m, c) for m, c in lin if sum(1 for m2 in d if any(i == m[0][0] for i, _ in m2)) == 1]
        if not lin:
            continue
        m, c = max(lin, key=lambda mc: mc[0][0][0])
        x = BY_ID(m[0][0])
        rest = sub(p, pterm({m: c}))
        v = neg(rest) if c == 1 else rest
        mp = {k: subst(w, {x: v}) for k, w in mp.items()}
        mp[x] = v
    return mp


def lead(d):
    return max(d, key=lambda m: (sum(p for _, p in m), m))


def mono_div(m, n):
    a = dict(m)
    for i, p in n:
        if a.get(i, 0) < p:
            return None
        a[i] -= p
        if not a[i]:
            del a[i]
    return tuple(sorted(a.items()))


def divide(p, f):
    """p = q*f + r with respect to the leading monomial of f."""
    q, r = ZERO, ZERO
    fd = pdict(f)
    lf = lead(fd)
    for _ in range(40):
        pd = pdict(p)
        if not pd:
            break
        hit = None
        for m in pd:
            g = mono_div(m, lf)
            if g is not None:
                hit = (m, g)
                break
        if hit is None:
            return q, add(r, p)
        m, g = hit
        t = pterm({g: pd[m] / fd[lf] if pd[m] % fd[lf] else pd[m] // fd[lf]})
        q = add(q, t)
        p = sub(p, mul(t, f))
    return q, add(r, p)


def prove(facts, p, depth=3, mp=None):
    if isc(p):
        return cval(p) >= 0
    if facts.entails_ge0(p):
        return True
    if mp is None:
        mp = equalities(facts)
        if mp:
            p = subst(p, mp)
            if isc(p):
                return cval(p) >= 0
            if facts.entails_ge0(p):
                return True
    if depth == 0:
        return False
    if p.op == 'ite':
        for v in (True, False):
            f2 = facts.copy()
            if f2.assume(p.a[0], v) and f2.consistent() and not prove(f2, p.a[1] if v else p.a[2], depth - 1):
                return False
        return True
    seen = set()
    for f in facts.ge:
        f = subst(f, mp) if mp else f
        if isc(f) or f in seen:
            continue
        seen.add(f)
        q, r = divide(p, f)
        if q is ZERO or q is p:
            continue
        if (r is ZERO or facts.entails_ge0(r)) and (facts.entails_ge0(q) or prove(facts, q, depth - 1, mp)):
            return True
    return False
