"""Shared helpers for the checks."""
from .terms import *
from .engine import Interp, Client, State, Undecided
from .front import AnalysisBroken


def api(P, name):
    """An extern-C entry point; a vanished one leaves the analysis without a subject."""
    fs = [f for f in P.named(name) if f.body is not None]
    if not fs:
        raise AnalysisBroken('entry point %s not found' % name)
    return fs[0]


def repo_fns(P, suffix):
    return [f for f in P.fns.values() if f.body is not None and P.is_repo(f) and
            (f.name == suffix or f.name.endswith('::' + suffix))]


def record(P, name):
    rs = [r for r in P.records.values() if r['n'] == name and r.get('fields')]
    if not rs:
        raise AnalysisBroken('record %s not found' % name)
    return rs[0]


def deref_arg(P, I, st, v):
    return st.readagg(v) if v.op in LOCOPS else v


def rets(outs):
    return [o for o in outs if o.kind == 'ret']


def strip_int(t):
    """Drop value-preserving conversions."""
    while t.op in ('u', 'trunc') and len(t.a) == 1:
        t = t.a[0]
    return t


def cases(facts, t, limit=32):
    """Split a value on the conditions it contains: [(facts, condition-free value)]."""
    out, todo = [], [(facts, t)]
    while todo:
        f, v = todo.pop()
        c = None
        for x in subterms(v):
            if x.op == 'ite':
                c = x.a[0]
                break
        if c is None or len(out) + len(todo) > limit:
            out.append((f, v))
            continue
        for val in (True, False):
            e = f.eval(c)
            if e is not None and e != val:
                continue
            f2 = f.copy()
            if not f2.assume(c, val) or not f2.consistent():
                continue
            mp = {x: (x.a[1] if val else x.a[2]) for x in subterms(v) if x.op == 'ite' and x.a[0] is c}
            w = v
            for _ in range(20):
                w2 = subst(w, mp)
                mp = {x: (x.a[1] if val else x.a[2]) for x in subterms(w2) if x.op == 'ite' and x.a[0] is c}
                w = w2
                if not mp:
                    break
            todo.append((f2, w))
    return out


SIMPLE = {'p', 'c', 'i', 'rows', 'cols', 'poly', 'pt', 'f', 'e', 'heap', 'u', 'ix', 'size', 'var'}


def simple(t):
    """Only plain inputs, sizes and constants: an inequality between two such values is real."""
    return all(x.op in SIMPLE for x in subterms(t))


def equal(facts, x, y):
    """True / False / None."""
    from .poly import equalities
    res = []
    for f, d in cases(facts, sub(x, y)):
        if isc(d):
            res.append(cval(d) == 0)
            continue
        e = f.eval(eq0(d))
        if e is None:
            mp = equalities(f)
            d2 = subst(d, mp) if mp else d
            if isc(d2):
                e = cval(d2) == 0
            elif simple(d2):
                e = False
        res.append(e)
    if not res or all(r is True for r in res):
        return True
    return False if any(r is False for r in res) else None


def worlds(facts, b, val=True, limit=64):
    """Ways in which a boolean can have a value, as sets of facts about its atomic conditions."""
    b = tobool(b) if b.op not in ('and', 'or', 'not', 'ite') else b
    e = facts.eval(b)
    if e is not None:
        return [facts] if e == val else []
    if b.op == 'not':
        return worlds(facts, b.a[0], not val, limit)
    if b.op == 'ite':
        out = []
        for c, x in ((True, b.a[1]), (False, b.a[2])):
            for f in worlds(facts, b.a[0], c, limit):
                out += worlds(f, x, val, limit)
        return out[:limit]
    if b.op in ('and', 'or'):
        if (b.op == 'and') == val:
            cur = [facts]
            for x in b.a:
                cur = [g for f in cur for g in worlds(f, x, val, limit)][:limit]
            return cur
        out, rest = [], [facts]
        for x in b.a:
            for f in rest:
                out += worlds(f, x, val, limit)
            rest = [g for f in rest for g in worlds(f, x, not val, limit)][:limit]
        return out[:limit]
    f = facts.copy()
    return [f] if f.assume(b, val) and f.consistent() else []
