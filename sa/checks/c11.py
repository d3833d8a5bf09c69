from ..util import *
from ..engine import LOCOPS
from .c27 import Trip

TECHNIQUE = 'call-forwarding analysis of the type-erased interfaces: operation, object, arguments and result of every forwarder on every path'
RULE = ('An operation F of the type-erased Constraint or Workspace reaches, through exactly one virtual call on its own model with its own '
        'arguments in order, the operation F of the wrapped object, which is called exactly once, on that object, with the same '
        'arguments in the same order, and whose result is returned; this holds for every wrapped type. The wrapper keeps the '
        'address it was constructed with.')

SKIP = {'get_dual_variable', 'dual_variable_size'}
ERASED = ('conex::Constraint', 'conex::Workspace')


class Fw(Trip):
    def __init__(self, root, ops):
        super().__init__()
        self.root, self.ops, self.log, self.op = root, ops, [], None

    def opaque(self, fn):
        return fn is not self.root and fn.short in self.ops and not (fn.rec or '').startswith(tuple(e + '::Model' for e in ERASED))

    def on_call(self, I, st, node, name, obj, args):
        if I.mute:
            return
        self.log.append((name, obj, list(args), st.loops))
        if self.op is None and '::Concept::do_' in name or short(name) == self.op:
            st.cs['calls'] = min(2, st.cs.get('calls', 0) + 1)


def params(f):
    """Terms by which the parameters of f may be passed on."""
    out = []
    for i, p in enumerate(f.params):
        n = p['n'] or 'arg%d' % i
        q = mk('p', n)
        out.append((q, mk('pt', q)) if f.tu.t(p['t']).get('ref') else (q, q))
    return out


def short(n):
    import re
    depth, out = 0, []
    for ch in n:
        if ch == '<':
            depth += 1
        elif ch == '>':
            depth -= 1
        elif depth == 0:
            out.append(ch)
    return ''.join(out).split('::')[-1]


def unb(v):
    """A call result, without the conversion to a boolean."""
    v = strip_int(v)
    while v.op in ('b', 'not') and False:
        v = v.a[0]
    if v.op == 'b' and len(v.a) == 2:
        v = v.a[1]
    return v


def passed(v, p):
    """True / False / None: is v the parameter p (value, reference or contents)?"""
    if v in p:
        return True
    if isc(v):
        return False
    x = strip_int(v)
    if x in p:
        return True
    if x.op == 'b' and len(x.a) == 2 and x.a[1] in p or x.op == 'not' and False:
        return True
    if x.op in ('p', 'pt') and not x in p:
        return False
    if x.op in ('not', 'eq0') and any(y in p for y in subterms(x)):
        return False
    return None


def callees(f, P):
    out, todo = [], [f.j]
    while todo:
        e = todo.pop()
        if isinstance(e, dict):
            if isinstance(e.get('fn'), str) and e['fn'] in P.fns:
                out.append(P.fns[e['fn']])
            todo += e.values()
        elif isinstance(e, list):
            todo += e
    return out


def counted(R, key, f, outs, op):
    for o in rets(outs):
        n = o.st.cs.get('calls', 0)
        R.verdict(n == 1, key + ':every path', f.loc, '%s is carried out %s on some path' % (op, 'not at all' if not n else 'more than once'))


def compare(R, key, f, call, want, obj_ok, result_needed, outs):
    name, obj, args, loops = call
    ps = want
    if len(args) < len(ps):
        R.und(key + ':arguments', f.loc, 'arguments not recognised')
        return
    rest = args[len(args) - len(ps):]
    for i, (v, p) in enumerate(zip(rest, ps)):
        R.verdict(passed(v, p), '%s:argument %d' % (key, i), f.loc, '%s is passed as %s to %s' % (show(p[0]), show(v)[:60], name))
    R.verdict(obj_ok, key + ':object', f.loc, '%s is called on %s' % (name, show(obj)[:80] if hasattr(obj, 'op') else 'another object'))
    R.verdict(True if not loops else None, key + ':once', f.loc)
    if result_needed:
        for o in rets(outs):
            v = unb(o.val) if o.val is not None else None
            ok = None
            if v is not None:
                if v.op == 'call' and any(short(str(v.a[0])) == short(name) for _ in (0,)):
                    ok = True
                elif isc(v):
                    ok = False
                elif any(x.op == 'call' and short(str(x.a[0])) == short(name) for x in subterms(v)):
                    ok = False if v.op in ('not', 'eq0') else None
            R.verdict(ok, key + ':result', f.loc, 'the result of %s is not what is returned (%s)' % (name, show(o.val)[:80]))


def check(P, R):
    fr, models, ctors = {}, {}, []
    for f in P.fns.values():
        if f.body is None or not P.is_repo(f):
            continue
        rec = f.rec or ''
        base = next((e for e in ERASED if rec == e), None)
        first = f.tu.t(f.params[0]['t'])['s'].replace('const ', '').replace('&', '').replace('*', '').strip() if f.params else ''
        if rec.startswith(tuple(e + '::Model' for e in ERASED)):
            if f.j.get('ctor'):
                if f.params and not f.j.get('copy') and not f.j.get('move'):
                    ctors.append(f)
            elif not f.short.startswith('~'):
                e = next(x for x in ERASED if rec.startswith(x + '::Model'))
                models.setdefault((e, f.short), []).append(f)
        elif base and not f.j.get('ctor') and not f.short.startswith(('~', 'operator')):
            fr[(base, f.short)] = (f, True)
        elif first in ERASED and not rec and f.loc.startswith(('conex/constraint.h', 'conex/workspace.h')):
            fr[(first, f.short)] = (f, False)
    ops = {k[1] for k in fr}
    nf, nm = 0, 0
    for (e, op), (f, method) in sorted(fr.items()):
        if op in SKIP:
            continue
        key = '%s::%s' % (e.split('::')[-1], op)
        cl = Fw(f, ops)
        try:
            outs = Interp(P, cl).run(f)
        except (Undecided, RecursionError) as x:
            R.und(key, f.loc, str(x))
            continue
        nf += 1
        virt = [c for c in cl.log if c[0].startswith(e + '::Concept::do_')]
        names = {short(c[0]) for c in virt}
        if not virt:
            R.und(key + ':forwards', f.loc, 'no virtual call recognised')
            continue
        counted(R, key, f, outs, op)
        ps = params(f)
        want = ps if method else ps[1:]
        void = f.tu.t(f.j['ret'])['s'] == 'void' if f.j.get('ret') is not None else all(o.val is None or o.val.op == 'void' for o in rets(outs))
        void = void or all(o.val is None or o.val.op == 'void' for o in rets(outs))
        for c in virt:
            own = mk('pt', mk('p', 'this')) if method else ps[0][1]
            b = c[1]
            mine = hasattr(b, 'op') and any(x in (mk('p', 'this'), ps[0][0] if ps else None) for x in subterms(b))
            if hasattr(b, 'op') and method:
                mine = any(x.op == 'p' and x.a[0] == 'this' or x.op == 'this' for x in subterms(b))
            compare(R, key, f, c, want, True if mine else None, not void, outs)
            # the operation of the wrapped object
            for g in sorted(models.get((e, short(c[0])), []), key=lambda g: g.name):
                wrapped = g.name.split('Model<', 1)[-1].rsplit('>::', 1)[0]
                k2 = '%s:%s:%s' % (key, short(c[0]), wrapped.replace('conex::', '').replace('(anonymous namespace)::', ''))
                cg = Fw(g, ops)
                cg.op = op
                try:
                    og = Interp(P, cg).run(g)
                except (Undecided, RecursionError) as x:
                    R.und(k2, g.loc, str(x))
                    continue
                nm += 1
                data = mk('i', mk('f', mk('pt', mk('p', 'this')), 'data'))
                hits = [x for x in cg.log if short(x[0]) in ops and not x[0].startswith('std::') and x[0] != g.name]
                same = [x for x in hits if short(x[0]) == op]
                other = [x for x in hits if short(x[0]) != op]
                if not same:
                    R.verdict(False if other or not cg.log else None, k2 + ':operation', g.loc, '%s is carried out as %s' % (
                        op, [x[0] for x in other] or 'nothing'))
                    continue
                counted(R, k2, g, og, op)
                R.verdict(True if not other else None, k2 + ':operation', g.loc, '%s also calls %s' % (op, [x[0] for x in hits]))
                for x in same[:1]:
                    tgt = x[1] if x[1] is not None and hasattr(x[1], 'op') and len(x[2]) == len(params(g)) else (x[2][0] if x[2] else None)
                    isdata = tgt is not None and any(y.op == 'f' and y.a[1] == 'data' for y in subterms(tgt))
                    gv = not all(o.val is None or o.val.op == 'void' for o in rets(og))
                    if op == 'workspace':
                        ok = None
                        wr = [w for w in cg.log if short(w[0]) == 'Model' and len(w[2]) == 1]
                        if wr:
                            v = wr[-1][2][0]
                            ok = True if any(y.op == 'call' and short(str(y.a[0])) == 'workspace' for y in subterms(v)) else None
                        R.verdict(ok, k2 + ':result', g.loc, 'the workspace returned is not the one of the wrapped object')
                        R.verdict(True if isdata else None, k2 + ':object', g.loc)
                        continue
                    compare(R, k2, g, x, params(g), True if isdata else None, gv, og)
    derived = [f for f in P.fns.values() if f.body is not None and P.is_repo(f) and f.short in ops - SKIP and f.params and not any(
        f is x[0] for x in fr.values()) and not (f.rec or '').startswith(ERASED)]
    for f in sorted(derived, key=lambda f: f.loc + f.name):
        own = f.tu.t(f.params[0]['t'])['s']
        cl = Fw(f, ops)
        cl.op = f.short
        same = [g for g in callees(f, P) if g.short == f.short and g is not f and len(g.params) == len(f.params)]
        if not same:
            continue
        key = '%s:%s' % (own.replace('conex::', ''), f.short)
        try:
            outs = Interp(P, cl).run(f)
        except (Undecided, RecursionError) as x:
            R.und(key, f.loc, str(x))
            continue
        hits = [x for x in cl.log if short(x[0]) == f.short]
        ps = params(f)
        if not hits or not all(x[2] and strip_int(x[2][0]) in ps[0] for x in hits):
            continue                # not a delegation of its own object
        counted(R, key, f, outs, f.short)
        for x in hits:
            mine = bool(x[2]) and any(y in ps[0] for y in subterms(x[2][0]))
            compare(R, key, f, x, ps[1:], True if mine else None, not all(o.val is None or o.val.op == 'void' for o in rets(outs)), outs)
    for f in ctors:
        key = 'constructor:' + f.name.split('Model<', 1)[-1].split('>::Model')[0].replace('conex::', '')
        try:
            for o in rets(Interp(P, Trip()).run(f)):
                v = o.st.read(mk('f', mk('pt', mk('p', 'this')), 'data'))
                p = params(f)[0]
                R.verdict(True if v in p else False if isc(v) or v.op == 'i' and 'this' in show(v) else None, key, f.loc, 'the wrapper refers to %s instead of the object it was given' % show(v)[:60])
        except (Undecided, RecursionError) as x:
            R.und(key, f.loc, str(x))
    R.floor('forwarding operations', nf, 5)
    R.floor('forwarders of wrapped types', nm, 20)


