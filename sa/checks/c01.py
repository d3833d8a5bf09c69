from ..util import *

TECHNIQUE = 'interprocedural value-numbering dataflow from the API entry points to the solver call'
RULE = ('For every field of the public option record: the value the default-options call leaves in it equals the '
        'initialiser of the same-named field of the internal configuration; the configuration that reaches the core '
        'solve call from each public solve call equals the caller\'s field; the two records have the same fields.')


class Grab(Client):
    def __init__(self, target):
        self.t, self.got = target, []

    def opaque(self, fn):
        return fn.name == self.t

    def call(self, I, st, node, name, obj, args):
        if name == self.t:
            pts = node.get('pt', [])
            self.got.append((st.fork(), node, args, [I.fr.tu.t(p) for p in pts]))
            return [(st, mk('b', 'call', mk('call', 'solve', C(len(self.got)))))]
        return None


def check(P, R):
    api_rec = record(P, 'CONEX_SolverConfiguration')
    core = record(P, 'conex::SolverConfiguration')
    fa = {f['n'] for f in api_rec['fields']}
    fc = {f['n'] for f in core['fields']}
    for n in sorted(fa | fc):
        R.verdict(n in fa and n in fc, 'option-present:' + n, '', 'option %s missing from %s' %
                  (n, 'the public record' if n not in fa else 'the internal configuration'))

    # defaults of the internal record, through its constructor
    I = Interp(P)
    ctor = [f for f in P.fns.values() if f.j.get('ctor') and f.rec == 'conex::SolverConfiguration' and not f.params]
    if not ctor:
        raise AnalysisBroken('default constructor of the configuration not found')
    st = State()
    L = mk('heap', 'cfg')
    defaults = {}
    outs = I.invoke(ctor[0], st, L, [], None)
    for s, _ in outs:
        for n in fc:
            defaults[n] = s.read(mk('f', L, n))

    # (a) SetDefaultOptions
    f = api(P, 'CONEX_SetDefaultOptions')
    n = 0
    I = Interp(P)
    for o in rets(I.run(f)):
        p = mk('p', f.params[0]['n'])
        if o.st.facts.eval(tobool(p)) is False:
            continue
        for fld in sorted(fa):
            got = o.st.read(mk('f', mk('pt', p), fld))
            # strip the null-pointer guard
            g = got
            while g.op == 'ite':
                c = g.a[0]
                isnull = c is eq0(p) or c is lnot(tobool(p))
                nonnull = c is tobool(p)
                if isnull:
                    g = g.a[2]
                elif nonnull:
                    g = g.a[1]
                else:
                    break
            want = defaults.get(fld)
            n += 1
            if want is None:
                continue
            if g is want:
                R.ok('default:' + fld, f.loc, '%s := %s' % (fld, show(want)))
            elif isc(g) or g.op == 'i':
                R.bad('default:' + fld, f.loc, 'left as %s, the core default is %s' % (show(g), show(want)))
            else:
                R.und('default:' + fld, f.loc, show(g))
    R.floor('default-option fields', n, 1)

    # (b) solve entry points
    for name in ('CONEX_Solve', 'CONEX_Maximize'):
        f = api(P, name)
        cl = Grab('conex::Solve')
        I = Interp(P, cl)
        I.run(f)
        cfgp = [p for p in f.params if 'CONEX_SolverConfiguration' in f.tu.t(p['t'])['s']]
        if not cfgp:
            raise AnalysisBroken('%s takes no configuration' % name)
        src = mk('pt', mk('p', cfgp[0]['n']))
        R.floor(name + ': reached core solve calls', len(cl.got), 1)
        for st, node, args, pts in cl.got:
            for a, t in zip(args, pts):
                if 'SolverConfiguration' not in t['s']:
                    continue
                for fld in sorted(fc):
                    v = st.read(mk('f', a, fld))
                    want = mk('i', mk('f', src, fld))
                    k = 'pass:%s:%s' % (name, fld)
                    if v is want:
                        R.ok(k, node.get('l', ''), show(v))
                    elif isc(v) or v.op in ('i', 'uninit'):
                        R.bad(k, node.get('l', ''), 'the solver receives %s instead of the caller\'s %s' % (show(v), fld))
                    elif any(x is want for x in subterms(v)) is False:
                        R.bad(k, node.get('l', ''), 'the value the solver receives (%s) does not depend on the caller\'s %s' % (show(v), fld))
                    else:
                        R.bad(k, node.get('l', ''), 'the solver receives %s instead of the caller\'s %s' % (show(v), fld))

    # (c) an option nobody reads has no effect
    reads = {}
    for g in P.fns.values():
        if g.body is None or g.name.startswith(('CONEX_', '(anonymous', 'APIConvert')) or not P.is_repo(g):
            continue
        if 'SolverConfiguration' in (g.rec or ''):
            continue
        for e in walk_exprs(g):
            if e.get('k') == 'mem' and e.get('f') in fc and (e.get('r') or '').endswith('SolverConfiguration'):
                reads.setdefault(e['f'], g.name)
    for fld in sorted(fc):
        R.verdict(fld in reads, 'used:' + fld, reads.get(fld, ''), 'no function of the solver reads option %s' % fld)


def walk_exprs(f):
    from ..front import walk
    return walk(f.body)
