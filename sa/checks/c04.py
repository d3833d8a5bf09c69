from ..util import *
from ..lib import shape
from ..poly import prove, equalities
from ..terms import under
from .. import api as A

TECHNIQUE = 'symbolic extent dataflow: every view, index and copy of a caller buffer against its declared size'
RULE = ('Every view, element access and block copy of a buffer passed to a public entry point starts at or after its '
        'beginning and ends at or before the extent declared by the size arguments, on every path; a constraint or cost '
        'is only added, and a solve only started, on paths on which the dimension arguments agree; the number of values '
        'written for a dual variable is the size the constraint reports, which the entry point has compared with the '
        'caller\'s; a caller index that does not fit the internal integer type is refused.')

# entry point -> {pointer position: positions whose product is the declared extent}, equal dimension groups, nonnegative
SPEC = {
    'CONEX_AddDenseLMIConstraint': ({1: (2, 3, 4), 5: (6, 7)}, [(2, 3), (2, 6), (6, 7)]),
    'CONEX_AddSparseLMIConstraint': ({1: (2, 3, 4), 5: (6, 7), 8: (9,)}, [(2, 3), (2, 6), (6, 7), (4, 9)]),
    'CONEX_AddLinearInequalities': ({1: (2, 3), 4: (5,), 6: (7,)}, [(2, 5), (2, 7)]),
    'CONEX_AddDenseLinearConstraint': ({1: (2, 3), 4: (5,)}, [(2, 5)]),
    'CONEX_AddQuadraticCost': ({1: (2, 3)}, [(2, 3)]),
    'CONEX_Maximize': ({1: (2,), 4: (5,)}, []),
    'CONEX_Solve': ({2: (3,)}, []),
    'CONEX_GetDualVariable': ({2: (3, 4)}, []),
}


class Buf(A.Api):
    def __init__(self, f, handle=None):
        super().__init__(f, handle)
        self.solves, self.copies, self.dual, self.conv, self.asked = [], [], [], [], []

    def opaque(self, fn):
        return super().opaque(fn) or fn.name == 'conex::Program::GetDualVariableSize' and False

    def on_call(self, I, st, node, name, obj, args):
        if I.mute:
            return
        s = name.split('::')[-1]
        if s in ('memcpy', 'memmove', 'copy_n'):
            self.copies.append((st.fork(), s, args, node.get('l', '')))

    def call(self, I, st, node, name, obj, args):
        r = super().call(I, st, node, name, obj, args)
        if name == 'conex::Program::GetDualVariableSize' and args and args[0].op not in LOCOPS:
            if not I.mute:
                self.asked.append(args[0])
            return [(st, mk('call', 'program dual_variable_size', args[0]))]
        if I.mute:
            return r
        if name in A.SOLVES:
            self.solves.append((st.fork(), node, args))
        if name.endswith('::do_get_dual_variable'):
            self.dual.append((st.fork(), obj, args, node.get('l', '')))
        return r

    def on_narrow(self, I, st, v, src, dst, node):
        # a wide caller integer stored in a narrower one
        if 'long' in src['s'] and 'long' not in dst['s'] and dst['k'] in ('int', 'uint') and v.op == 'i' and self.base(v.a[0]) not in (None, self.h):
            n = mk('n32', v)
            if not I.mute:
                st.cs['nar'] = (n, v)
            return n
        return v

    def on_loop_back(self, I, st):
        self.settle(I, st)

    def settle(self, I, st):
        t = st.cs.get('nar')
        if t is None:
            return
        n, v = t
        ok = st.facts.eval(eq0(sub(n, v))) is True
        if not I.mute:
            self.conv.append((ok, show(v)))
        del st.cs['nar']


def extent(f, pos):
    e = ONE
    for i in pos:
        e = mul(e, mk('p', f.params[i]['n']))
    return e


def offset(ptr, b):
    """Offset of a pointer value in the buffer it points into."""
    from ..terms import ptr_split
    base, off = ptr_split(ptr)
    p = b.a[0]
    if base is p or base is b or base.op == '&' and base.a[0] is b:
        return off
    return None


def settled(facts, p):
    """The loop counters in p have bounds the analysis knows, so that a missing proof is a missing check."""
    ixs = [x for x in subterms(p) if x.op == 'ix']
    return all(any(g is not x and x in set(subterms(g)) for g in facts.ge) for x in ixs)


def buffers(P, R, f, caps, eqs):
    cl = Buf(f)
    I = Interp(P, cl)
    st = State()
    if cl.h is not None:
        for v in nvars_terms(P, cl.h):
            st.assume(ge0(v), True)
    outs = I.run(f, st=st)
    names = {mk('pt', mk('p', f.params[i]['n'])): (f.params[i]['n'], extent(f, pos)) for i, pos in caps.items()}
    n = 0
    for st, b, ptr, r, c, w in cl.maps:
        if b not in names:
            continue
        nm, cap = names[b]
        n += 1
        k = '%s:%s' % (f.name, nm)
        off = offset(ptr, b)
        if off is None:
            R.und(k + ':view', w, show(ptr))
            continue
        for p_ in (r, c):
            if not prove(st.facts, p_):
                R.bad(k + ':nonnegative', w, 'a view with extent %s is formed without checking its sign' % show(p_))
            else:
                R.ok(k + ':nonnegative', w)
        end = add(off, mul(r, c))
        if not prove(st.facts, off):
            R.bad(k + ':start', w, 'view starts at %s' % show(off))
        if prove(st.facts, sub(cap, end)):
            R.ok(k + ':end', w, '%s <= %s' % (show(end), show(cap)))
        elif settled(st.facts, end) and all(x.op in ('p', 'ix', 'poly', 'c', 'u') for x in subterms(sub(cap, end))):
            R.bad(k + ':end', w, 'a view of %s spans elements up to %s, the caller provides %s' % (nm, show(end), show(cap)))
        else:
            R.und(k + ':end', w, '%s <= %s' % (show(end), show(cap)))
    seen = set()
    for st, b, loc, kind, w in cl.acc:
        if b not in names or loc.op != 'e' or len(loc.a) != 2 or loc.a[0] is not b:
            continue
        nm, cap = names[b]
        ix = strip_int(loc.a[1])
        if (w, ix) in seen:
            continue
        seen.add((w, ix))
        n += 1
        k = '%s:%s' % (f.name, nm)
        lo, hi = prove(st.facts, ix), prove(st.facts, sub(sub(cap, ONE), ix))
        if lo and hi:
            R.ok(k + ':element', w, '0 <= %s < %s' % (show(ix), show(cap)))
        elif settled(st.facts, ix) and all(x.op in ('p', 'ix', 'poly', 'c', 'u') for x in subterms(sub(cap, ix))):
            R.bad(k + ':element', w, 'element %s of %s is accessed, the caller provides %s' % (show(ix), nm, show(cap)))
        else:
            R.und(k + ':element', w, show(ix))
    for st, s, args, w in cl.copies:
        for a in args[:2]:
            b = cl.of_ptr(a) if a.op not in LOCOPS else None
            if b in names:
                n += 1
                nm, cap = names[b]
                off = offset(a, b)
                cnt = args[2] if s != 'copy_n' else mul(C(8), args[2])
                need = add(mul(C(8), off), cnt) if off is not None else None
                if need is None:
                    R.und('%s:%s:copy' % (f.name, nm), w, show(a))
                elif prove(st.facts, sub(mul(C(8), cap), need)):
                    R.ok('%s:%s:copy' % (f.name, nm), w)
                else:
                    R.und('%s:%s:copy' % (f.name, nm), w, show(need))
    # inconsistent dimensions are refused
    for o in outs:
        if o.kind != 'ret' or not o.st.cs.get('app'):
            continue
        for i, j in eqs:
            a, b = f.params[i]['n'], f.params[j]['n']
            v = o.st.facts.eval(eq0(sub(mk('p', a), mk('p', b))))
            R.verdict(v is True, '%s:%s=%s' % (f.name, a, b), f.loc,
                      'a constraint is added although %s and %s may differ' % (a, b))
    for ok, what in cl.conv:
        R.verdict(ok, f.name + ':narrowing', f.loc, 'the caller value %s is converted to a narrower integer without a check' % what)
    return n, cl


def solve_extent(P, R):
    """Every view of the result pointer in the core solve call spans the number of variables."""
    fs = [f for f in P.fns.values() if f.name == 'conex::Solve' and f.body is not None and f.rec is None]
    out = []
    for f in fs:
        class Cl(A.Api):
            def opaque(self, fn):
                return fn.loc.split(':')[0] not in ('conex/cone_program.cc', 'conex/cone_program.h', 'conex/constraint_manager.h', 'conex/constraint.h')

            def call(self, I, st, node, name, obj, args):
                if name == 'conex::Solve':
                    self.sub = True
                return None
        cl = Cl(f)
        I = Interp(P, cl)
        prog = [p for p in f.params if f.tu.t(p['t']).get('ref') and 'Program' in f.tu.t(p['t'])['s']]
        ys = [p for p in f.params if f.tu.t(p['t'])['k'] == 'ptr']
        if not prog or not ys:
            continue
        yl = mk('pt', mk('p', ys[-1]['n']))
        cl.ptrs = {yl: ys[-1]['n']}
        try:
            I.run(f)
        except Undecided as e:
            R.und('solve:result', f.loc, str(e))
            continue
        pl = mk('pt', mk('p', prog[0]['n']))
        lc = mk('i', mk('f', pl, 'linear_cost_'))
        good = {mk('rows', lc)}
        # rows(linear_cost_) = number of variables, kept by the mutators (checked below)
        nv = [x for x in nvars_terms(P, pl)]
        n = 0
        for st, b, ptr, r, c, w in cl.maps:
            if b is not yl:
                continue
            n += 1
            facts = st.facts.copy()
            for v in nv:
                facts.assume(eq0(sub(mk('rows', lc), v)), True)
            end = add(offset(ptr, yl) or ZERO, mul(r, c))
            res = []
            for fc, e in cases(facts, end):
                if any(prove(fc, sub(g, e)) for g in good | set(nv)):
                    continue
                res.append(None if mentions(e, lambda x: x.op == 'ite') else False)
            R.verdict(False if False in res else None if None in res else True, 'solve:result-extent:%s' % w.split(':')[0], w,
                      'the result view spans %s elements, callers provide the number of variables' % show(e))
        out.append(n)
    R.floor('views of the result vector in the solve call', sum(out), 1)


def nvars_terms(P, pl):
    """Initial-state value returned by Program::GetNumberOfVariables."""
    fs = [f for f in P.fns.values() if f.name == 'conex::Program::GetNumberOfVariables' and f.body is not None]
    if not fs:
        return []
    return [o.val for o in Interp(P).run(fs[0], this=pl) if o.kind == 'ret']


def invariant(P, R):
    """linear_cost_ always has one entry per variable."""
    this = mk('pt', mk('p', 'this'))
    L = mk('f', this, 'linear_cost_')
    n = 0
    for f in P.fns.values():
        if f.rec != 'conex::Program' or f.body is None or f.j.get('const'):
            continue
        if f.short in ('GetDualVariable',) or f.short.startswith(('~', 'operator')):
            continue
        cp = f.j.get('copy') or f.j.get('move')
        if cp or f.j.get('implicit'):
            continue

        class W(Client):
            def opaque(self, fn):
                return False
        hit = []

        class W2(Client):
            def on_write(self, I, st, loc, val, node, op):
                if under(loc, L) or under(L, loc):
                    hit.append(op)
                if 'max_number_of_variables_' in show(loc):
                    hit.append(op)
        try:
            outs = Interp(P, W2()).run(f, this=this)
        except (Undecided, RecursionError) as e:
            if hit:
                R.und('invariant:%s' % f.short, f.loc, str(e))
            continue
        if not hit and not f.j.get('ctor'):
            continue
        n += 1
        for o in outs:
            if o.kind != 'ret':
                continue
            g = [f2 for f2 in P.fns.values() if f2.name == 'conex::Program::GetNumberOfVariables' and f2.body is not None]
            for o2 in Interp(P).run(g[0], this=this, st=o.st.fork()):
                rows = shape(o.st.read(L), 0)
                pre = nvars_terms(P, this)[0]
                facts = o.st.facts.copy()
                if not f.j.get('ctor'):
                    facts.assume(eq0(sub(mk('rows', mk('i', L)), pre)), True)
                R.verdict(equal(facts, rows, o2.val),
                          'invariant:%s' % f.short, f.loc, 'the cost has %s entries for %s variables' % (show(rows), show(o2.val)))
    R.floor('program methods that touch the cost vector or variable count', n, 2)


def dual_sizes(P, R, cl, f):
    xr, xc = [mk('p', p['n']) for p in f.params[3:5]]
    mono = mul(xr, xc)
    for st, obj, args, w in cl.dual:
        ok = False
        cands = [p for p in st.facts.ge] + [neg(t.a[0]) for t, v in st.facts.lit.items() if t.op == 'eq0' and v]
        for p in cands:
            S = sub(mono, p)
            if mentions(S, lambda x: x.op == 'call' and isinstance(x.a[0], str) and x.a[0].endswith('dual_variable_size')) and \
                    not mentions(S, lambda x: x is xr or x is xc):
                ok = True
        R.verdict(True if ok else False if cl.asked else None, f.name + ':size-compared', w, 'the dual variable is written without comparing its size with the caller\'s xr*xc')
    if not cl.dual:
        R.und(f.name + ':size-compared', f.loc, 'no dual variable is written')
    for a in cl.asked:
        if True:
            R.verdict(a is mk('p', f.params[1]['n']), f.name + ':same-constraint', f.loc, 'the size of constraint %s is compared' % show(a))
    n = 0
    for g in sorted(P.fns.values(), key=lambda g: g.key):
        if g.short != 'do_get_dual_variable' or g.body is None:
            continue
        k = 'dual:' + g.name.replace('conex::', '').replace('::do_get_dual_variable', '')
        this = mk('heap', 'model')
        c2 = Buf(g)
        c2.h = None
        pv = mk('p', g.params[0]['n'])
        szf = [h for h in P.fns.values() if h.short == 'do_dual_variable_size' and h.rec == g.rec and h.j.get('recu') == g.j.get('recu') and h.body is not None]
        try:
            Interp(P, c2).run(g, this=this)
            sizes = [o.val for h in szf for o in Interp(P).run(h, this=this) if o.kind == 'ret']
        except Undecided as e:
            R.und(k, g.loc, str(e))
            continue
        n += 1
        spans = [(st, mul(C(8), mul(r, c)), w) for st, b, ptr, r, c, w in c2.maps if ptr is pv]
        spans += [(st, a[2] if s != 'copy_n' else mul(C(8), a[2]), w) for st, s, a, w in c2.copies if a[0] is pv]
        if not spans or len(sizes) != 1:
            R.und(k, g.loc, 'writes not recognised')
            continue
        for st, sp, w in spans:
            d = sub(strip_int(sp), mul(C(8), sizes[0]))
            v = isc(d) and cval(d) == 0
            R.verdict(True if v else (False if isc(d) or all(x.op in ('rows', 'cols', 'i', 'f', 'poly', 'c', 'pt', 'heap') for x in subterms(d)) else None), k, w,
                      'writes %s bytes, reports %s values' % (show(sp), show(sizes[0])))
        # what is read
        for st, s, a, w in c2.copies:
            if a[0] is not pv:
                continue
            src = a[1]
            own = None
            if src.op == 'i' and src.a[0].op == 'f' and src.a[0].a[1] == 'data':
                own = mk('i', src.a[0].a[0])
            elif src.op == '&' and src.a[0].op == 'buf':
                own = mk('i', src.a[0].a[0])
            if own is None:
                R.und(k + ':source', w, show(src))
                continue
            d = sub(strip_int(a[2]), mul(C(8), mul(mk('rows', own), mk('cols', own))))
            R.verdict(True if isc(d) and cval(d) <= 0 else False, k + ':source', w, 'copies %s bytes out of %s' % (show(a[2]), show(own)))
    R.floor('constraint kinds exposing a dual variable', n, 8)


def check(P, R):
    R.assumption('a program never has a negative number of variables (CONEX_SetNumberOfVariables refuses them)')
    n = 0
    for name, (caps, eqs) in SPEC.items():
        f = api(P, name)
        if len(f.params) <= max(max(v) for v in caps.values()):
            raise AnalysisBroken('%s has changed its parameters' % name)
        try:
            m, cl = buffers(P, R, f, caps, eqs)
        except (Undecided, RecursionError) as e:
            R.und(name, f.loc, str(e))
            continue
        n += m
        if name == 'CONEX_GetDualVariable':
            dual_sizes(P, R, cl, f)
        if name in ('CONEX_Solve', 'CONEX_Maximize'):
            for st, node, args in cl.solves:
                ypos = max(caps)
                y = mk('p', f.params[ypos]['n'])
                yr = mk('p', f.params[ypos + 1]['n'])
                pl = [a for a in args if a in (cl.h,)]
                nv = nvars_terms(P, cl.h)
                v = any(prove(st.facts, sub(yr, x)) for x in nv)
                R.verdict(True if v else False, name + ':result-size', node.get('l', ''), 'the solve starts although %s may be smaller than the number of variables' % f.params[ypos + 1]['n'])
                if name == 'CONEX_Maximize':
                    br = mk('p', f.params[2]['n'])
                    v = any(st.facts.eval(eq0(sub(br, x))) is True for x in nv)
                    R.verdict(True if v else False, name + ':objective-size', node.get('l', ''), 'the solve starts although br may differ from the number of variables')
            if not cl.solves:
                R.und(name + ':result-size', f.loc, 'no solve call')
    R.floor('views, accesses and copies of caller buffers', n, 10)
    solve_extent(P, R)
    invariant(P, R)
