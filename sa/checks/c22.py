import re
from ..util import *
from ..lib import shape
from .c27 import Trip

TECHNIQUE = 'symbolic value analysis of the constraint that each entry point hands to the program'
RULE = ('On every path of a CONEX_New* or CONEX_Add* entry point that adds a constraint, the object given to Program::AddConstraint has the '
        'kind the entry point names, the order that was asked for and the data that were passed (zero data of that size for CONEX_New*): '
        'each matrix is a column-major view of the memory of the caller with the dimensions the caller gave, the i-th coefficient matrix '
        'starts i*rows*cols entries into it, and the variables are those of the caller. CONEX_AddLinearInequalities gives A and both bounds to '
        'the preprocessing and adds its inequalities and its equations whenever there are any.')

ADD = 'conex::Program::AddConstraint'
QUAD = 'conex::Program::AddQuadraticCost'
PRE = 'conex::PreprocessLinearInequality'


def base(n):
    return n.split('<')[0]


class Made(Trip):
    def __init__(self, on):
        super().__init__()
        self.on, self.maps, self.pre, self.added = on, {}, [], 0

    def opaque(self, fn):
        return fn.short == 'PreprocessLinearInequality' or base(fn.name) in (ADD, QUAD) or super().opaque(fn)

    def on_map(self, I, st, ptr, r, c, node):
        t = I.ty(node)
        self.maps.setdefault(ptr, []).append((r, c, (t.get('ta') or [None])[0], t.get('s') or ''))

    def on_call(self, I, st, node, name, obj, args):
        if I.mute:
            return
        b = base(name)
        if b in (ADD, QUAD):
            m = re.search(r'@S@(\w+)', node.get('fn', '').split('AddConstraint', 1)[-1]) if b == ADD else None
            self.added += 1
            self.on(self, I, st, node, m.group(1) if m else 'QuadraticCost' if b == QUAD else None, args)
        elif name.split('::')[-1] in ('push_back', 'emplace_back') and obj is not None and len(args) == 1:
            self.on(self, I, st, node, 'push', [obj, args[0]])
        elif name.split('<')[0].endswith('PreprocessLinearInequality'):
            self.pre.append((st.pc, args))
            self.on(self, I, st, node, 'pre', args)

    def on_write(self, I, st, loc, val, node, op):
        if not I.mute and loc.op == 'e' and len(loc.a) == 2 and loc.a[0].op in ('var', 'tmp'):
            self.on(self, I, st, node, 'elem', [loc, val])


def param(f, i):
    return mk('p', f.params[i]['n'])


def zero(I, st, v, r, c):
    """Is it the zero matrix of that size?"""
    if v.op in ('mat0', 'Identity', 'Ones'):
        n = shape(v, 0)
        return False
    if v.op == 'Constant':
        return None
    if v.op != 'Zero':
        return None
    return both(equal(st.facts, v.a[0], r), equal(st.facts, v.a[1], c))


def both(*vs):
    return False if any(v is False for v in vs) else None if any(v is None for v in vs) else True


def view(cl, I, st, v, ptr, r, c):
    """Is it the matrix of size r x c stored by columns at ptr?"""
    v = content(v)
    if v.op == 'T':
        v = mk('T', content(v.a[0]))
    if v.op == 'T' and v.a[0].op == 'mat':
        return both(False if view(cl, I, st, v.a[0], ptr, r, c) is True and r is not c else None)
    if v.op != 'mat':
        return False if v.op in ('Zero', 'Identity', 'poly') and not any(x.op in ('lp', 'call', 'out') for x in subterms(v)) else None
    e = True if v.a[0] is ptr else equal(st.facts, offset(v.a[0], ptr), offset(ptr, ptr)) if offset(v.a[0], ptr) is not None else False if root(v.a[0]) is not root(ptr) else None
    if e is not True:
        return e
    ms = cl.maps.get(v.a[0])
    if not ms:
        return None
    res = []
    for mr, mc, t, s in ms:
        if 'RowMajor' in s or re.search(r'Eigen::Matrix<double, *-?\d+, *-?\d+, *(1|Eigen::RowMajor)\b', s):
            res.append(False)
        res.append(both(equal(st.facts, mr, r), equal(st.facts, mc, c)))
    return both(*res)


def content(v):
    return v.a[0] if v.op == 'i' and v.a[0].op == 'mat' else v


def root(p):
    while p.op in ('padd', 'pt') and p.a:
        p = p.a[0]
    return p


def offset(p, ptr):
    """Entries from the start of the memory of the caller."""
    if p is root(ptr):
        return ZERO
    if p.op == 'padd' and root(p) is root(ptr):
        o = offset(p.a[0], ptr)
        return add(o, p.a[1]) if o is not None else None
    return None


def fld(st, o, *names):
    l = o
    for n in names:
        l = mk('f', l, n)
    return st.readagg(l)


def check(P, R):
    n = [0]

    def run(name, on):
        f = api(P, name)
        seen = {}

        def obl(key, v, node, why):
            k = '%s:%s' % (name, key)
            old = seen.get(k)
            if old is None or (old[0] is True and v is not True) or (old[0] is None and v is False):
                seen[k] = (v, node, why)
        cl = Made(lambda cl, I, st, node, kind, args: on(f, obl, cl, I, st, node, kind, args))
        cl.obl = obl
        outs = Interp(P, cl).run(f)
        if not cl.added:
            R.und('%s:adds' % name, f.loc, 'no constraint is added to the program in a recognised way')
        for k, (v, node, why) in sorted(seen.items()):
            n[0] += 1
            R.verdict(v, k, (node or {}).get('l') or f.loc, why)
        return f, cl, outs

    def kind_is(obl, node, kind, want):
        obl('kind', None if kind is None else kind == want, node, 'adds a %s instead of a %s' % (kind, want))
        return kind == want

    # ---- new constraints with zero data
    def lmi(f, obl, cl, I, st, node, kind, args):
        if kind in ('push', 'elem', 'pre') or not kind_is(obl, node, kind, 'HermitianPsdConstraint'):
            return
        order, dim = param(f, 1), param(f, 2)
        m = re.search(r'MatrixAlgebra>#VI(\d+)', node['fn'])
        o = args[0]
        e = equal(st.facts, dim, C(int(m.group(1)))) if m else None
        obl('algebra', e, node, 'on a path where the algebra of dimension %s was asked for, one of dimension %s is used' % ('other than %s' % (m.group(1) if m else '?'), m.group(1) if m else '?'))
        obl('order', equal(st.facts, fld(st, o, 'rank_'), order), node, 'the matrices have order %s' % show(fld(st, o, 'rank_'))[:60])
        L = mk('f', o, 'constraint_affine_')
        cnt = st.read(mk('f', L, '#n'))
        w = [equal(st.facts, cnt, dim)]
        if isc(cnt):
            w += [zero(I, st, st.readagg(mk('e', L, C(j))), order, order) for j in range(int(cval(cnt)))]
        obl('affine', both(*w), node, 'the affine term is not one zero matrix of the order asked for per component')
        if m and m.group(1) == '8':
            ok = st.facts.eval(ge0(sub(C(3), order)))
            obl('octonion order', ok if ok is not None else False, node, 'octonion matrices of order above 3 are accepted')
    f, cl, _ = run('CONEX_NewLinearMatrixInequality', lmi)

    def newlin(f, obl, cl, I, st, node, kind, args):
        if kind in ('push', 'elem', 'pre') or not kind_is(obl, node, kind, 'LinearConstraint'):
            return
        rows = param(f, 1)
        A, b = fld(st, args[0], 'constraint_matrix_'), fld(st, args[0], 'constraint_affine_')
        nv = mk('i', mk('f', mk('f', mk('pt', param(f, 0)), 'kkt_system_manager_'), 'max_number_of_variables_'))
        e = zero(I, st, A, rows, nv)
        obl('operator', e, node, 'the linear operator is %s, not zero with num_rows rows and one column per variable' % show(A)[:80])
        obl('affine', zero(I, st, b, rows, ONE), node, 'the affine term is %s, not zero with num_rows rows' % show(b)[:80])
    run('CONEX_NewLinearInequality', newlin)

    def soc(f, obl, cl, I, st, node, kind, args):
        if kind in ('push', 'elem', 'pre') or not kind_is(obl, node, kind, 'SOCConstraint'):
            return
        order = param(f, 1)
        A, b = fld(st, args[0], 'constraint_matrix_'), fld(st, args[0], 'constraint_affine_')
        obl('order', equal(st.facts, fld(st, args[0], 'n_'), order), node, 'the cone has order %s' % show(fld(st, args[0], 'n_'))[:60])
        obl('affine', zero(I, st, b, add(order, ONE), ONE), node, 'the affine term is %s, not zero with order + 1 entries' % show(b)[:80])
        r = equal(st.facts, shape(A, 0), add(order, ONE))
        obl('operator', both(r, True if A.op == 'Zero' else None), node, 'the linear operator is %s, not zero with order + 1 rows' % show(A)[:80])
    run('CONEX_NewLorentzConeConstraint', soc)

    def newquad(f, obl, cl, I, st, node, kind, args):
        if kind in ('push', 'elem', 'pre') or not kind_is(obl, node, kind, 'QuadraticCost'):
            return
        nv = mk('i', mk('f', mk('f', mk('pt', param(f, 0)), 'kkt_system_manager_'), 'max_number_of_variables_'))
        Q = deref_arg(P, I, st, args[0])
        obl('matrix', zero(I, st, Q, nv, nv), node, 'the cost matrix is %s, not zero with one row and column per variable' % show(Q)[:80])
        obl('variables', len(args) == 1 or None, node, 'the variables of the cost were not recognised')
    run('CONEX_NewQuadraticCost', newquad)

    # ---- constraints with data
    def dense_linear(f, obl, cl, I, st, node, kind, args):
        if kind in ('push', 'elem', 'pre') or not kind_is(obl, node, kind, 'LinearConstraint'):
            return
        A, c = fld(st, args[0], 'constraint_matrix_'), fld(st, args[0], 'constraint_affine_')
        obl('operator', view(cl, I, st, A, param(f, 1), param(f, 2), param(f, 3)), node, 'the linear operator is %s, not the matrix of the caller' % show(A)[:80])
        obl('affine', view(cl, I, st, c, param(f, 4), param(f, 5), ONE), node, 'the affine term is %s, not the vector of the caller' % show(c)[:80])
    run('CONEX_AddDenseLinearConstraint', dense_linear)

    def dense_lmi(with_vars):
        def on(f, obl, cl, I, st, node, kind, args):
            A, Ar, Ac = param(f, 1), param(f, 2), param(f, 3)
            if kind in ('push', 'elem'):
                if kind == 'push':
                    v = content(deref_arg(P, I, st, args[1]))
                    k = st.read(mk('f', args[0], '#n'))
                else:
                    v, k = content(args[1]), args[0].a[1]
                if v.op == 'mat' and root(v.a[0]) is A:
                    o = offset(v.a[0], A)
                    want = mul(mul(Ar, Ac), k)
                    e = equal(st.facts, o, want) if o is not None else None
                    obl('coefficient position', e, node, 'coefficient matrix %s is read %s entries into the memory of the caller' % (show(k)[:30], show(o)[:50] if o is not None else '?'))
                    obl('coefficient size', view(cl, I, st, v, v.a[0], Ar, Ac), node, 'the coefficient matrices do not have the size the caller gave')
                elif v.op in ('mat', 'T', 'poly') and kind == 'push':
                    obl('coefficient position', False if v.op == 'mat' else None, node, 'a coefficient matrix is %s' % show(v)[:60])
                if with_vars and kind == 'elem' and with_vars in [y.a[0] for y in subterms(v) if y.op == 'p']:
                    iv = strip_int(v)
                    w = iv if iv.op == 'i' else None
                    e = None
                    if w is not None and root(w.a[0].a[0] if w.a[0].op == 'e' else w.a[0]) is not None:
                        l = w.a[0]
                        idx = l.a[1] if l.op == 'e' else ZERO
                        e = equal(st.facts, idx, args[0].a[1])
                    obl('variable position', e, node, 'variable %s is %s' % (show(args[0].a[1])[:30], show(v)[:60]))
                return
            if kind == 'pre' or not kind_is(obl, node, kind, 'DenseLMIConstraint'):
                return
            c = fld(st, args[0], 'constraint_affine_')
            obl('affine', view(cl, I, st, c, param(f, 5), param(f, 6), param(f, 7)), node, 'the affine term is %s, not the matrix of the caller' % show(c)[:80])
            M = fld(st, args[0], 'constraint_matrices_')
            obl('coefficients', True if any(x.op == 'var' or x.op == 'lp' for x in subterms(M)) else None, node, 'coefficient matrices not recognised')
            if with_vars:
                obl('variables', len(args) == 2, node, 'the variables of the caller are not handed to the program')
        return on
    run('CONEX_AddDenseLMIConstraint', dense_lmi(None))
    run('CONEX_AddSparseLMIConstraint', dense_lmi('vars'))

    # ---- linear inequalities with bounds
    events = []

    def ineq(f, obl, cl, I, st, node, kind, args):
        if kind == 'pre':
            for i, (nm, ptr, r, c) in enumerate((('matrix', 1, param(f, 2), param(f, 3)), ('lower bounds', 4, param(f, 2), ONE), ('upper bounds', 6, param(f, 2), ONE))):
                v = deref_arg(P, I, st, args[i])
                obl('preprocessed %s' % nm, view(cl, I, st, v, param(f, ptr), r, c), node, 'the %s given to the preprocessing are %s' % (nm, show(v)[:60]))
            return
        if kind in ('push', 'elem'):
            return
        which = {'LinearConstraint': ('constraint_matrix_', 'constraint_affine_', 0), 'EqualityConstraints': ('A_', 'b_', 2)}.get(kind)
        obl('kind', None if kind is None else which is not None, node, 'adds a %s' % kind)
        if which is None or not cl.pre:
            return
        outs = cl.pre[-1][1][3:7]
        res = []
        for k, fl in ((0, which[0]), (1, which[1])):
            v = fld(st, args[0], fl)
            got = outno(v)
            e = None if got is None else got == 3 + which[2] + k
            if e and v.op != 'out':
                e = False if v.op == 'poly' or v.op == 'call' and str(v.a[0]).split('::')[-1].startswith(('cwise', 'op')) or v.op in ('T', 'cw', 'upd') else None
            obl('%s %s' % (('inequalities', 'equations')[which[2] // 2], ('matrix', 'right-hand side')[k]), e, node, 'uses output %s of the preprocessing' % got)
        events.append((which[2], st.pc, node))
    ev0 = run('CONEX_AddLinearInequalities', ineq)
    f, cl, outs = ev0
    if cl.pre and events:
        npre = len(cl.pre[0][0])
        conds = {}
        for w, pc, node in events:
            for c, v in list(pc)[npre:]:
                i = rowsof(c)
                conds[c] = i
        for w, nm in ((0, 'inequalities'), (2, 'equations')):
            mine = [list(pc)[npre:] for k, pc, _ in events if k == w]
            if not mine:
                R.bad('CONEX_AddLinearInequalities:%s added' % nm, f.loc, 'the %s are never added' % nm)
                continue
            v, why = True, ''
            import itertools
            cs = list(conds)
            if any(conds[c] is None for c in cs) or len(cs) > 6:
                v = None
            else:
                for vals in itertools.product((True, False), repeat=2):
                    world = {0: vals[0], 2: vals[1]}          # has inequalities / has equations
                    if not world[w]:
                        continue
                    if not any(all(truth(c, conds[c], world) == val for c, val in m) for m in mine):
                        v, why = False, 'not added when there are %s inequalities and %s equations' % (('no', 'some')[vals[0]], ('no', 'some')[vals[1]])
            n[0] += 1
            R.verdict(v, 'CONEX_AddLinearInequalities:%s added' % nm, f.loc, why or 'the condition under which they are added was not recognised')
    R.floor('facts about added constraints', n[0], 15)


def outno(v):
    """Which argument of the preprocessing a value is the result of."""
    ns = {int(cval(y.a[0])) for x in subterms(v) if x.op == 'out' and x.a[0] == PRE for y in x.a[1:] if hasattr(y, 'op') and y.op == 'argno'}
    return ns.pop() if len(ns) == 1 else None


def rowsof(c):
    """(which output, its condition is rows > 0?) of a condition on the number of rows of an output."""
    rs = [x for x in subterms(c) if x.op == 'rows']
    if len(rs) != 1 or outno(rs[0]) not in (3, 4, 5, 6):
        return None
    w = 0 if outno(rs[0]) in (3, 4) else 2
    return (w, rs[0])


def truth(c, i, world):
    """Truth of the condition when the output has no rows / has rows (at least one)."""
    w, r = i
    f = Facts()
    f.assume(eq0(r), True) if not world[w] else f.assume(ge0(sub(r, ONE)), True)
    if not world[w]:
        d = subst(c, {r: ZERO})
        return f.eval(d) if not isc(d) else cval(d) != 0
    return f.eval(c)
