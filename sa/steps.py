"""Effects of the operations of every constraint kind: which members are written, read before they are written, and with what values."""
from . import lib
from .util import *
from .checks.c27 import Trip

OPS = ('PrepareStep', 'TakeStep', 'GetWeightedSlackEigenvalues', 'PerformLineSearch', 'ConstructSchurComplementSystem', 'SetIdentity', 'Rank')
ITERATE = ('W', 'W0', 'W1')


def fieldof(loc, root):
    """Member path of a location inside the object `root`, without the wrappers of views and mapped data; None if elsewhere."""
    t, path = loc, []
    while True:
        if t.op == 'f':
            path.append(t.a[1])
            t = t.a[0]
        elif t.op == 'pt' and t.a[0].op == 'p':
            if t.a[0].a[0] != root:
                return None
            path.reverse()
            if not path:
                return None
            if path and path[0] == 'workspace_':
                path = path[1:2] and ['workspace_', path[1]] if len(path) > 1 else path
            return tuple(path[:2]) if path and path[0] == 'workspace_' else tuple(path[:1])
        elif t.op in ('view', 'e', 'mat', 'pt', 'i', 'padd', 'get', '&') and t.a and hasattr(t.a[0], 'op'):
            t = t.a[0]
        else:
            return None


def chain(t):
    while hasattr(t, 'op'):
        yield t
        t = t.a[0] if t.a else None


def role(path, scratch):
    if not path:
        return None
    if path[-1] in ITERATE and len(path) <= 2:
        return 'iterate'
    if path[0] == 'workspace_':
        return 'size' if path[-1] in ('n_', 'num_vars_') else 'scratch'
    return 'scratch' if path[-1] in scratch else 'data'


class Eff(Trip):
    def __init__(self, root, scratch):
        super().__init__()
        self.root, self.scratch = root, scratch
        self.writes = []          # (path, value, op, written before, function, loops)
        self.unknown = set()

    def opaque(self, fn):
        ts = [fn.tu.t(p['t']) for p in fn.params]
        if any((t.get('ref') and not t.get('const')) or (t.get('k') == 'ptr' and not t.get('pconst')) for t in ts):
            return False
        return fn.loc.startswith(('conex/jordan_matrix_algebra', 'conex/exponential_map'))

    def call(self, I, st, e, name, obj, vals):
        # a virtual function of the constraint itself: its overriders are analysed on their own
        if e.get('virt') and obj is not None and name.startswith('conex::'):
            fn = I.P.fns.get(e.get('fn'))
            if fn is None or fn.body is None or I.P.overriders(fn.key):
                return lib.opaque(I, st, dict(e, cm=True), name, obj, vals)
        return super().call(I, st, e, name, obj, vals)

    def on_write(self, I, st, loc, val, node, op):
        p = fieldof(loc, self.root)
        if p is None:
            q = loc
            while q.op in ('view', 'e', 'mat', 'f') or (q.op in ('pt', 'i') and q.a[0].op not in ('p',)):
                q = q.a[0]
            if q.op == 'pt' and q.a[0].op == 'p' and not I.mute:
                self.writes.append((('arg', q.a[0].a[0], loc), val, op, st.cs.get('written', frozenset()), I.fr.fn.loc, st.loops))
            return
        if op == 'init':
            return
        if not I.mute:
            # loops matter for coverage only where they run over parts of the member
            part = any(x.op in ('e', 'view', 'padd') for x in chain(loc))
            self.writes.append((p, val, op, st.cs.get('written', frozenset()), I.fr.fn.loc, st.loops if part else ()))
            if not part:
                st.cs['whole'] = st.cs.get('whole', frozenset()) | {p}
        st.cs['written'] = st.cs.get('written', frozenset()) | {p}


def reads(val, root):
    """Members whose contents at entry a value depends on."""
    out = set()
    if val is None:
        return out
    for x in subterms(val, skip=('rows', 'cols', 'size')):
        if x.op in ('mat', 'i', 'pt', 'view'):
            p = fieldof(x, root)
            if p:
                out.add(p)
    return out


def kinds(P):
    """{kind: {operation: function}} of the concrete constraint kinds."""
    out = {}
    for f in P.fns.values():
        if f.body is None or f.short not in OPS or not P.is_repo(f) or not f.params:
            continue
        t = f.tu.t(f.params[0]['t'])['s'].replace('const ', '').replace('*', '').replace('&', '').strip()
        if t in ('conex::Constraint',) or 'ConstraintManager' in t or 'vector' in t or 'Workspace' in t:
            continue
        if f.loc.startswith('conex/constraint.h'):
            continue
        out.setdefault(t, {})[f.short] = f
    return out


_runs = {}


def run(P, f, scratch):
    """(client, outcomes) of one operation; raises Undecided."""
    if f.name + f.loc + f.tu.t(f.params[0]['t'])['s'] in _runs:
        return _runs[f.name + f.loc + f.tu.t(f.params[0]['t'])['s']]
    root = f.params[0]['n'] or 'arg0'
    args = None
    if f.tu.t(f.params[0]['t']).get('ref'):
        args = [mk('pt', mk('p', root))] + [None] * (len(f.params) - 1) if len(f.params) == 1 else None
    cl = Eff(root, scratch)
    outs = Interp(P, cl).run(f, args)
    _runs[f.name + f.loc + f.tu.t(f.params[0]['t'])['s']] = (cl, outs)
    return cl, outs
