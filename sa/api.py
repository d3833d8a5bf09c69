"""Behaviour of every public C entry point: accesses, buffers, appended constraints, outputs, returned values."""
from .util import *
from .lib import size_of, sizeloc

HANDLE = ('prog', 'prog_ptr', 'program', 'p')
SOLVES = ('conex::Solve',)


def entries(P):
    fs = sorted((f for f in P.fns.values() if f.name.startswith('CONEX_') and f.body is not None), key=lambda f: f.name)
    if len(fs) < 10:
        raise AnalysisBroken('public entry points not found')
    return fs


def ptr_params(f):
    return [p for p in f.params if f.tu.t(p['t'])['k'] == 'ptr']


def handle_param(f):
    """The opaque program handle: a void pointer."""
    for p in f.params:
        t = f.tu.t(p['t'])
        if t['k'] == 'ptr' and t['s'].replace('const ', '').strip() in ('void *',):
            return p
    return None


class Api(Client):
    by_value = True

    def __init__(self, f, handle=None):
        self.f = f
        h = handle_param(f)
        self.h = (deref(handle) if handle is not None else mk('pt', mk('p', h['n']))) if h else None
        self.eqs = mk('f', mk('f', self.h, 'kkt_system_manager_'), 'eqs') if h else None
        self.ptrs = {mk('pt', mk('p', p['n'])): p['n'] for p in ptr_params(f)}
        if handle is not None and h:
            self.ptrs[self.h] = h['n']
        self.acc, self.maps, self.wr, self.idx, self.narrow, self.unchecked, self.app = [], [], [], [], [], [], []

    def opaque(self, fn):
        return fn.name in SOLVES or fn.name == 'conex::PreprocessLinearInequality'

    def base(self, loc):
        while loc.op in ('f', 'e', 'view'):
            loc = loc.a[0]
        if loc.op == 'mat':
            return self.of_ptr(loc.a[0])
        return loc if loc in self.ptrs or loc is self.h else None

    def of_ptr(self, p):
        """Buffer a pointer value points into."""
        for x in subterms(p):
            if x.op == 'p':
                l = mk('pt', x)
                if l in self.ptrs:
                    return l
        return None

    def log(self, I, st, loc, node, kind):
        b = self.base(loc)
        if b is None or I.mute:
            return
        self.acc.append((st.fork(), b, loc, kind, (node or {}).get('l', '') if isinstance(node, dict) else ''))

    def on_access(self, I, st, loc, node):
        if node.get('k') == 'un':
            return              # forming a reference is not an access
        self.log(I, st, loc, node, 'read')

    def on_matread(self, I, st, loc, val):
        self.log(I, st, loc, None, 'read')

    def on_index(self, I, st, e, L, idx, n, kind):
        self.log(I, st, L, e, 'element')

    def on_write(self, I, st, loc, val, node, op):
        self.log(I, st, loc, node, 'write')
        b = self.base(loc)
        if b is None:
            return
        if b is self.h:
            if self.eqs is not None and loc is sizeloc(self.eqs) and op in ('push_back', 'emplace_back', 'resize', 'pop_back', 'erase'):
                st.cs['app'] = st.cs.get('app', 0) + (1 if op in ('push_back', 'emplace_back') else 100)
            st.cs['mut'] = 1
        elif root(loc).op == 'pt':
            st.cs['out:' + self.ptrs[b]] = 1

    def on_map(self, I, st, ptr, r, c, node):
        if I.mute:
            return
        b = self.of_ptr(ptr)
        if b is not None:
            self.maps.append((st.fork(), b, ptr, r, c, node.get('l', '')))

    def call(self, I, st, node, name, obj, args):
        if name in SOLVES:
            st.cs['solve'] = 1
            for a in args:
                if a.op in LOCOPS:
                    self.log(I, st, a, node, 'solve')
        return None


def run(P, f, assume=()):
    """(client, interp, outcomes)"""
    cl = Api(f)
    I = Interp(P, cl)
    st = State()
    for t, v in assume:
        if not st.assume(t, v):
            return cl, I, []
    return cl, I, I.run(f, st=st)


FAIL = {'solve': 'a zero return', 'id': 'a negative id', 'status': 'a nonzero status', 'size': 'a zero size', 'void': 'nothing'}


def kind(f):
    rt = f.tu.t(f.j['rt'])
    n = f.name
    if rt['k'] == 'void':
        return 'void'
    if rt['k'] == 'ptr':
        return 'ptr'
    if 'CONEX_STATUS' in (rt.get('td') or '') or 'CONEX_STATUS' in rt['s']:
        return 'status'
    if n in ('CONEX_Solve', 'CONEX_Maximize'):
        return 'solve'
    if n == 'CONEX_AddQuadraticCost':
        return 'status'
    if n.startswith('CONEX_Add'):
        return 'id'
    if 'Size' in n:
        return 'size'
    return 'status'


def is_failure(f, st, val):
    """True / False / None: is this returned value the documented failure?"""
    k = kind(f)
    if k == 'void':
        return True
    v = st.facts
    if k in ('solve', 'size'):
        e = v.eval(eq0(val))
    elif k == 'id':
        e = True if v.entails_ge0(sub(C(-1), val)) else False if v.entails_ge0(val) else None
    else:
        e = v.eval(tobool(val))
    return e
