"""Forward abstract interpretation of the extracted program.

A whole-program, context-sensitive dataflow analysis over the structured AST:
  * values are hash-consed value numbers (terms.py), memory is a map from access
    paths to value numbers, references/pointers are resolved to access paths;
  * control-flow joins merge states with gated phi values, except that states
    whose client property-state differs stay apart (property simulation);
  * loops are solved to a fixpoint (modified locations become loop phis,
    induction variables get a closed form); loops whose trip count is a
    compile-time constant are iterated;
  * repository functions are analysed through their bodies up to a depth bound,
    functions a client declares opaque (and library functions) through their
    declared effects (const-ness of object and parameters).
No program run, no path enumeration by a solver: one pass per function context.
"""
from .terms import *
from .terms import _byid
import os
DEBUG = os.environ.get('SA_DEBUG')
from .front import AnalysisBroken

BIG = 64


class Undecided(Exception):
    pass


class State:
    __slots__ = ('store', 'env', 'facts', 'pc', 'cs', 'loops')

    def __init__(self):
        self.store, self.env, self.facts, self.pc, self.cs, self.loops = {}, {}, Facts(), (), {}, ()

    def fork(self):
        s = State()
        s.store, s.env, s.facts = dict(self.store), dict(self.env), self.facts.copy()
        s.pc, s.cs, s.loops = self.pc, dict(self.cs), self.loops
        return s

    def assume(self, c, val=True):
        self.pc = self.pc + ((c, val),)
        return self.facts.assume(c, val)

    # ---- memory
    def read(self, loc):
        v = self.store.get(loc)
        if v is not None:
            return v
        if loc.op == 'lite':
            return ite(loc.a[0], self.read(loc.a[1]), self.read(loc.a[2]))
        if loc.op == 'f':
            if not self._ancestor(loc.a[0]):
                return mk('i', loc)
            b = self.read(loc.a[0])
            return fieldval(b, loc.a[1])
        if loc.op == 'e':
            if not self._ancestor(loc.a[0]):
                return mk('i', loc)
            b = self.read(loc.a[0])
            return select(self.facts, b, 'e', loc.a[1:])
        if loc.op == 'view':
            if not self._ancestor(loc.a[0]):
                return mk('get', self.read(loc.a[0]), loc.a[1], *loc.a[2:])
            b = self.read(loc.a[0])
            return select(self.facts, b, loc.a[1], loc.a[2:])
        return mk('i', loc)

    def _ancestor(self, loc):
        while True:
            if loc in self.store:
                return True
            if loc.op in ('f', 'e', 'view'):
                loc = loc.a[0]
            else:
                return False

    def clear(self, loc):
        for k in [k for k in self.store if under(k, loc)]:
            del self.store[k]

    def subentries(self, loc):
        return [k for k in self.store if k is not loc and under(k, loc)]

    def readagg(self, loc):
        """Value of loc including written sub-locations."""
        subs = self.subentries(loc)
        base = self.read(loc)
        if not subs:
            return base
        items = []
        for k in sorted(subs, key=lambda t: t.id):
            items.append((relpath(k, loc), self.store[k]))
        return mk('agg', base, tuple((mk('path', *p), v) for p, v in items))

    def write(self, loc, val):
        if loc.op == 'lite':
            c, x, y = loc.a
            ox, oy = self.read(x), self.read(y)
            self.write(x, ite(c, val, ox))
            self.write(y, ite(c, oy, val))
            return
        if loc.op in ('e', 'view'):
            # element of an array / matrix: functional update of the whole
            p = loc.a[0]
            if val.op == 'agg' or self.subentries(loc) or self._direct(loc):
                self._kill_aliases(loc)
                self.clear(loc)
                self._store(loc, val)
                return
            old = self.read(p)
            kind, args = ('e', loc.a[1:]) if loc.op == 'e' else (loc.a[1], loc.a[2:])
            new = update(self.facts, old, kind, args, val)
            subs = [k for k in self.store if k is not p and under(k, p)]
            for k in subs:
                if k.op in ('f',) and k.a[0] is p:
                    continue        # size-like fields of the container
                r = k
                while r.a[0] is not p:
                    r = r.a[0]
                if r.op == 'f':
                    continue
                if r is loc or not disjoint(self.facts, r, loc):
                    del self.store[k]
            self.write(p, new) if p.op in ('e', 'view') else self._setkeep(p, new)
            return
        self.clear(loc)
        self._store(loc, val)

    def _setkeep(self, p, new):
        self.store[p] = new

    def _direct(self, loc):
        return loc in self.store

    def _kill_aliases(self, loc):
        p = loc.a[0]
        for k in [k for k in self.store if k is not p and under(k, p) and not under(k, loc)]:
            r = k
            while r.a[0] is not p:
                r = r.a[0]
            if r.op in ('e', 'view') and not disjoint(self.facts, r, loc):
                self.store[k] = fresh('havoc')

    def _store(self, loc, val):
        if val.op == 'agg':
            self.store[loc] = val.a[0]
            for path, v in val.a[1]:
                l = loc
                for s in path.a:
                    l = mk(s.op, l, *s.a)
                self.store[l] = v
        else:
            self.store[loc] = val

    def havoc(self, loc, val):
        self.write(loc, val)


def relpath(k, base):
    out = []
    while k is not base:
        out.append(mk(k.op, *k.a[1:]))
        k = k.a[0]
    return tuple(reversed(out))


def fieldval(b, name):
    if b.op == 'agg':
        for path, v in b.a[1]:
            if len(path.a) == 1 and path.a[0].op == 'f' and path.a[0].a[0] == name:
                rest = tuple((mk('path', *p.a[1:]), w) for p, w in b.a[1]
                             if len(p.a) > 1 and p.a[0] is path.a[0])
                return mk('agg', v, rest) if rest else v
        rest = tuple((mk('path', *p.a[1:]), w) for p, w in b.a[1]
                     if len(p.a) > 1 and p.a[0].op == 'f' and p.a[0].a[0] == name)
        v = fieldval(b.a[0], name)
        return mk('agg', v, rest) if rest else v
    if b.op == 'ite':
        return ite(b.a[0], fieldval(b.a[1], name), fieldval(b.a[2], name))
    if b.op == 'i':
        return mk('i', mk('f', b.a[0], name))
    if name == '#n':
        while b.op == 'upd' and b.a[1] == 'e':      # storing an element keeps the size
            b = b.a[0]
    return mk('fv', b, name)


def keysame(facts, k1, a1, k2, a2):
    if k1 != k2 or len(a1) != len(a2):
        return False
    return all((x is y) or (isinstance(x, T) and isinstance(y, T) and facts.eval(eq0(sub(x, y))) is True)
               if isinstance(x, T) and isinstance(y, T) else x == y for x, y in zip(a1, a2))


def keydiff(facts, k1, a1, k2, a2):
    if k1 == 'e' and k2 == 'e' and len(a1) == len(a2):
        return any(facts.eval(eq0(sub(x, y))) is False for x, y in zip(a1, a2))
    if k1 == k2 and k1 in ('col', 'row') and len(a1) == len(a2) == 1:
        return facts.eval(eq0(sub(a1[0], a2[0]))) is False
    return False


def disjoint(facts, l1, l2):
    k1, a1 = ('e', l1.a[1:]) if l1.op == 'e' else (l1.a[1], l1.a[2:])
    k2, a2 = ('e', l2.a[1:]) if l2.op == 'e' else (l2.a[1], l2.a[2:])
    return keydiff(facts, k1, a1, k2, a2)


def select(facts, b, kind, args):
    x = b
    n = 0
    while x.op == 'upd' and n < 2000:
        n += 1
        old, k2, a2, v = x.a
        if keysame(facts, kind, args, k2, a2):
            return v
        if keydiff(facts, kind, args, k2, a2):
            x = old
            continue
        return mk('get', b, kind, *args)
    if x.op == 'agg':
        want = mk('e', *args) if kind == 'e' else None
        for path, v in x.a[1]:
            if len(path.a) == 1 and path.a[0] is want:
                return v
        return select(facts, x.a[0], kind, args)
    if x.op == 'ite':
        return ite(x.a[0], select(facts, x.a[1], kind, args), select(facts, x.a[2], kind, args))
    if x.op == 'Zero' and kind == 'e':
        return ZERO
    if x.op == 'arr' and kind == 'e' and len(args) == 1 and isc(args[0]):
        i = args[0].a[0]
        if 0 <= i < len(x.a):
            return x.a[i]
    if x.op == 'i' and kind == 'e':
        return mk('i', mk('e', x.a[0], *args))
    return mk('get', x, kind, *args)


def update(facts, b, kind, args, v):
    # overwrite of the same key directly below
    if b.op == 'upd' and keysame(facts, kind, args, b.a[1], b.a[2]):
        return mk('upd', b.a[0], kind, tuple(args), v)
    return mk('upd', b, kind, tuple(args), v)


class Outcome:
    __slots__ = ('st', 'val', 'kind', 'loc')

    def __init__(self, kind, st, val=None, loc=None):
        self.kind, self.st, self.val, self.loc = kind, st, val, loc


class Client:
    """Default client: everything in the repository is inlined."""
    depth = 12

    def opaque(self, fn):
        return False

    def call(self, I, st, node, name, obj, args):
        """Return None for default handling or a list of (state, value)."""
        return None

    def on_call(self, I, st, node, name, obj, args):
        pass

    def on_write(self, I, st, loc, val, node, op):
        pass

    def on_access(self, I, st, loc, node):
        pass

    def on_map(self, I, st, ptr, r, c, node):
        pass

    def on_matread(self, I, st, loc, val):
        pass

    def on_narrow(self, I, st, v, src, dst, node):
        return v

    # exploratory loop rounds are discarded: list attributes are event logs
    def checkpoint(self):
        return {k: len(v) for k, v in self.__dict__.items() if isinstance(v, list)}

    def rollback(self, cp):
        for k, n in cp.items():
            del self.__dict__[k][n:]

    def key(self, st):
        return tuple(sorted(st.cs.items(), key=lambda kv: kv[0]))

    def joincs(self, a, b):
        return dict(a)


class Frame:
    __slots__ = ('fn', 'id', 'this', 'tu', 'depth', 'rets', 'callnode', 'parent', 'loops')


class Interp:
    MAXSTATES = 24

    def __init__(self, prog, client=None):
        self.P, self.C = prog, client or Client()
        self.nframe = self.nloop = self.ntmp = 0
        self.fr = None
        self.mute = 0
        self.throws = []
        self.callstack = []
        self.unknown = []
        self.inlined = set()
        self.steps = 0
        self.maxsteps = 400000

    # ---- entry ---------------------------------------------------------
    def run(self, fn, args=None, this=None, st=None):
        st = st or State()
        if fn.rec and not fn.j.get('sm') and this is None:
            this = mk('pt', mk('p', 'this'))
        vals = []
        for i, p in enumerate(fn.params):
            if args is not None and i < len(args) and args[i] is not None:
                vals.append(args[i])
                continue
            vals.append(self.param_symbol(fn, p))
        self.throws = []
        outs = self.invoke(fn, st, this, vals, None)
        res = [Outcome('ret', s, v) for s, v in outs]
        res += [Outcome('throw', s) for s in self.throws]
        return res

    def param_symbol(self, fn, p):
        t = fn.tu.t(p['t'])
        if t.get('ref'):
            return mk('pt', mk('p', p['n']))
        return mk('p', p['n'])

    # ---- types
    def ty(self, n):
        return self.fr.tu.t(n.get('t')) if isinstance(n, dict) else self.fr.tu.t(n)

    def isflt(self, n):
        return self.ty(n)['k'] == 'float'

    # ---- invocation ----------------------------------------------------
    def invoke(self, fn, st, this, vals, node, env=None):
        """Analyse fn's body; returns [(state, value)]."""
        self.inlined.add(fn.key)
        f = Frame()
        self.nframe += 1
        f.fn, f.id, f.this, f.tu = fn, self.nframe, this, fn.tu
        f.depth = (self.fr.depth + 1) if self.fr else 0
        f.rets, f.callnode, f.parent = [], node, self.fr
        f.loops = len(st.loops)
        if env is not None:            # lambda: shares enclosing frame's bindings
            f.id = env
        saved, self.fr = self.fr, f
        outer_pc = st.pc
        try:
            for p, v in zip(fn.params, vals):
                t = fn.tu.t(p['t'])
                if t.get('ref'):
                    st.env[(f.id, p['d'])] = v
                else:
                    l = mk('var', f.id, p['d'], p['n'])
                    st.env[(f.id, p['d'])] = l
                    st.clear(l)
                    st._store(l, v)
            if fn.j.get('ctor'):
                sts = self.ctor_inits(fn, st, this)
            else:
                sts = [st]
            outs = []
            res = self.block(fn.body, sts)
            for s in res['n']:
                outs.append((s, mk('void')))
            for s, v in f.rets:
                outs.append((s, v))
        finally:
            self.fr = saved
        outs = self.merge_rets(outs, len(outer_pc))
        if env is None:
            for s, _ in outs:
                for k in [k for k in s.env if k[0] == f.id]:
                    del s.env[k]
                for k in [k for k in s.store if root(k).op == 'var' and root(k).a[0] == f.id]:
                    del s.store[k]
        return outs

    def ctor_inits(self, fn, st, this):
        sts = [st]
        done = set()
        for i in fn.j.get('inits', []):
            nxt = []
            for s in sts:
                if 'f' in i:
                    done.add(i['f'])
                    loc = mk('f', this, i['f'])
                    if self.refield(fn, i['f']):
                        for s2, v in self.ev(i['e'], s):
                            s2.store[loc] = mk('&', v) if v.op in LOCOPS else v
                            nxt.append(s2)
                        continue
                    for s2 in self.eval_into(loc, i['e'], s):
                        nxt.append(s2)
                elif i.get('deleg') or 'base' in i:
                    e = i['e']
                    for s2 in self.eval_into(this, e, s, sub=True):
                        nxt.append(s2)
                else:
                    nxt.append(s)
            sts = nxt
        return sts

    def refield(self, fn, name):
        r = self.P.records.get(fn.j.get('recu'))
        if not r:
            return False
        for f in r['fields']:
            if f['n'] == name:
                return bool(r['tu'].t(f['t']).get('ref'))
        return False

    def merge_rets(self, outs, base):
        if len(outs) <= 1:
            return outs
        if getattr(self.C, 'by_value', False) and self.fr is None:
            # the caller of the analysis asks about each returned constant
            gr = {}
            for s, v in outs:
                gr.setdefault(v if v is not None and isc(v) else None, []).append((s, v))
            if len(gr) > 1:
                return [x for g in gr.values() for x in self._merge_rets(g)]
        return self._merge_rets(outs)

    def _merge_rets(self, outs):
        if len(outs) <= 1:
            return outs
        # carry the value in a pseudo location so the ordinary join handles it
        RV = mk('glob', '#ret')
        sts = []
        for s, v in outs:
            if v is not None:
                s.store[RV] = v
            sts.append(s)
        sts = self.merge_many(sts)
        res = []
        for s in sts:
            v = s.store.pop(RV, None)
            res.append((s, v if v is not None else mk('void')))
        return res

    # ---- joins ---------------------------------------------------------
    def merge_many(self, sts):
        groups = {}
        for s in sts:
            groups.setdefault(self.C.key(s), []).append(s)
        out = []
        for k, g in groups.items():
            while len(g) > 1:
                # pair with longest common path prefix
                best, bi, bj = -1, 0, 1
                for i in range(len(g)):
                    for j in range(i + 1, len(g)):
                        n = 0
                        for x, y in zip(g[i].pc, g[j].pc):
                            if x != y:
                                break
                            n += 1
                        if n > best:
                            best, bi, bj = n, i, j
                a, b = g[bi], g[bj]
                m = self.merge2(a, b, best)
                g = [x for x in g if x is not a and x is not b] + [m]
            out.extend(g)
        if len(out) > self.MAXSTATES:
            keep = out[:self.MAXSTATES - 1]
            rest = out[self.MAXSTATES - 1:]
            m = rest[0]
            for r in rest[1:]:
                cs = self.C.joincs(m.cs, r.cs)
                m = self.merge2(m, r, 0)
                m.cs = cs
            out = keep + [m]
        return out

    def merge2(self, a, b, n):
        ca = a.pc[n:] if n < len(a.pc) else ()
        cb = b.pc[n:] if n < len(b.pc) else ()
        ta = land(*[c if v else lnot(c) for c, v in ca]) if ca else TRUE
        tb = land(*[c if v else lnot(c) for c, v in cb]) if cb else TRUE
        if ca and cb and ca[0][0] is cb[0][0] and ca[0][1] != cb[0][1]:
            cond = ca[0][0] if ca[0][1] else lnot(ca[0][0])
            if len(ca) == 1 and len(cb) == 1:
                pass
        else:
            cond = fresh('nd')
            cond = mk('b', 'nd', cond)
        r = State()
        r.pc = a.pc[:n]
        # paths that vanished (returned elsewhere) leave a residual condition
        rest = lor(ta, tb)
        if not isc(rest) and len(ca) + len(cb) <= 8 and not (cond.op == 'b' and cond.a[0] == 'nd'):
            r.pc = r.pc + ((rest, True),)
        r.facts = a.facts.meet(b.facts)
        if not isc(rest):
            r.facts.lit[rest] = True
        r.loops = a.loops
        r.cs = dict(a.cs)
        r.env = dict(a.env)
        for k, v in b.env.items():
            if k in r.env and r.env[k] is not v:
                r.env[k] = mk('lite', cond, r.env[k], v)
            else:
                r.env[k] = v
        keys = set(a.store) | set(b.store)
        for k in keys:
            va, vb = a.store.get(k), b.store.get(k)
            if va is vb:
                r.store[k] = va
                continue
            if va is None:
                va = a.read(k)
            if vb is None:
                vb = b.read(k)
            r.store[k] = ite(cond, va, vb)
        return r

    # ---- statements ----------------------------------------------------
    def block(self, s, sts):
        return self.stmt(s, sts)

    def stmt(self, s, sts):
        """-> {'n':[...], 'b':[...], 'c':[...]}; returns go to frame.rets."""
        R = {'n': [], 'b': [], 'c': []}
        if s is None or not sts:
            R['n'] = sts
            return R
        self.steps += 1
        if self.steps > self.maxsteps:
            raise Undecided('analysis budget exhausted')
        k = s['k']
        m = getattr(self, 's_' + k, None)
        if m is None:
            self.unknown.append((k, s.get('l')))
            R['n'] = sts
            return R
        m(s, sts, R)
        if len(R['n']) > 1:
            R['n'] = self.merge_many(R['n'])
        return R

    def s_block(self, s, sts, R):
        cur = sts
        for x in s['s']:
            if not cur:
                break
            r = self.stmt(x, cur)
            R['b'] += r['b']
            R['c'] += r['c']
            cur = r['n']
        R['n'] = cur

    def s_decl(self, s, sts, R):
        cur = sts
        for v in s['v']:
            nxt = []
            for st in cur:
                nxt += self.declvar(v, st)
            cur = nxt
        R['n'] = cur

    def declvar(self, v, st):
        key = (self.fr.id, v['d'])
        t = self.fr.tu.t(v['t'])
        if t.get('ref'):
            out = []
            for s, l in self.ev(v['init'], st):
                if l.op not in LOCOPS:
                    tl = self.newtmp()
                    s.write(tl, l)
                    l = tl
                s.env[key] = l
                out.append(s)
            return out
        loc = mk('var', self.fr.id, v['d'], v['n'])
        if v.get('static'):
            loc = mk('glob', 'static ' + v['n'], self.fr.fn.key)
        st.env[key] = loc
        st.clear(loc)
        if 'init' in v and v['init'] is not None:
            return self.eval_into(loc, v['init'], st, decl=True)
        st.store[loc] = mk('uninit', loc)
        return [st]

    def newtmp(self):
        self.ntmp += 1
        return mk('tmp', self.ntmp)

    def s_py(self, s, sts, R):
        s['f'](sts, R)

    def s_expr(self, s, sts, R):
        for st in sts:
            R['n'] += [x for x, _ in self.ev(s['e'], st)]

    def s_if(self, s, sts, R):
        if s.get('i'):
            r = self.stmt(s['i'], sts)
            sts = r['n']
        if s.get('cvd'):
            sts = [x for st in sts for x in self.declvar(s['cvd'], st)]
        for st in sts:
            for st2, c in self.ev(s['c'], st):
                c = tobool(c)
                v = st2.facts.eval(c)
                branches = []
                if v is not False:
                    a = st2 if v is True else st2.fork()
                    ok = a.assume(c, True) if v is None else True
                    if ok:
                        branches.append((a, s['x']))
                if v is not True:
                    b = st2
                    ok = b.assume(c, False) if v is None else True
                    if ok:
                        branches.append((b, s.get('y')))
                for b, body in branches:
                    r = self.stmt(body, [b])
                    for kk in R:
                        R[kk] += r[kk]

    def s_ret(self, s, sts, R):
        for st in sts:
            if s.get('e') is None:
                self.fr.rets.append((st, mk('void')))
                continue
            rt = self.fr.tu.t(self.fr.fn.j['rt'])
            e = s['e']
            if rt.get('ref'):
                for s2, v in self.ev(e, st):
                    self.fr.rets.append((s2, v))
            else:
                for s2, v in self.ev(e, st):
                    if v.op in LOCOPS and e.get('lv'):
                        v = s2.readagg(v)
                    self.C_return(s2, v, s)
                    self.fr.rets.append((s2, v))

    def C_return(self, st, v, s):
        h = getattr(self.C, 'on_return', None)
        if h:
            h(self, st, v, s)

    def s_break(self, s, sts, R):
        R['b'] = sts

    def s_continue(self, s, sts, R):
        R['c'] = sts

    def s_case(self, s, sts, R):
        r = self.stmt(s['s'], sts)
        for k in R:
            R[k] += r[k]

    s_default = s_case

    def s_try(self, s, sts, R):
        saved = self.throws
        self.throws = []
        r = self.stmt(s['b'], sts)
        caught = self.throws
        self.throws = saved
        for k in R:
            R[k] += r[k]
        if s.get('h'):
            for h in s['h']:
                r = self.stmt(h, [x.fork() for x in caught])
                for k in R:
                    R[k] += r[k]
            if not s.get('all'):
                self.throws += caught
        else:
            self.throws += caught

    def s_unks(self, s, sts, R):
        self.unknown.append((s.get('cls'), s.get('l')))
        R['n'] = sts

    def s_switch(self, s, sts, R):
        if s.get('i'):
            sts = self.stmt(s['i'], sts)['n']
        # flatten the body into labelled sequence
        body = s['b']['s'] if s['b']['k'] == 'block' else [s['b']]
        seq = []

        def addst(x):
            labels = []
            while isinstance(x, dict) and x['k'] in ('case', 'default'):
                labels.append(x['v'] if x['k'] == 'case' else 'default')
                x = x['s']
            seq.append((labels, x))
        for x in body:
            addst(x)
        cases = [l for ls, _ in seq for l in ls if l != 'default']
        for st in sts:
            for st2, v in self.ev(s['c'], st):
                cur = []
                hasdef = any('default' in ls for ls, _ in seq)
                dflt = st2.fork()
                dok = True
                for c in cases:
                    if c is None:
                        self.unknown.append(('case', s.get('l')))
                        continue
                    dok = dok and dflt.assume(cmp('==', v, C(c), False), False)
                for ls, x in seq:
                    for l in ls:
                        if l == 'default':
                            if dok:
                                cur.append(dflt.fork())
                        elif l is not None:
                            e = st2.fork()
                            cnd = cmp('==', v, C(l), False)
                            ev = e.facts.eval(cnd)
                            if ev is not False and e.assume(cnd, True):
                                cur.append(e)
                    if cur and x is not None:
                        if len(cur) > 1:
                            cur = self.merge_many(cur)
                        r = self.stmt(x, cur)
                        R['n'] += r['b']
                        R['c'] += r['c']
                        cur = r['n']
                R['n'] += cur
                if not hasdef and dok:
                    R['n'].append(dflt)

    # ---- loops ---------------------------------------------------------
    def s_for(self, s, sts, R):
        if s.get('i'):
            sts = self.stmt(s['i'], sts)['n']
        for st in sts:
            self.loop(s, st, R, s.get('c'), s.get('n'), s['b'])

    def s_while(self, s, sts, R):
        for st in sts:
            self.loop(s, st, R, s['c'], None, s['b'])

    def s_do(self, s, sts, R):
        # body once, then as while
        for st in sts:
            sub = {'n': [], 'b': [], 'c': []}
            r = self.stmt(s['b'], [st])
            R['n'] += r['b']
            for s2 in self.merge_many(r['n'] + r['c']) if (r['n'] or r['c']) else []:
                self.loop(s, s2, R, s['c'], None, s['b'])

    def s_forr(self, s, sts, R):
        for st in sts:
            for st2, rng in self.ev(s['r'], st):
                if rng.op not in LOCOPS:
                    t = self.newtmp()
                    st2.write(t, rng)
                    rng = t
                self.loop_range(s, st2, R, rng)

    def loop_range(self, s, st, R, rng):
        n = self.size_of(st, rng)
        v = s['v']
        t = self.fr.tu.t(v['t'])
        key = (self.fr.id, v['d'])

        def bind(stx, idx):
            el = mk('e', rng, idx)
            if t.get('ref'):
                stx.env[key] = el
            else:
                l = mk('var', self.fr.id, v['d'], v['n'])
                stx.env[key] = l
                stx.clear(l)
                stx._store(l, stx.readagg(el))
        if isc(n) and 0 <= n.a[0] <= BIG:
            cur = [st]
            for i in range(int(n.a[0])):
                for c in cur:
                    bind(c, C(i))
                r = self.stmt(s['b'], cur)
                R['n'] += r['b']
                cur = r['n'] + r['c']
                if len(cur) > 1:
                    cur = self.merge_many(cur)
                if not cur:
                    break
            R['n'] += cur
            return
        self.nloop += 1
        lid = self.nloop
        ix = mk('ix', C(lid), n) if False else mk('ix', lid, n)

        def pre(stx):
            ok = stx.facts.assume(ge0(sub(sub(n, ix), ONE)), True)
            bind(stx, ix)
            return [stx]
        self.fix(s, st, R, lid, ix, n, pre, lambda stx: [stx], None, s['b'])

    def loop(self, s, st, R, cond, inc, body):
        literal = cond is None or cond['k'] in ('int',)
        # constant trip count: iterate
        if not literal:
            probe = st.fork()
            self.mute += 1
            th = self.throws
            self.throws = []
            try:
                cv = [tobool(v) for _, v in self.ev(cond, probe)]
            finally:
                self.throws = th
                self.mute -= 1
            if all(isc(c) or probe.facts.eval(c) is not None for c in cv) and \
                    self.syntactic_const(cond, st):
                if self.unroll(s, st.fork(), R, cond, inc, body):
                    return
        self.nloop += 1
        lid = self.nloop
        ix = mk('ix', lid)

        def pre(stx):
            if cond is None:
                return [stx]
            out = []
            for s2, c in self.ev(cond, stx):
                c = tobool(c)
                if s2.facts.eval(c) is False:
                    continue
                if s2.assume(c, True):
                    out.append(s2)
            return out

        def post(stx):
            if inc is None:
                return [stx]
            return [x for x, _ in self.ev(inc, stx)]
        self.fix(s, st, R, lid, ix, None, pre, post, cond, body)

    def syntactic_const(self, cond, st):
        """Heuristic: loop condition compares against constants only."""
        return True

    def unroll(self, s, st, R, cond, inc, body):
        rets0 = len(self.fr.rets)
        th0 = len(self.throws)
        nl = self.nloop
        Rb = []
        cur = [st]
        hook = getattr(self.C, 'checkpoint', None)
        cp = hook() if hook else None
        for it in range(4 * BIG):
            nxt = []
            for c in cur:
                for s2, v in self.ev(cond, c):
                    v = tobool(v)
                    e = s2.facts.eval(v)
                    if e is None or it >= 4 * BIG - 1:
                        del self.fr.rets[rets0:]
                        del self.throws[th0:]
                        self.nloop = nl
                        if hook:
                            self.C.rollback(cp)
                        return False
                    if e:
                        nxt.append(s2)
                    else:
                        Rb.append(s2)
            if not nxt:
                break
            if len(nxt) > 1:
                nxt = self.merge_many(nxt)
            r = self.stmt(body, nxt)
            Rb += r['b']
            cur = r['n'] + r['c']
            if inc is not None:
                cur = [x for c in cur for x, _ in self.ev(inc, c)]
            if not cur:
                break
            if len(cur) > 1:
                cur = self.merge_many(cur)
        R['n'] += Rb
        return True

    def fix(self, s, st, R, lid, ix, trip, pre, post, cond, body):
        """Fixpoint for one loop entry state."""
        entry = st
        modified = {}      # loc -> ('phi', term) or ('ind', step)
        savedloops = entry.loops
        rets0 = len(self.fr.rets)
        hook = getattr(self.C, 'checkpoint', None)
        entry_cs = [dict(entry.cs)]
        rounds = 0
        final = None
        while True:
            rounds += 1
            if rounds > 12:
                raise Undecided('loop at %s did not stabilise' % s.get('l'))
            del self.fr.rets[rets0:]
            th0 = len(self.throws)
            cp = hook() if hook else None
            nl = self.nloop
            if rounds == 1:
                nt, nf = self.ntmp, self.nframe
            self.ntmp, self.nframe = nt, nf
            heads = []
            for cs in entry_cs:
                h = entry.fork()
                h.cs = dict(cs)
                h.loops = savedloops + ((lid, s.get('l')),)
                for loc in sorted(modified, key=lambda t: t.id):
                    how = modified[loc]
                    h.clear(loc)
                    if how[0] == 'ind':
                        h.store[loc] = self.step(entry.read(loc), how, ix)
                    else:
                        h.store[loc] = mk('lp', lid, loc)
                # facts that mention modified memory are about old values: they
                # speak of value numbers, so they stay valid
                heads.append(h)
            R2 = {'n': [], 'b': [], 'c': []}
            backs = []
            exits = []
            for h in heads:
                if cond is not None:
                    e = h.fork()
                    self.mute += 1
                    th = self.throws
                    self.throws = []
                    try:
                        for s2, c in self.ev(cond, e):
                            c = tobool(c)
                            if s2.facts.eval(c) is True:
                                continue
                            if s2.assume(c, False):
                                exits.append(s2)
                    finally:
                        self.mute -= 1
                        self.throws = th
                elif trip is not None:
                    e = h.fork()
                    exits.append(e)
                bs = pre(h)
                if bs:
                    r = self.stmt(body, bs)
                    R2['b'] += r['b']
                    ends = r['n'] + r['c']
                    lb = getattr(self.C, 'on_loop_back', None)
                    for x in ends:
                        if lb:
                            lb(self, x)
                        backs += post(x)
            # which locations changed
            newmod = {}
            for b in backs:
                keys = set(b.store) | set(entry.store)
                for k in keys:
                    rk = root(k)
                    if rk.op in ('mat', 'buf'):
                        own = [x for x in subterms(rk) if x.op in ('var', 'tmp')]
                        if own and not any(self.visible(x, entry) for x in own):
                            continue
                    if rk.op in ('var', 'tmp') and not self.visible(k, entry):
                        continue
                    if k in modified:
                        if modified[k][0] == 'ind':
                            want = self.step(self.step(entry.read(k), modified[k], ix), modified[k], ONE)
                            if b.read(k) is not want:
                                newmod[k] = ('phi',)
                        continue
                    anc = k
                    cov = False
                    while anc.op in ('f', 'e', 'view'):
                        anc = anc.a[0]
                        if anc in modified and modified[anc][0] == 'phi':
                            cov = True
                    vb = b.store.get(k)
                    if cov:
                        # sub-location of a phi'd aggregate
                        base = heads[0].read(k)
                        if (vb if vb is not None else b.read(k)) is not base:
                            newmod[k] = ('phi',)
                        continue
                    ve = entry.read(k)
                    if vb is None:
                        vb = b.read(k)
                    if vb is not ve:
                        d = None
                        if self.scalarish(ve) and self.scalarish(vb):
                            d = sub(vb, ve)
                        how = ('ind', d)
                        pd = ptr_diff(vb, ve)
                        if pd is not None and any(x.op == 'lp' or x.op == 'ix' and x.a[0] not in {l[0] for l in savedloops} for x in subterms(pd)):
                            pd = None       # not the same in every iteration
                        if pd is not None:
                            d, how = pd, ('ind', pd, 'ptr')
                        if d is not None and (isc(d) and isinstance(d.a[0], int) or pd is not None) and newmod.get(k, how) == how:
                            newmod[k] = how
                        else:
                            newmod[k] = ('phi',)
            # an induction candidate must change on every back edge
            for k in list(newmod):
                if newmod[k][0] == 'ind':
                    ev = entry.read(k)
                    if any((ptr_diff(b.read(k), ev) if len(newmod[k]) > 2 else sub(b.read(k), ev)) is not newmod[k][1] for b in backs):
                        newmod[k] = ('phi',)
            newcs = []
            for b in backs:
                if b.cs not in entry_cs and b.cs not in newcs:
                    newcs.append(dict(b.cs))
            if DEBUG:
                print('loop', s.get('l'), 'round', rounds, [(show(k)[:70], [show(b.read(k))[:110] for b in backs][:2], v[0]) for k, v in newmod.items()][:6], newcs[:2], len(entry_cs))
            if not newmod and not newcs:
                final = (backs, exits, R2)
                break
            # roll back this exploratory round
            del self.throws[th0:]
            if hook:
                self.C.rollback(cp)
            self.nloop = nl
            for k, v in newmod.items():
                if k in modified:
                    modified[k] = ('phi',)
                else:
                    modified[k] = v
            # drop sub-locations of phi'd aggregates unless needed
            entry_cs += newcs
            if len(entry_cs) > 12:
                m = entry_cs[0]
                for x in entry_cs[1:]:
                    m = self.C.joincs(m, x)
                entry_cs = [m]
        backs, exits, R2 = final
        h = getattr(self.C, 'on_loop_break', None)
        if h and not self.mute:
            for e in R2['b']:
                h(self, e, lid)
        h = getattr(self.C, 'on_loop_done', None)
        if h and not self.mute:
            h(self, lid, ix, trip, entry, modified, backs, exits)
        for e in exits + R2['b']:
            e.loops = savedloops
        for e in exits:
            if trip is not None:
                e.facts = entry.facts.copy()
                mp = {ix: trip}
                for loc, how in modified.items():
                    if how[0] == 'ind':
                        e.store[loc] = self.step(entry.read(loc), how, trip)
                e.pc = entry.pc
        h = getattr(self.C, 'loop_exit', None)
        if h:
            for e in exits:
                h(self, e, lid, s)
        R['n'] += exits + R2['b']

    @staticmethod
    def step(v, how, n):
        d = mul(how[1], n)
        return padd(v, d) if len(how) > 2 else add(v, d)

    def visible(self, k, entry):
        return any(root(x) is root(k) for x in entry.store) or \
            any(root(v) is root(k) for v in entry.env.values() if isinstance(v, T))

    def scalarish(self, v):
        return v.op in ('c', 'poly', 'i', 'p', 'lp', 'ix', 'size', 'rows', 'cols', 'fv', 'get', 'h', 'call')

    # ---- expressions ---------------------------------------------------
    def eval_into(self, loc, e, st, decl=False, sub=False):
        """Initialise loc with expression e; returns states."""
        k = e['k'] if e else 'zero'
        if e is None:
            return [st]
        if k in ('defarg', 'definit'):
            return self.eval_into(loc, e['e'], st, decl, sub)
        if k == 'tmp' and not e.get('lv'):
            return self.eval_into(loc, e['e'], st, decl, sub)
        if k == 'ctor' and not (e.get('copy') or e.get('move')):
            fn = self.P.fns.get(e['fn'])
            if fn is not None and not self.C.opaque(fn) and self.fr.depth < self.C.depth:
                out = []
                for s2, vals in self.evargs(e['a'], fn, st):
                    if not sub:
                        s2.clear(loc)
                        s2.store[loc] = mk('new', loc)
                    self.C.on_call(self, s2, e, e['n'], loc, vals)
                    for s3, _ in self.invoke(fn, s2, loc, vals, e):
                        out.append(s3)
                return out
        if k == 'init':
            t = self.ty(e)
            if t['k'] == 'rec':
                r = self.P.records.get(t.get('ru'))
                if r is not None:
                    sts = [st]
                    st.clear(loc)
                    st.store[loc] = mk('new', loc)
                    for f, x in zip(r['fields'], e['a']):
                        nx = []
                        for s in sts:
                            nx += self.eval_into(mk('f', loc, f['n']), x, s)
                        sts = nx
                    return sts
        out = []
        for s2, v in self.ev(e, st):
            if v.op in LOCOPS and e.get('lv'):
                v = s2.readagg(v)
            s2.write(loc, v)
            if not decl and not sub:
                pass
            self.C.on_write(self, s2, loc, v, e, 'init')
            out.append(s2)
        return out

    def evargs(self, args, fn, st):
        """Evaluate call arguments against fn's parameters (None: library)."""
        cur = [(st, [])]
        for i, a in enumerate(args):
            nxt = []
            for s, vs in cur:
                for s2, v in self.ev(a, s):
                    isref = False
                    if fn is not None and i < len(fn.params):
                        isref = bool(fn.tu.t(fn.params[i]['t']).get('ref'))
                    if isref:
                        if v.op not in LOCOPS:
                            t = self.newtmp()
                            s2.write(t, v)
                            v = t
                    elif fn is not None and v.op in LOCOPS and a and a.get('lv'):
                        v = s2.readagg(v)
                    nxt.append((s2, vs + [v]))
            cur = nxt
        return cur

    def ev(self, e, st):
        if e is None:
            return [(st, mk('void'))]
        self.steps += 1
        if self.steps > self.maxsteps:
            raise Undecided('analysis budget exhausted')
        m = getattr(self, 'e_' + e['k'], None)
        if m is None:
            self.unknown.append((e['k'], e.get('l')))
            return [(st, fresh('unk'))]
        return m(e, st)

    def e_int(self, e, st):
        return [(st, C(e['v']))]

    def e_flt(self, e, st):
        return [(st, C(float(e['v'])))]

    def e_str(self, e, st):
        return [(st, mk('str', e.get('v', '')))]

    def e_null(self, e, st):
        return [(st, ZERO)]

    def e_this(self, e, st):
        f = self.fr
        return [(st, addr(f.this) if f.this is not None else mk('p', 'this'))]

    def e_ref(self, e, st):
        vk = e['vk']
        if vk == 'enum':
            return [(st, C(e['cv']))]
        if vk == 'func':
            return [(st, mk('fnref', e['fn']))]
        if vk == 'global':
            l = mk('glob', e['n'])
            if 'cv' in e and not e.get('lv'):
                return [(st, C(e['cv']))]
            if 'cv' in e:
                st.store.setdefault(l, C(e['cv']))
            return [(st, l)]
        l = st.env.get((self.fr.id, e['d']))
        if l is None:
            if 'cv' in e:
                l = mk('glob', 'const', e['cv'])
                st.store[l] = C(e['cv'])
            else:
                l = mk('var', self.fr.id, e['d'], e['n'])
                st.env[(self.fr.id, e['d'])] = l
        return [(st, l)]

    def e_load(self, e, st):
        out = []
        for s, l in self.ev(e['e'], st):
            if l.op in LOCOPS:
                self.C.on_access(self, s, l, e)
                v = s.readagg(l) if self.ty(e)['k'] == 'rec' else s.read(l)
                v = self.condsimp(s, v)
            else:
                v = l
            out.append((s, v))
        return out

    def condsimp(self, st, v):
        n = 0
        while v.op == 'ite' and n < 20:
            c = st.facts.eval(v.a[0])
            if c is None:
                break
            v = v.a[1] if c else v.a[2]
            n += 1
        return v

    def e_mem(self, e, st):
        out = []
        ft = self.fr.tu.t(e['ft'])
        for s, b in self.ev(e['b'], st):
            if e.get('arrow'):
                base = deref(b)
            elif b.op in LOCOPS:
                base = b
            else:
                v = fieldval(b, e['f'])
                if e.get('lv'):
                    t = self.newtmp()
                    s.write(t, v)
                    v = t
                out.append((s, v))
                continue
            if e.get('arrow'):
                self.C.on_access(self, s, base, e)
            l = mk('f', base, e['f'])
            if ft.get('ref'):
                l = deref(s.read(l))
            out.append((s, l))
        return out

    def e_idx(self, e, st):
        out = []
        for s, b in self.ev(e['b'], st):
            for s2, i in self.ev(e['i'], s):
                l = deref(padd(b, i)) if b.op not in LOCOPS else mk('e', b, i)
                self.C.on_access(self, s2, l, e)
                out.append((s2, l))
        return out

    def e_tmp(self, e, st):
        out = []
        sub = e['e']
        if sub and sub['k'] == 'ctor' or (sub and sub['k'] == 'init'):
            t = self.newtmp()
            for s in self.eval_into(t, sub, st):
                out.append((s, t))
            return out
        for s, v in self.ev(sub, st):
            if v.op in LOCOPS:
                out.append((s, v))
            else:
                t = self.newtmp()
                s._store(t, v)
                out.append((s, t))
        return out

    def e_defarg(self, e, st):
        return self.ev(e['e'], st)

    e_definit = e_defarg

    def e_zero(self, e, st):
        return [(st, ZERO)]

    def e_throw(self, e, st):
        self.throws.append(st)
        h = getattr(self.C, 'on_throw', None)
        if h:
            h(self, st, e)
        return []

    def e_sizeof(self, e, st):
        return [(st, C(e['cv']) if 'cv' in e else fresh('sizeof'))]

    def e_typeid(self, e, st):
        return [(st, mk('typeid', self.fr.tu.t(e['at'])['s'] if 'at' in e else '?'))]

    def e_memfn(self, e, st):
        return self.ev(e['b'], st)

    def e_unk(self, e, st):
        if 'cv' in e:
            return [(st, C(e['cv']))]
        self.unknown.append((e.get('cls'), e.get('l')))
        cur = [st]
        for a in e.get('a', []):
            cur = [s for c in cur for s, _ in self.ev(a, c)]
        return [(s, fresh('unk')) for s in cur]

    def e_init(self, e, st):
        t = self.ty(e)
        if t['k'] == 'rec':
            tl = self.newtmp()
            return [(s, s.readagg(tl)) for s in self.eval_into(tl, e, st)]
        cur = [(st, [])]
        for a in e['a']:
            nx = []
            for s, vs in cur:
                for s2, v in self.ev(a, s):
                    if v.op in LOCOPS and a.get('lv'):
                        v = s2.readagg(v)
                    nx.append((s2, vs + [v]))
            cur = nx
        if t['k'] in ('int', 'uint', 'float', 'bool', 'ptr', 'enum') and len(e['a']) <= 1:
            return [(s, vs[0] if vs else ZERO) for s, vs in cur]
        return [(s, mk('arr', *vs)) for s, vs in cur]

    def e_stdinit(self, e, st):
        out = []
        for s, v in self.ev(e['e'], st):
            if v.op in LOCOPS:
                v = s.readagg(v)
            out.append((s, v))
        return out

    def e_new(self, e, st):
        if e.get('pl'):
            out = []
            for s, p in self.ev(e['pl'][0], st):
                loc = deref(p)
                self.C.on_call(self, s, e, 'placement new', loc, [])
                if e.get('init'):
                    for s2 in self.eval_into(loc, e['init'], s):
                        out.append((s2, p))
                else:
                    out.append((s, p))
            return out
        self.ntmp += 1
        loc = mk('heap', self.ntmp)
        if e.get('init') and 'n' not in e:
            return [(s, mk('&', loc)) for s in self.eval_into(loc, e['init'], st)]
        return [(st, mk('&', loc))]

    def e_delete(self, e, st):
        out = []
        for s, p in self.ev(e['e'], st):
            self.C.on_call(self, s, e, 'delete', p, [])
            out.append((s, mk('void')))
        return out

    def e_lambda(self, e, st):
        return [(st, mk('lam', e['fn'], self.fr.id, self.fr.this if self.fr.this is not None else ZERO))]

    def e_cond(self, e, st):
        out = []
        for s, c in self.ev(e['c'], st):
            c = tobool(c)
            v = s.facts.eval(c)
            if v is not None:
                out += self.ev(e['x'] if v else e['y'], s)
                continue
            a, b = s.fork(), s
            n = len(s.pc)
            ra = self.ev(e['x'], a) if a.assume(c, True) else []
            rb = self.ev(e['y'], b) if b.assume(c, False) else []
            out += self.joinvals(ra + rb, c if not e.get('lv') else None)
        return out

    def joinvals(self, rs, c=None):
        if len(rs) <= 1:
            return rs
        if any(v.op in LOCOPS for _, v in rs):
            # lvalue conditional: keep a gated location
            if len(rs) == 2 and rs[0][0].pc and rs[1][0].pc:
                c0 = rs[0][0].pc[-1]
                cnd = c0[0] if c0[1] else lnot(c0[0])
                l = mk('lite', cnd, rs[0][1], rs[1][1]) if rs[0][1] is not rs[1][1] else rs[0][1]
                m = self.merge_many([rs[0][0], rs[1][0]])
                return [(x, l) for x in m]
            return rs
        return self.merge_rets(rs, 0)

    def e_cast(self, e, st):
        ck = e['ck']
        out = []
        for s, v in self.ev(e['e'], st):
            if ck == 'IntegralCast':
                src = self.ty(e['e'])
                dst = self.ty(e)
                if dst['k'] == 'uint' and src['k'] in ('int', 'enum') and v.op not in LOCOPS:
                    if not s.facts.entails_ge0(v):
                        v = mk('u', v)
                elif dst['k'] == 'int' and v.op == 'u':
                    v = v.a[0]
                if not isc(v):
                    v = self.C.on_narrow(self, s, v, src, dst, e)
            elif ck in ('IntegralToBoolean', 'PointerToBoolean', 'FloatingToBoolean'):
                v = tobool(v)
            elif ck == 'FloatingToIntegral':
                v = C(int(v.a[0])) if isc(v) else mk('trunc', v)
            elif ck == 'ArrayToPointerDecay':
                v = mk('&', mk('e', v, ZERO)) if v.op in LOCOPS else v
            elif ck == 'NullToPointer':
                v = ZERO
            elif ck in ('LValueBitCast',):
                pass
            elif ck == 'ToVoid':
                v = mk('void')
            out.append((s, v))
        return out

    def e_un(self, e, st):
        op = e['op']
        out = []
        if op in ('++', '--', 'post++', 'post--'):
            for s, l in self.ev(e['e'], st):
                old = s.read(l)
                d = ONE if '+' in op else C(-1)
                t = self.ty(e['e'])
                new = padd(old, d) if t.get('ptr') or t['k'] == 'ptr' else add(old, d)
                self.prev = old
                s.write(l, new)
                self.C.on_write(self, s, l, new, e, op)
                out.append((s, old if op.startswith('post') else l))
            return out
        for s, v in self.ev(e['e'], st):
            if op == '*':
                l = deref(v)
                self.C.on_access(self, s, l, e)
                out.append((s, l))
            elif op == '&':
                out.append((s, addr(v) if v.op in LOCOPS else v))
            elif op == '!':
                out.append((s, lnot(tobool(v))))
            elif op == '-':
                out.append((s, neg(v)))
            elif op == '+':
                out.append((s, v))
            elif op == '~':
                out.append((s, mk('bnot', v)))
            else:
                out.append((s, v))
        return out

    def arith(self, st, op, x, y, t, tx=None, ty=None):
        flt = t['k'] == 'float'
        if op == '+':
            if t['k'] == 'ptr':
                if tx and tx['k'] == 'ptr':
                    return padd(x, y)
                return padd(y, x)
            return add(x, y)
        if op == '-':
            if tx and tx['k'] == 'ptr':
                if ty and ty['k'] == 'ptr':
                    return mk('pdiff', x, y)
                return padd(x, neg(y))
            return sub(x, y)
        if op == '*':
            return mul(x, y)
        if op == '/':
            return div(x, y) if flt else idiv(x, y)
        if op == '%':
            return imod(x, y)
        if isc(x) and isc(y) and isinstance(x.a[0], int) and isinstance(y.a[0], int):
            a, b = x.a[0], y.a[0]
            r = {'&': a & b, '|': a | b, '^': a ^ b}.get(op)
            if op == '<<' and 0 <= b < 63:
                r = a << b
            if op == '>>' and 0 <= b < 63:
                r = a >> b
            if r is not None:
                return C(r)
        if op == '<<' and isc(y) and isinstance(y.a[0], int) and 0 <= y.a[0] < 31:
            return scale(x, 1 << y.a[0])
        if op in '&|^' and is_bool(x) and is_bool(y):
            return land(x, y) if op == '&' else lor(x, y) if op == '|' else lnot(ite(x, y, lnot(y)))
        return mk('op' + op, x, y)

    def e_bin(self, e, st):
        op = e['op']
        out = []
        if op == '=':
            # right side first (C++17), then left
            for s, v in self.ev(e['y'], st):
                for s2, l in self.ev(e['x'], s):
                    if v.op in LOCOPS and e['y'].get('lv'):
                        v = s2.readagg(v)
                    if l.op in LOCOPS:
                        self.C.on_access(self, s2, l, e)
                        self.prev = s2.read(l)
                        s2.write(l, v)
                        self.C.on_write(self, s2, l, v, e, '=')
                    out.append((s2, l))
            return out
        if op in ('&&', '||'):
            for s, x in self.ev(e['x'], st):
                x = tobool(x)
                v = s.facts.eval(x)
                if v is not None:
                    if (op == '&&') == v:
                        out += [(s2, tobool(y)) for s2, y in self.ev(e['y'], s)]
                    else:
                        out.append((s, C(v)))
                    continue
                a, b = s.fork(), s
                rs = []
                short = (op == '||')
                if a.assume(x, not short):
                    for s2, y in self.ev(e['y'], a):
                        rs.append((s2, tobool(y)))
                if b.assume(x, short):
                    rs.append((b, C(short)))
                # fast path: the right side had no effect
                if len(rs) == 2 and rs[0][0].store == rs[1][0].store and rs[0][0].cs == rs[1][0].cs \
                        and rs[0][0].pc[:-1] == rs[1][0].pc[:-1]:
                    y = rs[0][1]
                    base = rs[1][0]
                    base.pc = base.pc[:-1]
                    base.facts = rs[0][0].facts.meet(base.facts)
                    base.env = {**rs[0][0].env, **base.env}
                    out.append((base, land(x, y) if op == '&&' else lor(x, y)))
                else:
                    out += self.joinvals(rs)
            return out
        if op == ',':
            for s, _ in self.ev(e['x'], st):
                out += self.ev(e['y'], s)
            return out
        if op.endswith('=') and op not in ('==', '!=', '<=', '>='):
            bop = op[:-1]
            ct = self.fr.tu.t(e.get('ct')) if 'ct' in e else self.ty(e)
            for s, y in self.ev(e['y'], st):
                for s2, l in self.ev(e['x'], s):
                    old = s2.read(l)
                    tx = self.ty(e['x'])
                    t = tx if tx['k'] == 'ptr' else ct
                    v = self.arith(s2, bop, old, y, t, tx, self.ty(e['y']))
                    if tx['k'] == 'bool':
                        v = tobool(v)
                    self.C.on_access(self, s2, l, e)
                    self.prev = old
                    s2.write(l, v)
                    self.C.on_write(self, s2, l, v, e, op)
                    out.append((s2, l))
            return out
        for s, x in self.ev(e['x'], st):
            for s2, y in self.ev(e['y'], s):
                tx, ty = self.ty(e['x']), self.ty(e['y'])
                if op in ('==', '!=', '<', '>', '<=', '>='):
                    flt = tx['k'] == 'float' or ty['k'] == 'float'
                    out.append((s2, cmp(op, x, y, flt)))
                else:
                    out.append((s2, self.arith(s2, op, x, y, self.ty(e), tx, ty)))
        return out

    # ---- calls ---------------------------------------------------------
    def e_ctor(self, e, st):
        fn = self.P.fns.get(e['fn'])
        if e.get('copy') or e.get('move'):
            if len(e['a']) >= 1 and (fn is None or not fn.j.get('inits') or fn.j.get('implicit') or fn.j.get('defaulted')):
                out = []
                for s, v in self.ev(e['a'][0], st):
                    if v.op in LOCOPS:
                        v = s.readagg(v)
                    out.append((s, v))
                return out
        if fn is not None and not self.C.opaque(fn) and self.fr.depth < self.C.depth:
            t = self.newtmp()
            return [(s, s.readagg(t)) for s in self.eval_into(t, e, st)]
        from . import lib
        out = []
        for s, vs in self.evargs(e['a'], None, st):
            out += lib.construct(self, s, e, vs)
        return out

    def e_call(self, e, st):
        if 'cv' in e and not e.get('lv') and not e.get('repo'):
            return [(st, C(e['cv']))]
        fn = self.P.fns.get(e.get('fn')) if e.get('fn') else None
        if fn is not None and fn.j.get('virt') and not fn.body:
            fn = None
        out = []
        objs = [(st, None)]
        if e.get('o') is not None:
            objs = []
            for s, o in self.ev(e['o'], st):
                if e.get('arrow'):
                    o = deref(o)
                objs.append((s, o))
        elif 'callee' in e:
            objs = self.ev(e['callee'], st)
        for s, o in objs:
            for s2, vs in self.evargs(e['a'], fn, s):
                out += self.docall(e, s2, fn, o, vs)
        if len(out) > 1:
            out = self.joinvals(out)
        return out

    def docall(self, e, st, fn, obj, vals):
        name = e.get('n', '?')
        r = self.C.call(self, st, e, name, obj, vals)
        if r is not None:
            return r
        self.C.on_call(self, st, e, name, obj, vals)
        # lambda
        if obj is not None and e.get('op') == '()' or 'callee' in e:
            ov = obj
            if ov is not None and ov.op in LOCOPS:
                ov = st.read(ov)
            if ov is not None and ov.op == 'lam':
                lf = fn or self.P.fns.get(ov.a[0])
                if lf is not None and self.fr.depth < self.C.depth + 6:
                    this = ov.a[2] if ov.a[2] is not ZERO else None
                    return self.invoke(lf, st, this, vals, e, env=ov.a[1])
        if fn is not None and not self.C.opaque(fn) and self.fr.depth < self.C.depth \
                and not self.recursive(fn) and not (e.get('virt') and fn.j.get('virt') and (fn.body is None or self.P.overriders(fn.key))):
            return self.invoke(fn, st, obj, vals, e)
        from . import lib
        return lib.call(self, st, e, fn, name, obj, vals)

    def recursive(self, fn):
        f = self.fr
        n = 0
        while f is not None:
            if f.fn is fn:
                n += 1
            f = f.parent
        return n >= 1

    # ---- containers ----------------------------------------------------
    def size_of(self, st, loc):
        from . import lib
        return lib.size_of(self, st, loc)

    def where(self, e):
        return e.get('l', '?') if isinstance(e, dict) else '?'

    def stack(self):
        out = []
        f = self.fr
        while f is not None:
            out.append(f.fn.name)
            f = f.parent
        return list(reversed(out))
