"""Abstract interpreter over the MIR dump.

Transfer functions on abstract states (state.py); branch conditions that the
domain cannot decide partition the state (trace partitioning); loops are
summarised by `loops.py`."""
import json, sys
from poly import *
from state import *
import poly as _p

U64 = 2 ** 64

TRANSPARENT = ('std::boxed::Box', 'std::boxed::BoxRaw', 'std::ptr::Unique', 'std::ptr::NonNull', 'std::mem::ManuallyDrop',
               'std::mem::MaybeUninit', 'std::cell::UnsafeCell', 'std::mem::MaybeDangling',
               'std::cell::Cell', 'core::mem::maybe_dangling::MaybeDangling', 'std::pin::Pin',
               'std::ptr::unique::Unique', 'core::ptr::unique::Unique')


class Prog:
    def __init__(self, path):
        d = json.load(open(path))
        self.tys = d['tys']
        self.bodies = d['bodies']
        self.roots = d['roots']
        self.name = path
        self._heads = {}
        self._live = {}
        for t in self.tys:
            t['tr'] = t['k'] == 'adt' and (t['name'] in TRANSPARENT or t['name'].startswith('std::num::NonZero')
                                           or t['name'].endswith('::NonZero') or 'NonZeroU' in t['name'] or 'NonZeroI' in t['name'])
            t['nz'] = t['k'] == 'adt' and ('NonZero' in t['name'])
            t['md'] = t['k'] == 'adt' and t['name'] in ('std::mem::ManuallyDrop', 'std::mem::MaybeUninit')

    def transparent_field(self, ty):
        """(index of the wrapped field) for a transparent wrapper"""
        t = self.tys[ty]
        fs = t['variants'][0]['fields']
        if t['ak'] == 'union':
            for i, (n, f) in enumerate(fs):
                if n == 'value':
                    return i, f
        return 0, fs[0][1]

    def heads(self, b):
        """loop head -> set of blocks of its natural loop"""
        r = self._heads.get(b)
        if r is None:
            r = self._heads[b] = find_loops(self.bodies[b])
        return r

    def live(self, b):
        r = self._live.get(b)
        if r is None:
            r = self._live[b] = liveness(self.bodies[b])
        return r


def succs(term, unwind=False):
    k = term[0]
    if k == 'goto':
        return [term[1]]
    if k == 'switch':
        return [x[1] for x in term[2]] + [term[3]]
    if k == 'drop':
        return [term[2]] + ([term[3]] if unwind and term[3] >= 0 else [])
    if k == 'call':
        return ([term[4]] if term[4] >= 0 else []) + ([term[5]] if unwind and term[5] >= 0 else [])
    if k == 'assert':
        return [term[4]] + ([term[5]] if unwind and term[5] >= 0 else [])
    return []


def find_loops(body):
    bl = body['blocks']
    n = len(bl)
    su = [succs(b[1]) for b in bl]
    # DFS for back edges (reducible CFGs)
    color = [0] * n
    back = []
    st = [(0, iter(su[0]))]
    color[0] = 1
    while st:
        u, it = st[-1]
        for v in it:
            if color[v] == 0:
                color[v] = 1
                st.append((v, iter(su[v])))
                break
            elif color[v] == 1:
                back.append((u, v))
        else:
            color[u] = 2
            st.pop()
    pred = [[] for _ in range(n)]
    for u in range(n):
        for v in su[u]:
            pred[v].append(u)
    loops = {}
    for u, h in back:
        s = loops.setdefault(h, {h})
        todo = [u]
        while todo:
            x = todo.pop()
            if x not in s:
                s.add(x)
                todo += pred[x]
    return loops


def liveness(body):
    """block -> set of locals live on entry (address-taken locals: always)"""
    bl = body['blocks']
    n = len(bl)
    addr = set()
    use = [set() for _ in range(n)]
    dfn = [set() for _ in range(n)]

    def place_use(p, u, d):
        u_add = p[0]
        if u_add not in d:
            u.add(u_add)
        for e in p[1]:
            if e[0] == 'i' and e[1] not in d:
                u.add(e[1])

    def op_use(o, u, d):
        if o[0] in ('c', 'm'):
            place_use(o[1], u, d)

    def rv_use(r, u, d):
        k = r[0]
        if k in ('use', 'repeat'):
            op_use(r[1], u, d)
        elif k == 'ref':
            if not any(e[0] == 'd' for e in r[2][1]):
                addr.add(r[2][0])
            place_use(r[2], u, d)
        elif k == 'cast':
            op_use(r[2], u, d)
        elif k == 'bin':
            op_use(r[2], u, d)
            op_use(r[3], u, d)
        elif k == 'un':
            op_use(r[2], u, d)
        elif k == 'discr':
            place_use(r[1], u, d)
        elif k == 'agg':
            for o in r[2]:
                op_use(o, u, d)

    for i, (ss, t, _) in enumerate(bl):
        u, d = use[i], dfn[i]
        for s in ss:
            if s[0] == 'a':
                rv_use(s[2], u, d)
                if s[1][1]:
                    place_use(s[1], u, d)
                else:
                    d.add(s[1][0])
            elif s[0] == 'sd':
                place_use(s[1], u, d)
            elif s[0] == 'assume':
                op_use(s[1], u, d)
            elif s[0] == 'copy_nonoverlapping':
                for o in s[1:]:
                    op_use(o, u, d)
            elif s[0] == 'dead':
                d.add(s[1])
        k = t[0]
        if k == 'switch' or k == 'assert':
            op_use(t[1], u, d)
        elif k == 'drop':
            place_use(t[1], u, d)
        elif k == 'call':
            if 'op' in t[1]:
                op_use(t[1]['op'], u, d)
            for o in t[2]:
                op_use(o, u, d)
            if t[3][1]:
                place_use(t[3], u, d)
            else:
                d.add(t[3][0])
        elif k == 'return':
            if 0 not in d:
                u.add(0)
    live = [set() for _ in range(n)]
    ch = True
    while ch:
        ch = False
        for i in range(n - 1, -1, -1):
            s = set()
            for j in succs(bl[i][1], True):
                s |= live[j]
            s = (s - dfn[i]) | use[i]
            if s != live[i]:
                live[i] = s
                ch = True
    return live, addr


class Frame:
    __slots__ = ('fid', 'b', 'bb', 'si', 'dest', 'target', 'unwind', 'line', 'work', 'kind', 'ctx')

    def copy(self):
        f = Frame.__new__(Frame)
        for s in Frame.__slots__:
            setattr(f, s, getattr(self, s))
        return f


class Loc:
    __slots__ = ('obj', 'path', 'ty', 'lo', 'n', 'var')

    def __init__(self, obj, path, ty, lo=None, n=None, var=None):
        self.obj, self.path, self.ty, self.lo, self.n, self.var = obj, path, ty, lo, n, var


class Done(Exception):
    pass


def clone_state(st):
    s = State.clone(st)
    s.frames = [f.copy() for f in st.frames]
    s.fidc = st.fidc
    s.consts = dict(st.consts)
    s.ret = st.ret
    s.end = st.end
    s.ctx = st.ctx
    s.ghost = dict(st.ghost)
    s.exact = st.exact
    return s


def new_state():
    st = State()
    st.frames = []
    st.fidc = 0
    st.consts = {}
    st.ret = None
    st.end = None
    st.ctx = ()
    st.ghost = {}
    st.exact = True
    return st


def div_atom(args):
    a, d = P(args[0]), P(args[1])
    if a.is_const() and d.is_const() and d.const() > 0:
        return P(a.const() // d.const())
    q = atom('div', (a, d), ZERO, None)
    if not q.ax:
        q.nonneg = True
        q.ax = (a - P(q) * d, d - 1 - a + P(q) * d)
    return q


_p._rebuilders['div'] = div_atom


class Engine:
    def __init__(self, prog, opts=None):
        self.prog = prog
        self.tys = prog.tys
        self.opts = opts or {}
        self.reports = {}        # (kind, label, site) -> info
        self.obligations = {}    # label -> [proved, failed]
        self.stuck = {}
        self.guards = set()
        self.stats = {'steps': 0, 'paths': 0, 'calls': 0, 'loops': 0, 'functions': set(), 'splits': 0}
        self.budget = self.opts.get('budget', 1500000 if self.opts.get('bounded') else 400000)
        self.unwind = self.opts.get('unwind', False)
        self.registry = {}
        import natives, loops
        self.nat = natives
        self.loopmod = loops

    # ------------------------------------------------------------ types
    def tk(self, t):
        return self.tys[t]['k']

    def peel(self, t):
        """strip transparent wrappers"""
        while self.tys[t]['tr']:
            if self.tys[t]['nz']:
                return self.nz_inner(t)
            t = self.prog.transparent_field(t)[1]
        return t

    def nz_inner(self, t):
        a = self.tys[t]['args']
        return a[0] if a else t

    def int_range(self, t):
        t = self.peel(t)
        d = self.tys[t]
        if d['k'] == 'int':
            if d['signed']:
                return -2 ** (d['bits'] - 1), 2 ** (d['bits'] - 1) - 1
            return 0, 2 ** d['bits'] - 1
        if d['k'] == 'char':
            return 0, 0x10FFFF
        if d['k'] == 'bool':
            return 0, 1
        return None

    def is_key_param(self, t):
        d = self.tys[t]
        return d['k'] == 'param' and d['name'][0] in 'KABCDT'

    def is_word(self, t):
        d = self.tys[t]
        return d['k'] == 'int' and not d['signed'] and d['s'] == 'u64'

    def size_of_key(self, t):
        return P(atom('SIZE', (self.tys[t]['s'],), ZERO, P(U64 - 1)))

    def field_tys(self, t, var=0):
        d = self.tys[t]
        if d['k'] == 'adt':
            return [f[1] for f in d['variants'][var or 0]['fields']]
        if d['k'] in ('tuple', 'closure'):
            return d['tys']
        return []

    # ------------------------------------------------------------ values
    def lift(self, st, ty, term, taint=False):
        d = self.tys[ty]
        k = d['k']
        if d['tr']:
            if d['nz']:
                it = self.nz_inner(ty)
                v = self.lift(st, it, term)
                if isinstance(v, Word):
                    v = self.num_to_word(P(atom('val', (term,), ZERO, P(U64 - 1), (), taint)))
                    st.assume(('ne', self.word_to_num(st, v)))
                    return v
                st.assume(('ne', P(v)))
                return v
            return self.lift(st, self.prog.transparent_field(ty)[1], term)
        if k == 'int':
            if self.is_word(ty):
                return Word('v', term)
            lo, hi = self.int_range(ty)
            return P(atom('val', (term,), P(lo), P(hi), (), taint))
        if k == 'char':
            a = P(atom('val', (term,), P(0), P(0x10FFFF), (), taint))
            f = disj(lt(a, 0xD800), ge(a, 0xE000))
            if st.test(f) is None:
                st.bools[f] = True
                if not st.decide(lt(a, 0xD800)):
                    st.assume(ge(a, 0xE000))
            return a
        if k == 'bool':
            return Bool(('b', term))
        if self.is_key_param(ty):
            sz = self.size_of_key(ty) - 1
            if sz not in st.ge:
                if not st.assume(ge(sz)):
                    raise Infeasible()
            return Key(ty, atom('ordof', (term,), ZERO, sz, (), taint))
        if k == 'array':
            return Arr(d['ty'], self.clen(d['len']), ('term', term))
        if k == 'tuple' and not d['tys']:
            return Agg(ty, 0, ())
        if k == 'fndef':
            return Agg(ty, 0, ())
        return Sym(ty, term)

    def clen(self, c):
        if c['k'] == 'int':
            return P(int(c['v']))
        if c['k'] == 'param':
            return P(atom('CONST', (c['name'],), ZERO, P(U64 - 1)))
        return P(atom('CONST', (c.get('d', '?'),), ZERO, P(U64 - 1)))

    def arr_from_sym(self, v):
        d = self.tys[v.ty]
        return Arr(d['ty'], self.clen(d['len']), ('term', v.term))

    def expand(self, st, v, var=0):
        """Agg for a symbolic aggregate"""
        if type(v) is Agg:
            return v
        if v is UNINIT:
            raise Stuck('expand uninit')
        return Agg(v.ty, var, [self.lift(st, ft, ('fld', v.term, var, i)) for i, ft in enumerate(self.field_tys(v.ty, var))])

    def get_step(self, st, v, step):
        if step[0] == 'f':
            _, i, var, fty, cty = step
            if type(v) is Vec:
                return v.arr
            if type(v) is Agg:
                if var is not None and v.var != var:
                    raise Stuck('variant mismatch reading field')
                return v.fs[i]
            if type(v) is Sym:
                return self.lift(st, fty, ('fld', v.term, var or 0, i))
            if v is UNINIT or v is MOVED:
                return v
            raise Stuck('field of %r' % (v,))
        if step[0] == 'aiter':
            return v.arr
        if step[0] == 'one':
            return v
        if type(v) is Sym and self.tys[v.ty]['k'] == 'array':
            v = self.arr_from_sym(v)
        if type(v) is Arr:
            return self.arr_get(st, v, step[1])
        if v is UNINIT:
            return v
        raise Stuck('index of %r' % (v,))

    def set_step(self, st, v, steps, new):
        if not steps:
            return new
        step = steps[0]
        if step[0] == 'aiter':
            return AIter(v.ty, self.set_step(st, v.arr, steps[1:], new), v.lo, v.hi)
        if step[0] == 'one':
            return self.set_step(st, v, steps[2:], new)
        if step[0] == 'f' and type(v) is Vec:
            return Vec(self.set_step(st, v.arr, steps[1:], new), v.cap)
        if step[0] == 'f':
            _, i, var, fty, cty = step
            if type(v) is Sym:
                v = self.expand(st, v, var or 0)
            elif v is UNINIT or v is MOVED:
                v = Agg(cty, var or 0, [UNINIT] * len(self.field_tys(cty, var or 0)))
            if type(v) is not Agg:
                raise Stuck('set field of %r' % (v,))
            if var is not None and v.var != var:
                v = Agg(cty, var, [UNINIT] * len(self.field_tys(cty, var)))
            fs = list(v.fs)
            fs[i] = self.set_step(st, fs[i], steps[1:], new)
            return Agg(v.ty, v.var, fs)
        if type(v) is Sym and self.tys[v.ty]['k'] == 'array':
            v = self.arr_from_sym(v)
        if v is UNINIT:
            raise Stuck('index write into uninit')
        if type(v) is not Arr:
            raise Stuck('set index of %r' % (v,))
        if len(steps) > 1:
            old = self.arr_get(st, v, step[1])
            new = self.set_step(st, old, steps[1:], new)
        return self.arr_set(st, v, step[1], new)

    def read(self, st, obj, path):
        v = st.objs.get(obj)
        if v is None:
            if obj[0] == 'D':
                v = self.deref_object(st, obj)
            else:
                v = self.dead_local(st, obj)
        skip = False
        for s in path:
            if skip:
                skip = False
                continue
            skip = s[0] == 'one'
            v = self.get_step(st, v, s)
        return v

    def write(self, st, obj, path, new):
        if path:
            v = st.objs.get(obj)
            if v is None:
                if obj[0] == 'D':
                    v = self.deref_object(st, obj)
                elif obj[0] == 'L':
                    v = UNINIT
                else:
                    raise Stuck('dead object %r' % (obj,))
            st.objs[obj] = self.set_step(st, v, path, new)
        else:
            st.objs[obj] = new

    def deref_object(self, st, obj):
        v = self.lift(st, obj[2], ('deref', obj[1]))
        st.objs[obj] = v
        return v

    # ---------------------------------------------------------- arrays
    def arr_get(self, st, a, idx):
        idx = P(idx)
        for w in reversed(a.ov):
            if w[0] == 'w':
                if st.decide(eq(w[1], idx)):
                    return w[2]
            elif w[0] == 'loop':
                r = self.loopmod.loop_read(self, st, w, idx)
                if r is not None:
                    return r
            elif w[0] == 'hole':
                pass
            else:
                raise Stuck('overlay ' + w[0])
        b = a.base
        if b[0] == 'term':
            return self.lift(st, a.ety, ('cell', b[1], idx))
        if b[0] == 'rep':
            return b[1]
        if b[0] == 'uninit':
            return UNINIT
        if b[0] == 'list':
            if idx.is_const():
                i = idx.const()
                if 0 <= i < len(b[1]):
                    return b[1][i]
                raise Stuck('index out of literal array')
            for i in range(len(b[1])):
                if st.decide(eq(idx, i)):
                    return b[1][i]
            raise Infeasible()
        if b[0] == 'map':
            # element-wise image of another array: ('map', fn, arr, shift)
            v = self.arr_get(st, b[2], idx + b[3])
            return self.apply_elem(st, b[1], v, a.ety)
        raise Stuck('array base ' + b[0])

    def apply_elem(self, st, fn, v, ety):
        if fn == 'id':
            return v
        if fn == 'clone':
            return self.nat.clone_value(self, st, ety, v)
        raise Stuck('elem fn')

    def arr_set(self, st, a, idx, new):
        idx = P(idx)
        if a.base[0] == 'list' and idx.is_const() and not a.ov:
            l = list(a.base[1])
            i = idx.const()
            if not 0 <= i < len(l):
                raise Stuck('write out of literal array')
            l[i] = new
            return Arr(a.ety, a.n, ('list', tuple(l)))
        ov = [w for w in a.ov if not (w[0] == 'w' and w[1] == idx and w is a.ov[-1])]
        return Arr(a.ety, a.n, a.base, ov + [('w', idx, new)])

    # ---------------------------------------------------------- places
    def frame_obj(self, fr, l):
        return ('L', fr.fid, l)

    def local_ty(self, fr, l):
        return self.prog.bodies[fr.b]['locals'][l]

    def place(self, st, fr, p):
        loc = Loc(('L', fr.fid, p[0]), (), self.local_ty(fr, p[0]))
        for e in p[1]:
            loc = self.project(st, fr, loc, e)
        return loc

    def project(self, st, fr, loc, e):
        k = e[0]
        ty = loc.ty
        d = self.tys[ty]
        if k == 'd':
            v = self.read(st, loc.obj, loc.path)
            return self.deref(st, v, ty)
        if k == 'f':
            if d['tr']:
                # wrapped field is the value itself; other fields are zero sized
                i, fty = self.prog.transparent_field(ty)
                if d['nz']:
                    return Loc(loc.obj, loc.path, e[2])
                return Loc(loc.obj, loc.path, e[2])
            return Loc(loc.obj, loc.path + (('f', e[1], loc.var, e[2], ty),), e[2])
        if k == 'v':
            return Loc(loc.obj, loc.path, ty, var=e[1])
        if k == 'i':
            i = self.read(st, ('L', fr.fid, e[1]), ())
            return self.index(st, loc, i)
        if k == 'ci':
            if e[3]:
                n = loc.n if loc.n is not None else self.clen(d['len'])
                return self.index(st, loc, n - e[1])
            return self.index(st, loc, P(e[1]))
        if k == 'ss':
            n = loc.n if loc.n is not None else self.clen(d['len'])
            lo = loc.lo if loc.lo is not None else ZERO
            hi = (n - e[2]) if e[3] else P(e[2])
            return Loc(loc.obj, loc.path, ty, lo + e[1], hi - e[1])
        raise Stuck('projection %s' % k)

    def index(self, st, loc, i):
        d = self.tys[loc.ty]
        ety = d['ty']
        lo = loc.lo if loc.lo is not None else ZERO
        return Loc(loc.obj, loc.path + (('x', lo + P(i)),), ety)

    def deref(self, st, v, ty):
        d = self.tys[ty]
        if d['k'] in ('ref', 'ptr'):
            pt = d['ty']
        elif d['tr']:
            # Box<T> / NonNull<T>
            pt = d['args'][0] if d['args'] else None
        else:
            raise Stuck('deref of type ' + d['s'])
        v = self.as_ref(st, v, pt)
        return Loc(v.obj, v.path, pt, v.lo, v.n)

    def as_ref(self, st, v, pt):
        if type(v) is Ref:
            return v
        if type(v) is Sym:
            obj = ('D', v.term, pt)
            if self.tys[pt]['k'] == 'slice':
                n = P(atom('slen', (v.term,), ZERO, P(2 ** 63 - 1)))
                if obj not in st.objs:
                    st.objs[obj] = Arr(self.tys[pt]['ty'], n, ('term', ('deref', v.term)))
                return Ref(obj, (), ZERO, n)
            if obj not in st.objs:
                self.deref_object(st, obj)
            return Ref(obj)
        raise Stuck('deref of %r' % (v,))

    def load(self, st, loc):
        if loc.n is not None:
            raise Stuck('load of unsized place')
        return self.read(st, loc.obj, loc.path)

    def store(self, st, loc, v):
        self.write(st, loc.obj, loc.path, v)

    # ---------------------------------------------------------- operands
    def operand(self, st, fr, o):
        k = o[0]
        if k in ('c', 'm'):
            p = o[1]
            if not p[1]:
                v = st.objs.get(('L', fr.fid, p[0]))
                if v is None:
                    v = UNINIT
                return v
            return self.load(st, self.place(st, fr, p))
        if k == 'k':
            return self.const(st, o[1])
        if k == 'rt':
            if o[1] == 'OverflowChecks':
                return T if self.opts.get('debug', True) else F
            return F
        raise Stuck('operand')

    def operand_ty(self, fr, o):
        if o[0] == 'k':
            return o[1]['ty']
        if o[0] == 'rt':
            return None
        ty = self.local_ty(fr, o[1][0])
        for e in o[1][1]:
            if e[0] == 'd':
                d = self.tys[ty]
                ty = d['ty'] if d['k'] in ('ref', 'ptr') else d['args'][0]
            elif e[0] == 'f':
                ty = e[2]
            elif e[0] in ('i', 'ci'):
                ty = self.tys[ty]['ty']
        return ty

    def const(self, st, c):
        k = c['k']
        ty = c.get('ty')
        if k == 'int':
            return self.int_const(ty, int(c['v']))
        if k == 'zst':
            return self.zst(st, ty)
        if k == 'param':
            return P(atom('CONST', (c['name'],), ZERO, P(U64 - 1)))
        if k == 'agg':
            return self.const_agg(st, c)
        if k == 'body':
            return self.eval_const(st, c['b'], ty)
        if k == 'promoted':
            return self.eval_const(st, c['b'], ty)
        if k == 'traitconst':
            if c['name'].endswith('Ordinal::ORDINAL_SIZE'):
                t = c['args'][0]
                if not self.is_key_param(t):
                    raise Stuck('ORDINAL_SIZE of ' + self.tys[t]['s'])
                return self.size_of_key(t)
            raise Stuck('trait constant ' + c['name'])
        if k == 'strref':
            return Sym(ty, ('str',))
        if k == 'opaque':
            raise Stuck('constant ' + c.get('d', ''))
        if k == 'refval':
            d = self.tys[ty]
            if d['k'] == 'ref' and self.tys[d['ty']]['k'] == 'array' and c.get('d') == '[]':
                obj = ('K', ty)
                st.objs[obj] = Arr(self.tys[d['ty']]['ty'], ZERO, ('list', ()))
                return Ref(obj)
            return Sym(ty, ('const', c.get('cname', ''), c.get('d', '')))
        if k == 'const_error':
            raise Infeasible()
        raise Stuck('const ' + k)

    def int_const(self, ty, v):
        if ty is None:
            return P(v)
        t = self.peel(ty)
        d = self.tys[t]
        if d['k'] == 'bool':
            return T if v else F
        if self.is_word(t):
            return Word('c', v)
        if d['k'] in ('int', 'char'):
            return P(v)
        if d['k'] == 'adt':
            return Sym(ty, ('const', str(v)))
        return P(v)

    def const_agg(self, st, c):
        ty = c['ty']
        d = self.tys[ty]
        vals = [self.const(st, dict(f[0], ty=f[1])) for f in c['fields']]
        if d['tr']:
            return vals[self.prog.transparent_field(ty)[0]] if vals else UNINIT
        if d['k'] == 'array':
            return Arr(d['ty'], self.clen(d['len']), ('list', tuple(vals)))
        return Agg(ty, c['variant'], vals)

    def zst(self, st, ty):
        d = self.tys[ty]
        if d['k'] == 'adt':
            if d['tr']:
                return self.zst(st, self.prog.transparent_field(ty)[1])
            if d['variants']:
                vs = d['variants']
                if len(vs) == 1:
                    return Agg(ty, 0, [self.zst(st, f[1]) for f in vs[0]['fields']])
                i = self.live_variants(ty)
                if len(i) == 1:
                    return Agg(ty, i[0], [self.zst(st, f[1]) for f in vs[i[0]]['fields']])
            return Agg(ty, 0, ())
        if d['k'] in ('tuple', 'closure'):
            return Agg(ty, 0, [self.zst(st, t) for t in d['tys']])
        if d['k'] == 'array':
            return Arr(d['ty'], self.clen(d['len']), ('list', ()) if self.clen(d['len']).is_const() and self.clen(d['len']).const() == 0 else ('term', ('zst',)))
        return Agg(ty, 0, ())

    def live_variants(self, ty):
        return [i for i, v in enumerate(self.tys[ty]['variants']) if not any(self.uninhabited(f[1]) for f in v['fields'])]

    def is_zst(self, ty):
        d = self.tys[ty]
        if d['k'] == 'tuple':
            return all(self.is_zst(t) for t in d['tys'])
        if d['k'] == 'adt' and d['ak'] == 'struct':
            return all(self.is_zst(f[1]) for f in d['variants'][0]['fields'])
        if d['k'] == 'adt' and d['ak'] == 'enum':
            i = self.live_variants(ty)
            return len(i) == 1 and all(self.is_zst(f[1]) for f in d['variants'][i[0]]['fields'])
        return False

    def dead_local(self, st, obj):
        """assignments to zero-sized locals are optimised away in the
        standard library's MIR"""
        if obj[0] == 'L':
            for fr in st.frames:
                if fr.fid == obj[1] and fr.b is not None:
                    ty = self.local_ty(fr, obj[2])
                    if self.is_zst(ty):
                        return self.zst(st, ty)
        raise Stuck('dead object %r' % (obj,))

    def eval_const(self, st, b, ty):
        """value of a constant body; panicking constants are build errors"""
        key = b
        if key in st.consts:
            return st.consts[key]
        body = self.prog.bodies[b]
        if body.get('error'):
            raise Stuck('const body error')
        s = clone_state(st)
        s.frames = []
        base = len(s.log)
        fr = self.mkframe(s, b, None, -1, -1)
        fr.fid = ('P', b)
        fr.kind = 'const'
        s.frames.append(fr)
        s.end = None
        outs = self.explore(s, None)
        good = [o for o in outs if o.end == 'return']
        bad = [o for o in outs if o.end not in ('return', 'panic', 'infeasible')]
        if bad:
            raise Stuck('constant evaluation')
        if not good:
            raise Infeasible()
        if len(good) == 1 and len(good[0].log) == base:
            o = good[0]
            for k, v in o.objs.items():
                if k not in st.objs:
                    st.objs[k] = v
            st.consts.update(o.consts)
            st.consts[key] = o.ret
            return o.ret
        alts = [o.log[base:] for o in good]
        if len(alts) == 1:
            for e in alts[0]:
                st.apply(e)
            if st.dead:
                raise Infeasible()
            o = good[0]
            for k, v in o.objs.items():
                if k not in st.objs:
                    st.objs[k] = v
            st.consts.update(o.consts)
            st.consts[key] = o.ret
            return o.ret
        raise NeedSplit(alts)

    # ---------------------------------------------------------- numbers
    def num(self, st, v):
        """integer value as Poly"""
        t = type(v)
        if t is Poly:
            return v
        if t is Atom or t is int:
            return P(v)
        if t is Word:
            return self.word_to_num(st, v)
        if t is Bool:
            return ONE if st.decide(v.f) else ZERO
        if t is Key:
            raise Stuck('number of key')
        if t is Agg and len(v.fs) == 1:
            return self.num(st, v.fs[0])
        raise Stuck('number of %r' % (v,))

    def word_to_num(self, st, w):
        if w.k == 'c':
            return P(w.a)
        if w.k == 'b':
            return P(w.a)
        if w.k == 'v':
            return P(atom('val', (w.a,), ZERO, P(U64 - 1)))
        if w.k == 'bit' and P(w.a).is_const():
            return P(1 << P(w.a).const())
        if w.k == 'lm' and P(w.a).is_const():
            return P((1 << P(w.a).const()) - 1)
        return P(atom('wv', (w,), ZERO, P(U64 - 1)))

    def num_to_word(self, p):
        p = P(p)
        if p.is_const():
            return Word('c', p.const())
        a = p.single()
        if a is not None and a.name == 'wv':
            return a.args[0]
        if a is not None and a.name == 'val' and a.lo == ZERO and a.hi == P(U64 - 1):
            return Word('v', a.args[0])
        if a is None and len(p.t) == 2 and p.const() == -1:
            # (1 << n) - 1
            for m, c in p.t.items():
                if m and len(m) == 1 and c == 1 and m[0].name == 'wv' and m[0].args[0].k == 'bit':
                    return Word('lm', P(m[0].args[0].a))
        return Word('b', p)

    def wrap(self, st, ty, p):
        """p modulo the range of ty"""
        lo, hi = self.int_range(ty)
        if st.decide(ge(p, lo)):
            if st.decide(ge(hi, p)):
                return p
            q = p - (hi - lo + 1)
            if st.decide(ge(hi, q)):
                return q
            return self.mod(st, p - lo, P(hi - lo + 1)) + lo
        q = p + (hi - lo + 1)
        if st.decide(ge(q, lo)):
            return q
        raise Stuck('wrap')

    def div(self, st, a, d):
        """floor quotient of a >= 0 by d > 0"""
        a, d = P(a), P(d)
        if a.is_const() and d.is_const():
            return P(a.const() // d.const())
        if st.entails_ge(d - 1 - a):
            return ZERO
        # a = d*x + y with 0 <= y < d
        r = self.split_div(st, a, d)
        if r is not None:
            return r
        return P(div_atom((a, d)))

    def split_div(self, st, a, d):
        if not d.t:
            return None
        # leading monomial of d
        dm = max(d.t, key=lambda m: (len(m), tuple(x.id for x in m)))
        dc = d.t[dm]
        x = ZERO
        y = a
        for m, c in sorted(a.t.items(), key=lambda mc: -len(mc[0])):
            q = _p._mdiv(m, dm) if len(m) >= len(dm) else None
            if q is not None and c % dc == 0:
                x = x + Poly({q: c // dc})
        if not x.t:
            return None
        y = a - x * d
        for adj in (0, 1, -1):
            yy = y - d * adj
            if st.entails_ge(yy) and st.entails_ge(d - 1 - yy):
                return x + adj
        return None

    def mod(self, st, a, d):
        q = self.div(st, a, d)
        return P(a) - q * P(d)

    def tdiv(self, st, a, d):
        """truncating division (signed)"""
        if st.entails_ge(a) and st.entails_ge(d - 1):
            return self.div(st, a, d)
        if not st.decide(ge(a)):
            raise Stuck('signed division')
        if not st.decide(ge(d, 1)):
            raise Stuck('signed division')
        return self.div(st, a, d)

    # ---------------------------------------------------------- comparisons
    def compare(self, st, op, a, b):
        if type(a) is Key and type(b) is Key:
            a, b = a.ord, b.ord
        if isinstance(a, Word) or isinstance(b, Word):
            a2, b2 = self.to_word(a), self.to_word(b)
            if op in ('Eq', 'Ne'):
                f = self.word_eq_form(st, a2, b2)
                return Bool(f if op == 'Eq' else neg(f))
            a, b = self.num(st, a), self.num(st, b)
        if type(a) is Bool and type(b) is Bool:
            if op in ('Eq', 'Ne'):
                f = iff(st, a.f, b.f)
                return Bool(f if op == 'Eq' else neg(f))
            a, b = self.num(st, a), self.num(st, b)
        if type(a) is Ref and type(b) is Ref:
            if op in ('Eq', 'Ne'):
                if a.obj == b.obj and a.path == b.path:
                    r = T if a.lo is None or b.lo is None or a.lo == b.lo else Bool(eq(a.lo, b.lo))
                elif a.obj != b.obj:
                    r = F
                else:
                    f = self.nat.path_eq(st, a.path, b.path)
                    if f is None:
                        raise Stuck('pointer comparison')
                    if a.lo is not None and b.lo is not None:
                        f = conj(f, eq(a.lo, b.lo))
                    r = Bool(f)
                return r if op == 'Eq' else Bool(neg(r.f))
            raise Stuck('pointer ordering')
        a, b = self.num(st, a), self.num(st, b)
        if op == 'Eq':
            return Bool(eq(a, b))
        if op == 'Ne':
            return Bool(neg(eq(a, b)))
        if op == 'Lt':
            return Bool(lt(a, b))
        if op == 'Le':
            return Bool(ge(b, a))
        if op == 'Gt':
            return Bool(lt(b, a))
        if op == 'Ge':
            return Bool(ge(a, b))
        raise Stuck('compare ' + op)

    def word_eq_form(self, st, a, b):
        if a == b:
            return ('T',)
        if a.k == 'c' and b.k == 'c':
            return ('T',) if a.a == b.a else ('F',)
        # single-bit tests
        def masked(x):
            if x.k == 'and':
                for p, q in ((x.a, x.b), (x.b, x.a)):
                    i = single_bit(q)
                    if i is not None:
                        return st.bit_form(p, i)
            return None
        for p, q in ((a, b), (b, a)):
            if q.k == 'c' and q.a == 0:
                f = masked(p)
                return ('wz', p) if f is None else neg(f)
            if q.k in ('bit', 'c') and p.k == 'and' and (p.b == q or p.a == q) and single_bit(q) is not None:
                return masked(p)
        return ('weq', a, b)

    def to_word(self, v):
        if type(v) is Word:
            return v
        return self.num_to_word(v)

    # ---------------------------------------------------------- rvalues
    def rvalue(self, st, fr, r, dty):
        k = r[0]
        if k == 'use':
            return self.operand(st, fr, r[1])
        if k == 'ref':
            loc = self.place(st, fr, r[2])
            if self.tys[loc.ty]['k'] == 'slice':
                return Ref(loc.obj, loc.path, loc.lo, loc.n)
            return Ref(loc.obj, loc.path)
        if k == 'bin':
            return self.binop(st, fr, r[1], r[2], r[3], dty)
        if k == 'un':
            return self.unop(st, fr, r[1], r[2], dty)
        if k == 'discr':
            loc = self.place(st, fr, r[1])
            return self.discriminant(st, loc)
        if k == 'cast':
            return self.cast(st, fr, r[1], r[2], r[3])
        if k == 'agg':
            ops = [self.operand(st, fr, o) for o in r[2]]
            return self.aggregate(st, r[1], ops, dty)
        if k == 'repeat':
            v = self.operand(st, fr, r[1])
            d = self.tys[dty]
            return Arr(d['ty'], self.clen(r[2]), ('rep', v))
        raise Stuck('rvalue ' + k)

    def aggregate(self, st, kind, ops, dty):
        d = self.tys[dty]
        if kind[0] == 'array':
            return Arr(d['ty'], P(len(ops)), ('list', tuple(ops)))
        if kind[0] == 'adt':
            if d['tr']:
                if d['ak'] == 'union':
                    i, _ = self.prog.transparent_field(dty)
                    if kind[2] != i:
                        return UNINIT
                    return ops[0]
                return ops[self.prog.transparent_field(dty)[0]]
            return Agg(dty, kind[1], ops)
        if kind[0] in ('tuple', 'closure'):
            return Agg(dty, 0, ops)
        if kind[0] == 'rawptr':
            p, m = ops
            if type(p) is Ref:
                if self.tys[self.tys[dty]['ty']]['k'] == 'slice':
                    # pointer to element -> slice
                    return self.slice_from_ptr(st, p, self.num(st, m))
                return p
            raise Stuck('rawptr aggregate')
        raise Stuck('aggregate')

    def slice_from_ptr(self, st, p, n):
        if p.path and p.path[-1][0] == 'x':
            return Ref(p.obj, p.path[:-1], p.path[-1][1], n)
        if p.lo is not None:
            return Ref(p.obj, p.path, p.lo, n)
        v = self.read(st, p.obj, p.path)
        if type(v) is Arr:
            return Ref(p.obj, p.path, ZERO, n)
        raise Stuck('slice from pointer')

    def binop(self, st, fr, op, oa, ob, dty):
        a = self.operand(st, fr, oa)
        b = self.operand(st, fr, ob)
        ty = self.operand_ty(fr, oa)
        return self.arith(st, op, a, b, ty, dty)

    def arith(self, st, op, a, b, ty, dty):
        if op in ('Eq', 'Ne', 'Lt', 'Le', 'Gt', 'Ge'):
            return self.compare(st, op, a, b)
        if op in ('BitAnd', 'BitOr', 'BitXor'):
            if type(a) is Bool or type(b) is Bool:
                if op == 'BitAnd':
                    return Bool(conj(a.f, b.f))
                if op == 'BitOr':
                    return Bool(disj(a.f, b.f))
                return Bool(neg(iff(st, a.f, b.f)))
            if type(a) is not Word and type(b) is not Word:
                x, y = P(a), P(b)
                if x.is_const() and y.is_const():
                    x, y = x.const(), y.const()
                    return P({'BitAnd': x & y, 'BitOr': x | y, 'BitXor': x ^ y}[op])
                if op == 'BitAnd' and y.is_const() and (y.const() + 1) & y.const() == 0 and y.const() >= 0:
                    return self.mod(st, x, P(y.const() + 1))
                if op == 'BitAnd' and x.is_const() and (x.const() + 1) & x.const() == 0 and x.const() >= 0:
                    return self.mod(st, y, P(x.const() + 1))
                if op == 'BitXor' and self.tys[self.peel(ty)].get('signed') is not None:
                    d = self.tys[self.peel(ty)]
                    for u, c in ((x, y), (y, x)):
                        if c.is_const() and c.const() in (2 ** (d['bits'] - 1), -2 ** (d['bits'] - 1)):
                            h = 2 ** (d['bits'] - 1)
                            if d['signed']:
                                return u + h if not st.decide(ge(u)) else u - h
                            return u - h if st.decide(ge(u, h)) else u + h
            a, b = self.to_word(a), self.to_word(b)
            return mk_word({'BitAnd': 'and', 'BitOr': 'or', 'BitXor': 'xor'}[op], a, b)
        if op in ('Shl', 'ShlUnchecked'):
            return self.shift(st, 'shl', a, b, ty)
        if op in ('Shr', 'ShrUnchecked'):
            return self.shift(st, 'shr', a, b, ty)
        if op == 'Cmp':
            x, y = self.num(st, a), self.num(st, b)
            if st.decide(lt(x, y)):
                v = 0
            elif st.decide(eq(x, y)):
                v = 1
            else:
                v = 2
            return Agg(dty, v, ())
        if op == 'Offset':
            return self.ptr_offset(st, a, self.num(st, b))
        if type(a) is Word and op in ('Sub', 'SubWithOverflow', 'SubUnchecked') and type(b) is Word and b.k == 'c' and b.a == 1:
            # (1 << n) - 1 as a low mask; w - 1
            if a.k == 'bit':
                r = Word('lm', P(a.a))
                return self.checked(dty, r, F) if op == 'SubWithOverflow' else r
            if a.k != 'c':
                if st.decide_wz(a):
                    if op == 'SubWithOverflow':
                        return self.checked(dty, Word('c', U64 - 1), T)
                    return Word('c', U64 - 1)
                r = Word('dec', a)
                return self.checked(dty, r, F) if op == 'SubWithOverflow' else r
        w = type(a) is Word or type(b) is Word
        x, y = self.num(st, a), self.num(st, b)
        base = op.replace('WithOverflow', '').replace('Unchecked', '')
        if base in ('Add', 'Sub', 'Mul'):
            p = x + y if base == 'Add' else x - y if base == 'Sub' else x * y
            lo, hi = self.int_range(ty)
            ok = conj(ge(p, lo), ge(hi, p))
            if op.endswith('WithOverflow'):
                if st.decide(ok):
                    v, o = p, F
                else:
                    v, o = self.wrap_or_opaque(st, ty, p), T
                return self.checked(dty, self.num_to_word(v) if self.is_word(ty) else v, o)
            if op.endswith('Unchecked'):
                if not st.decide(ok):
                    self.event(st, ('ub', 'unchecked arithmetic overflow'))
                    raise Infeasible()
                return self.num_to_word(p) if self.is_word(ty) else p
            if st.decide(ok):
                v = p
            else:
                v = self.wrap_or_opaque(st, ty, p)
            return self.num_to_word(v) if self.is_word(ty) else v
        if base in ('Div', 'Rem'):
            q = self.tdiv(st, x, y)
            v = q if base == 'Div' else x - q * y
            return self.num_to_word(v) if self.is_word(ty) else v
        raise Stuck('binop ' + op)

    def wrap_or_opaque(self, st, ty, p):
        if p.degree() > 1:
            # a product that does not fit: which number is left is not followed
            lo, hi = self.int_range(ty)
            return P(atom('wrapped', (p, lo), P(lo), P(hi), (), True))
        return self.wrap(st, ty, p)

    def checked(self, dty, v, o):
        return Agg(dty, 0, (v, o))

    def shift(self, st, k, a, b, ty):
        n = self.num(st, b)
        d = self.tys[self.peel(ty)]
        bits = d['bits']
        if type(a) is Word:
            x = a.a if a.k == 'c' else None
        else:
            x = P(a).const() if P(a).is_const() else None
        if not st.decide(conj(ge(n), lt(n, bits))):
            # masked in release builds
            n = self.mod(st, n, P(bits))
        if x is not None and n.is_const():
            r = (x << n.const()) & (2 ** bits - 1) if k == 'shl' else x >> n.const()
            return Word('c', r) if self.is_word(ty) else P(r)
        if not self.is_word(ty):
            y = self.num(st, a)
            if n.is_const():
                if k == 'shl':
                    return self.wrap(st, ty, y * (1 << n.const()))
                return self.div(st, y, P(1 << n.const()))
            if x == 1 and k == 'shl':
                return P(atom('wv', (Word('bit', n),), ZERO, P(U64 - 1)))
            raise Stuck('shift')
        a = self.to_word(a)
        if a.k == 'c':
            if k == 'shl' and a.a == 1:
                return Word('bit', n)
            if k == 'shl' and a.a == U64 - 1:
                return mk_word('not', Word('lm', n))
            if k == 'shr' and a.a == U64 - 1:
                return Word('lm', 64 - n)
        if n.is_const() and n.const() == 0:
            return a
        return Word(k, a, n)

    def ptr_offset(self, st, p, n):
        if type(p) is not Ref:
            raise Stuck('pointer offset')
        if n == ZERO:
            return p
        if p.lo is not None:
            return Ref(p.obj, p.path + (('x', p.lo + n),))
        if p.path and p.path[-1][0] == 'x':
            return Ref(p.obj, p.path[:-1] + (('x', p.path[-1][1] + n),))
        v = self.read(st, p.obj, p.path)
        if type(v) is Arr:
            return Ref(p.obj, p.path + (('x', n),))
        raise Stuck('pointer offset')

    def unop(self, st, fr, op, o, dty):
        a = self.operand(st, fr, o)
        if op == 'Not':
            if type(a) is Bool:
                return Bool(neg(a.f))
            ty = self.operand_ty(fr, o)
            if self.is_word(ty):
                return mk_word('not', self.to_word(a))
            lo, hi = self.int_range(ty)
            return P(hi + lo) - self.num(st, a)
        if op == 'Neg':
            return self.wrap(st, dty, -self.num(st, a))
        if op == 'PtrMetadata':
            if type(a) is Ref:
                if a.lo is None:
                    return Agg(dty, 0, ())
                return a.n
            if type(a) is Sym:
                pt = self.tys[self.operand_ty(fr, o)]['ty']
                return self.as_ref(st, a, pt).n
            raise Stuck('metadata')
        raise Stuck('unop ' + op)

    def discriminant(self, st, loc):
        v = self.load(st, loc)
        ty = loc.ty
        d = self.tys[ty]
        var = self.variant_of(st, v, ty)
        return P(int(d['variants'][var]['discr']))

    def variant_of(self, st, v, ty):
        d = self.tys[ty]
        if type(v) is Agg:
            return v.var
        if type(v) is Sym:
            if d['k'] in ('tuple', 'closure'):
                return 0
            if d['k'] != 'adt':
                raise Stuck('discriminant of %s' % d['s'])
            if d['ak'] == 'struct' or len(d['variants']) == 1:
                return 0
            k = st.variant(v.term)
            if k is not None:
                return k
            alts = []
            for i, x in enumerate(d['variants']):
                if not any(self.uninhabited(f[1]) for f in x['fields']):
                    alts.append([('disc', v.term, i)])
            if not alts:
                raise Infeasible()
            if len(alts) == 1:
                return alts[0][0][2]
            raise NeedSplit(alts)
        raise Stuck('discriminant of %r' % (v,))

    def uninhabited(self, t):
        d = self.tys[t]
        if d['k'] == 'never':
            return True
        if d['k'] == 'adt' and d['ak'] == 'enum':
            return all(any(self.uninhabited(f[1]) for f in v['fields']) for v in d['variants'])
        if d['k'] == 'adt' and d['ak'] == 'struct':
            return any(self.uninhabited(f[1]) for f in d['variants'][0]['fields'])
        if d['k'] == 'tuple':
            return any(self.uninhabited(x) for x in d['tys'])
        return False

    def cast(self, st, fr, kind, o, ty):
        v = self.operand(st, fr, o)
        sty = self.operand_ty(fr, o)
        if kind.startswith('IntToInt'):
            s, d = self.tys[self.peel(sty)], self.tys[ty]
            if d['k'] == 'bool' or s['k'] == 'bool' and d['k'] == 'int':
                if type(v) is Bool:
                    v = self.num(st, v)
            if type(v) is Word and not self.is_word(ty):
                if v.k == 'and' and single_bit(v.b) == ZERO or v.k == 'and' and single_bit(v.a) == ZERO:
                    w = v.a if single_bit(v.b) == ZERO else v.b
                    return ONE if st.decide_bit(w, 0) else ZERO
                v = self.num(st, v)
            if self.is_word(ty):
                return v if type(v) is Word else self.num_to_word(self.wrap(st, ty, self.num(st, v)))
            p = self.num(st, v)
            return self.wrap(st, ty, p)
        if kind.startswith('PointerCoercion'):
            if 'Unsize' in kind:
                return self.unsize(st, v, sty, ty)
            return v
        if kind.startswith('PtrToPtr') or kind.startswith('Transmute') or kind.startswith('BoxDeref') or kind.startswith('FnPtrToPtr'):
            return self.transmute(st, v, sty, ty)
        raise Stuck('cast ' + kind)

    def pointee(self, t):
        d = self.tys[t]
        if d['k'] in ('ref', 'ptr'):
            return d['ty']
        if d['tr'] and d['args'] and not d['md'] and not d['nz']:
            return d['args'][0]
        if d['tr']:
            return self.pointee(self.prog.transparent_field(t)[1])
        return None

    def unsize(self, st, v, sty, ty):
        ps, pd = self.pointee(sty), self.pointee(ty)
        if ps is not None and pd is not None and self.tys[pd]['k'] == 'slice' and self.tys[ps]['k'] == 'array':
            v = self.as_ref(st, v, ps)
            return Ref(v.obj, v.path, ZERO, self.clen(self.tys[ps]['len']))
        return v

    def transmute(self, st, v, sty, ty):
        ps, pd = self.pointee(sty), self.pointee(ty)
        if ps is not None and pd is not None:
            if self.same_repr(ps, pd):
                if type(v) is Ref and self.tys[pd]['k'] == 'slice' and v.lo is None:
                    raise Stuck('thin to fat pointer')
                return v
            if type(v) is Ref:
                ks, kd = self.tys[self.peel(ps)], self.tys[self.peel(pd)]
                if ks['k'] == 'slice' and kd['k'] != 'slice':
                    # *[T] -> *T
                    if self.same_repr(ks['ty'], pd):
                        return Ref(v.obj, v.path + (('x', v.lo),))
                    if kd['k'] == 'array':
                        return self.retype_array(st, v, kd)
                if ks['k'] == 'array' and self.same_repr(ks['ty'], pd):
                    return Ref(v.obj, v.path + (('x', ZERO),))
                if kd['k'] == 'array' and v.path and v.path[-1][0] == 'x':
                    return self.retype_array(st, v, kd)
            return v
        if self.same_repr(sty, ty) or v is UNINIT:
            return v
        d = self.tys[ty]
        if d['k'] == 'adt' and d['name'] == 'std::option::Option' and self.tys[d['args'][0]].get('nz') and self.tys[sty]['k'] == 'int':
            return self.nat.opt(self, ty) if st.decide(eq(self.num(st, v))) else self.nat.opt(self, ty, v)
        raise Stuck('transmute %s -> %s' % (self.tys[sty]['s'], self.tys[ty]['s']))

    def retype_array(self, st, v, kd):
        n = self.clen(kd['len'])
        base = v
        lo = v.lo
        if lo is None:
            lo = v.path[-1][1]
            base = Ref(v.obj, v.path[:-1])
        arr = self.read(st, base.obj, base.path)
        if type(arr) is Arr and st.entails_eq(lo) and st.entails_eq(arr.n - n):
            return Ref(base.obj, base.path)
        raise Stuck('slice to array pointer')

    def same_repr(self, a, b):
        a, b = self.peel(a), self.peel(b)
        if a == b:
            return True
        x, y = self.tys[a], self.tys[b]
        if x['k'] == y['k'] == 'array':
            return x['len'] == y['len'] and self.same_repr(x['ty'], y['ty'])
        if x['k'] == y['k'] == 'slice':
            return self.same_repr(x['ty'], y['ty'])
        if x['k'] in ('ref', 'ptr') and y['k'] in ('ref', 'ptr'):
            return self.same_repr(x['ty'], y['ty'])
        if x['k'] == 'int' and y['k'] == 'int':
            return x['bits'] == y['bits'] and x['signed'] == y['signed']
        return x['s'] == y['s']

    # ---------------------------------------------------------- frames
    def mkframe(self, st, b, dest, target, unwind):
        f = Frame()
        st.fidc += 1
        f.fid = st.fidc
        f.b = b
        f.bb = 0
        f.si = 0
        f.dest = dest
        f.target = target
        f.unwind = unwind
        f.line = self.prog.bodies[b].get('span', '') if b is not None else ''
        f.work = None
        f.kind = 'fn'
        f.ctx = None
        return f

    def push(self, st, b, args, dest, target, unwind):
        body = self.prog.bodies[b]
        if body is None or body.get('error'):
            raise Stuck('no body')
        if len(st.frames) > 60:
            raise Stuck('call depth')
        if sum(1 for f in st.frames if f.b == b) > 3:
            raise Stuck('recursion in ' + body['name'])
        for c in body['required']:
            if c['k'] in ('body', 'const_error'):
                self.const(st, c)
        fr = self.mkframe(st, b, dest, target, unwind)
        if len(args) != body['argc']:
            raise Stuck('argument count for ' + body['name'])
        for i, a in enumerate(args):
            st.objs[('L', fr.fid, i + 1)] = a
        st.frames.append(fr)
        self.stats['calls'] += 1
        self.stats['functions'].add((body['name'], body.get('span', '')))

    def pop_frame(self, st):
        fr = st.frames.pop()
        if fr.kind != 'const':
            fid = fr.fid
            if fr.b is not None:
                for i in range(len(self.prog.bodies[fr.b]['locals'])):
                    st.objs.pop(('L', fid, i), None)
        return fr

    def site(self, st):
        for f in reversed(st.frames):
            if f.b is not None:
                b = self.prog.bodies[f.b]
                if b.get('crate') == 'ordinal_map':
                    return (b['name'], self.shortline(f.line))
        for f in reversed(st.frames):
            if f.b is not None:
                return (self.prog.bodies[f.b]['name'], self.shortline(f.line))
        return ('?', '?')

    def shortline(self, s):
        i = s.find('/repo/')
        return s[i + 6:] if i >= 0 else s

    def event(self, st, ev):
        st.events.append((ev, self.site(st)))
        if ev[0] == 'ub':
            self.report(st, 'ub', ev[1])

    def finish(self, st, end):
        st.end = end

    # ---------------------------------------------------------- reports
    def save(self):
        return (dict(self.reports), {k: list(v) for k, v in self.obligations.items()}, dict(self.stuck))

    def restore(self, s):
        self.reports, self.obligations, self.stuck = dict(s[0]), {k: list(v) for k, v in s[1].items()}, dict(s[2])

    def spec_check(self, st, ok, label):
        o = self.obligations.setdefault(label, [0, 0])
        if not ok:
            st.saturate()
            ok = st.dead
            if ok:
                o[0] += 1
                raise Infeasible()
        if ok:
            o[0] += 1
            return
        if self.report(st, 'check', label):
            o[1] += 1
        else:
            o[0] += 1
        raise Infeasible()

    def report(self, st, kind, label):
        import refute
        why = refute.undecided(self, st)
        if why == 'path infeasible':
            return False
        r = (kind, label)
        old = self.reports.get(r)
        if old is None or (old['undecided'] and not why):
            self.reports[r] = {'kind': kind, 'label': label, 'site': self.site(st), 'undecided': why,
                               'calls': [self.prog.bodies[f.b]['name'] for f in st.frames if f.b is not None],
                               'line': st.frames[-1].line if st.frames else '',
                               'path': refute.describe(self, st)}
        return True

    def ledger(self, st):
        """every value made is gone when the specification is left"""
        self.obligations.setdefault('every value is dropped exactly once', [0, 0])[0] += 1
        if st.ghost.get('made', 0) > len(st.ghost.get('gone', ())):
            if self.report(st, 'owner', 'value never dropped (path ends in a %s)' % st.end):
                self.obligations['every value is dropped exactly once'][1] += 1

    def report_panic(self, st):
        site = getattr(st, 'panic_site', ('?', '?'))
        msg = [e for e in st.events if e[0][0] == 'panic'][-1][0][1]
        self.report(st, 'panic', (site[0], site[1], msg))

    def transmute_value(self, st, v, sty, dty):
        if self.has_uninit(v) and not self.nat.maybe_uninit_inside(self, dty):
            if type(v) is Arr:
                if st.decide(ge(v.n, 1)):
                    if v.n.is_const() and v.n.const() <= 16:
                        idx = [P(i) for i in range(v.n.const())]
                    else:
                        idx = [P(atom('anyidx', (v.n,), ZERO, v.n - 1))]
                    for i in idx:
                        if self.arr_get(st, v, i) is UNINIT:
                            self.event(st, ('ub', 'uninitialised element treated as initialised'))
            elif v is UNINIT:
                self.event(st, ('ub', 'uninitialised value treated as initialised'))
        return self.transmute(st, v, sty, dty)

    def has_uninit(self, v):
        return v is UNINIT or type(v) is Arr and v.base[0] == 'uninit'

    def concurrent_value(self, st, cur):
        st.uc += 1
        return P(atom('other', (st.ctx, st.uc), ZERO, P(U64 - 1)))

    # ---------------------------------------------------------- stepping
    def explore(self, st, stop):
        """runs st until stop(st) or the end; returns the resulting states"""
        out = []
        work = [(st, True)]
        while work:
            s, first = work.pop()
            while True:
                if s.end is not None:
                    out.append(s)
                    break
                if not first and stop is not None and stop(s):
                    out.append(s)
                    break
                fr = s.frames[-1]
                if fr.b is not None and fr.si == 0 and not first and fr.bb in self.prog.heads(fr.b):
                    try:
                        outs = self.loopmod.do_loop(self, s)
                    except Stuck as e:
                        self.note_stuck(s, e)
                        s.end = 'stuck'
                        out.append(s)
                        break
                    for o in outs:
                        work.append((o, True))
                    break
                first = False
                nxt = self.step(s)
                if len(nxt) == 1:
                    s = nxt[0]
                    continue
                for x in nxt:
                    work.append((x, False))
                break
        return out

    def note_stuck(self, st, e):
        k = (str(e), self.site(st))
        self.stuck[k] = self.stuck.get(k, 0) + 1
        if self.opts.get('trace'):
            print('STUCK', k, [self.prog.bodies[f.b]['name'] if f.b is not None else f.kind for f in st.frames], file=sys.stderr)

    def step(self, st):
        """one statement or terminator; returns successor states"""
        self.stats['steps'] += 1
        self.budget -= 1
        if self.budget < 0:
            st.end = 'stuck'
            self.stuck[('budget', self.site(st))] = 1
            return [st]
        save = clone_state(st)
        try:
            self.step1(st)
            if st.dead:
                return []
            return [st]
        except NeedSplit as e:
            self.stats['splits'] += 1
            res = []
            for alt in e.alts:
                s = clone_state(save)
                ok = True
                for x in alt:
                    if not s.apply(x) or s.dead:
                        ok = False
                        break
                if ok:
                    res.append(s)
            return res
        except Infeasible:
            return []
        except self.nat.UserPanic:
            return [] if st.dead else [st]
        except Stuck as e:
            self.note_stuck(st, e)
            save.end = 'stuck'
            return [save]

    def step1(self, st):
        fr = st.frames[-1]
        if fr.b is None:
            return self.nat.step_work(self, st, fr)
        body = self.prog.bodies[fr.b]
        ss, term, _ = body['blocks'][fr.bb]
        if fr.si < len(ss):
            s = ss[fr.si]
            k = s[0]
            if k == 'a':
                fr.line = s[3]
                loc_p = s[1]
                if not loc_p[1]:
                    v = self.rvalue(st, fr, s[2], self.local_ty(fr, loc_p[0]))
                    st.objs[('L', fr.fid, loc_p[0])] = v
                else:
                    loc = self.place(st, fr, loc_p)
                    v = self.rvalue(st, fr, s[2], loc.ty)
                    self.store(st, loc, v)
            elif k == 'dead':
                st.objs.pop(('L', fr.fid, s[1]), None)
            elif k == 'sd':
                loc = self.place(st, fr, s[1])
                d = self.tys[loc.ty]
                nf = len(d['variants'][s[2]]['fields'])
                self.store(st, loc, Agg(loc.ty, s[2], [UNINIT] * nf))
            elif k == 'assume':
                b = self.operand(st, fr, s[1])
                if not st.decide(b.f):
                    self.event(st, ('ub', 'assume violated'))
                    raise Infeasible()
            elif k == 'copy_nonoverlapping':
                a, b, n = [self.operand(st, fr, o) for o in s[1:]]
                self.nat.copy_mem(self, st, a, b, self.num(st, n))
            fr.si += 1
            return
        k = term[0]
        if k == 'goto':
            fr.bb, fr.si = term[1], 0
        elif k == 'switch':
            v = self.operand(st, fr, term[1])
            tgt = None
            if type(v) is Bool:
                b = st.decide(v.f)
                for val, bb in term[2]:
                    if int(val) == (1 if b else 0):
                        tgt = bb
            else:
                p = self.num(st, v)
                r = self.int_range(term[4])
                for val, bb in term[2]:
                    val = int(val)
                    if r and val > r[1]:
                        val -= (r[1] - r[0] + 1)
                    if st.decide(eq(p, val)):
                        tgt = bb
                        break
            fr.bb, fr.si = (term[3] if tgt is None else tgt), 0
        elif k == 'return':
            self.do_return(st)
        elif k == 'call':
            fr.line = term[6]
            self.do_call(st, fr, term)
        elif k == 'drop':
            fr.line = term[5]
            loc = self.place(st, fr, term[1])
            fr.bb, fr.si = term[2], 0
            self.nat.start_drop(self, st, [(loc.obj, loc.path, loc.ty, loc.lo, loc.n)], term[3])
        elif k == 'assert':
            b = self.operand(st, fr, term[1])
            self.guards.add((self.prog.bodies[fr.b]['name'] if fr.b is not None else '?', fr.bb))
            c = st.decide(b.f)
            if c == term[2]:
                fr.bb, fr.si = term[4], 0
            else:
                self.panic(st, term[3], term[5])
        elif k == 'unreachable':
            self.event(st, ('ub', 'unreachable code reached'))
            st.end = 'ub'
        elif k == 'resume':
            self.unwind_pop(st)
        elif k == 'abort':
            st.end = 'abort'
        else:
            raise Stuck('terminator ' + k)

    def do_return(self, st):
        fr = st.frames[-1]
        v = st.objs.get(('L', fr.fid, 0))
        if v is None:
            v = self.zst(st, self.local_ty(fr, 0))
        self.pop_frame(st)
        if fr.kind == 'loopctx':
            pass
        if not st.frames or fr.kind == 'const':
            st.ret = v
            st.end = 'return'
            return
        self.deliver(st, fr.dest, fr.target, v)

    def deliver(self, st, dest, target, v):
        """result v of the call made by the (now) top frame"""
        if callable(dest):
            dest(st, v)
            return
        if dest is not None:
            self.store(st, dest, v)
        caller = st.frames[-1]
        if target == -1:
            st.end = 'diverge'
            return
        if caller.b is not None and target != -9:
            caller.bb, caller.si = target, 0

    # ---------------------------------------------------------- panics
    def panic(self, st, msg, unwind):
        fr = st.frames[-1]
        self.guards.add((self.prog.bodies[fr.b]['name'] if fr.b is not None else '?', fr.bb))
        self.event(st, ('panic', msg))
        if not self.unwind:
            st.end = 'panic'
            st.panic_site = self.site(st)
            return
        st.ghost['panicking'] = True
        if unwind is not None and unwind >= 0:
            fr = st.frames[-1]
            fr.bb, fr.si = unwind, 0
        elif unwind == -3:
            st.end = 'abort'
        else:
            self.unwind_pop(st)

    def unwind_pop(self, st):
        while True:
            fr = self.pop_frame(st)
            if not st.frames or fr.kind == 'const':
                st.end = 'panic'
                return
            u = fr.unwind
            if fr.b is None and fr.kind == 'drop':
                # a drop that unwinds: continue with the frame below
                u = fr.unwind
            top = st.frames[-1]
            if u is not None and u >= 0 and top.b is not None:
                top.bb, top.si = u, 0
                return
            if u == -3:
                st.end = 'abort'
                return
            if u == -2:
                st.end = 'ub'
                return

    # ---------------------------------------------------------- calls
    def do_call(self, st, fr, term):
        _, callee, ops, dplace, target, unwind, line = term
        if 'op' in callee:
            f = self.operand(st, fr, callee['op'])
            raise Stuck('call through pointer')
        args = [self.operand(st, fr, o) for o in ops]
        atys = [self.operand_ty(fr, o) for o in ops]
        dest = self.place(st, fr, dplace)
        self.call(st, callee, args, atys, dest, target, unwind)

    def call(self, st, callee, args, atys, dest, target, unwind):
        if callee.get('ctor'):
            d = self.tys[dest.ty]
            name = callee['name'].split('::')[-1]
            var = 0
            for i, v in enumerate(d['variants']):
                if v['name'] == name:
                    var = i
            v = args[0] if d['tr'] else Agg(dest.ty, var, args)
            return self.deliver(st, dest, target, v)
        r = self.nat.native(self, st, callee, args, atys, dest, target, unwind)
        if r is self.nat.HANDLED:
            return
        if r is not None:
            return self.deliver(st, dest, target, r)
        if 'b' in callee:
            b = self.prog.bodies[callee['b']]
            if b is not None and callee.get('trait', '').split('::')[-1] in ('Fn', 'FnMut', 'FnOnce') and 'spread' not in b and type(args[-1]) is Agg:
                args = list(args[:-1]) + list(args[-1].fs)
            return self.push(st, callee['b'], args, dest, target, unwind)
        r = self.nat.user_call(self, st, callee, args, atys, dest, target, unwind)
        if r is self.nat.HANDLED:
            return
        if r is not None:
            return self.deliver(st, dest, target, r)
        if 'db' in callee:
            return self.push(st, callee['db'], args, dest, target, unwind)
        raise Stuck('unknown external ' + callee.get('r', callee['name']))


def iff(st, a, b):
    if a == b:
        return ('T',)
    x, y = st.test(a), st.test(b)
    if x is not None:
        return b if x else neg(b)
    if y is not None:
        return a if y else neg(a)
    if st.decide(a):
        return b
    return neg(b)


def mk_word(k, a, b=None):
    M = U64 - 1
    if k == 'not':
        if a.k == 'c':
            return Word('c', M ^ a.a)
        if a.k == 'not':
            return a.a
        return Word('not', a)
    if a.k == 'c' and b.k == 'c':
        return Word('c', a.a & b.a if k == 'and' else a.a | b.a if k == 'or' else a.a ^ b.a)
    if a.k == 'c' and b.k != 'c':
        a, b = b, a
    if b.k == 'c':
        if k == 'and':
            if b.a == 0:
                return b
            if b.a == M:
                return a
        elif k == 'or':
            if b.a == 0:
                return a
            if b.a == M:
                return b
        elif k == 'xor':
            if b.a == 0:
                return a
            if b.a == M:
                return mk_word('not', a)
    if a == b:
        if k in ('and', 'or'):
            return a
        return Word('c', 0)
    return Word(k, a, b)
