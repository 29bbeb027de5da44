"""Transfer functions for standard-library leaves, the specification
vocabulary, drop glue and calls into caller-supplied code."""
import re
from poly import *
from state import *

U64 = 2 ** 64
HANDLED = object()


# ------------------------------------------------------------------ helpers
def opt(E, ty, v=None):
    return Agg(ty, 0, ()) if v is None else Agg(ty, 1, (v,))


def variant_index(E, ty, name):
    for i, v in enumerate(E.tys[ty]['variants']):
        if v['name'] == name:
            return i
    raise Stuck('variant ' + name)


def variant_ftys(E, ty, var):
    return [f[1] for f in E.tys[ty]['variants'][var]['fields']]


def tup(ty, *vs):
    return Agg(ty, 0, vs)


def path_eq(st, p, q):
    """condition under which two paths of one object are the same cell"""
    if len(p) != len(q):
        return None
    f = ('T',)
    for a, b in zip(p, q):
        if a[0] != b[0]:
            return None
        if a[0] == 'f':
            if a[1:3] != b[1:3]:
                return ('F',)
        else:
            f = conj(f, eq(a[1], b[1]))
    return f


def same_form(E, st, a, b, depth=0):
    if a is b or a == b:
        return ('T',)
    ta, tb = type(a), type(b)
    if ta in (Poly, Atom) and tb in (Poly, Atom):
        return eq(P(a), P(b))
    if ta is Key and tb is Key:
        return eq(a.ord, b.ord)
    if ta is Bool and tb is Bool:
        from interp import iff
        return iff(st, a.f, b.f)
    if ta is Word or tb is Word:
        if ta in (Word, Poly) and tb in (Word, Poly):
            return ('weq', E.to_word(a), E.to_word(b))
    if ta is Ref and tb is Ref:
        if a.obj == b.obj:
            f = path_eq(st, a.path, b.path)
            if f is None:
                return ('F',)
            if a.lo is not None and b.lo is not None:
                f = conj(f, conj(eq(a.lo, b.lo), eq(a.n, b.n)))
            return f
        return ('F',)
    if ta is Sym and tb is Sym:
        s, t = cell_split(a.term), cell_split(b.term)
        if s is not None and t is not None and s[0] == t[0]:
            return disj(eq(s[1], t[1]), ('same', a.term, b.term))
        if a.term[0] == b.term[0] == 'fun' and a.term[1] == b.term[1] and type(a.term[2]) is Poly and type(b.term[2]) is Poly:
            return disj(eq(a.term[2], b.term[2]), ('same', a.term, b.term))
        if a.term[0] == b.term[0] == 'clone':
            return same_form(E, st, Sym(a.ty, a.term[1]), Sym(b.ty, b.term[1]), depth + 1)
        f = disj(('same', a.term, b.term), ('F',))
        ety = E.tys[a.ty]
        if ety['k'] in ('adt', 'tuple') and depth < 6:
            va, vb = E.variant_of(st, a, a.ty), E.variant_of(st, b, b.ty)
            if va != vb:
                return ('F',)
            a, b = E.expand(st, a, va), E.expand(st, b, vb)
            return same_form(E, st, a, b, depth + 1)
        return f
    if ta is Agg or tb is Agg:
        if ta is Sym:
            a = E.expand(st, a, E.variant_of(st, a, a.ty))
        if tb is Sym:
            b = E.expand(st, b, E.variant_of(st, b, b.ty))
        if type(a) is Agg and type(b) is Agg:
            if a.var != b.var or len(a.fs) != len(b.fs):
                return ('F',)
            f = ('T',)
            for x, y in zip(a.fs, b.fs):
                f = conj(f, same_form(E, st, x, y, depth + 1))
            return f
    if ta is Arr and tb is Arr:
        if a.n.is_const() and b.n == a.n and a.n.const() <= 8:
            f = ('T',)
            for i in range(a.n.const()):
                f = conj(f, same_form(E, st, E.arr_get(st, a, i), E.arr_get(st, b, i), depth + 1))
            return f
        if not st.decide(eq(a.n, b.n)):
            return ('F',)
        i = P(atom('anyidx', (a.n,), ZERO, a.n - 1))
        if not st.decide(ge(a.n, 1)):
            return ('T',)
        return same_form(E, st, E.arr_get(st, a, i), E.arr_get(st, b, i), depth + 1)
    for x, y in ((a, b), (b, a)):
        if type(x) is Sym and type(y) is Ref and E.tys[x.ty]['k'] in ('ptr', 'other'):
            v = E.read(st, y.obj, y.path)
            pts = [o[2] for o in st.objs if o[0] == 'D' and o[1] == x.term] or ([v.ty] if type(v) in (Key, Sym, Agg) else [])
            if pts:
                x = E.as_ref(st, x, pts[0])
                return same_form(E, st, E.read(st, x.obj, x.path), v, depth + 1)
    raise Stuck('same %s %s %s' % (ta.__name__, tb.__name__, [E.tys[x.ty]['s'] + ' ' + E.tys[x.ty]['k'] for x in (a, b) if type(x) is Sym]))


def term_of(E, v):
    if type(v) is Key:
        return v.ord
    if type(v) is Sym:
        return v.term
    return v


def ref_target_ty(E, ty):
    return E.pointee(ty)


def rd(E, st, v, ty):
    """the value behind a reference of type ty"""
    pt = E.pointee(ty)
    r = E.as_ref(st, v, pt)
    return E.read(st, r.obj, r.path)


def clone_value(E, st, ty, v):
    t = type(v)
    if t in (Poly, Atom, Bool, Word, Key, Ref, SIter):
        return v
    if v is UNINIT:
        raise Stuck('clone of uninit')
    if t is Agg:
        d = E.tys[v.ty]
        ft = E.field_tys(v.ty, v.var)
        return Agg(v.ty, v.var, [clone_value(E, st, ft[i], x) for i, x in enumerate(v.fs)])
    if t is Sym:
        d = E.tys[v.ty]
        if d['k'] in ('ref', 'ptr'):
            return v
        if d['k'] in ('adt', 'tuple'):
            var = E.variant_of(st, v, v.ty)
            return clone_value(E, st, ty, E.expand(st, v, var))
        return Sym(v.ty, ('clone', v.term))
    if t is Arr:
        return Arr(v.ety, v.n, ('map', 'clone', v, ZERO))
    if t is Vec:
        return Vec(clone_value(E, st, ty, v.arr), v.cap)
    raise Stuck('clone of %r' % (v,))


def clone_each(c, a, lo, n):
    """the clones of n values from lo: a map in general; one by one, in the
    ledger mode"""
    E, st = c.E, c.st
    ety = a.ety
    while E.tys[ety]['md']:
        ety = E.tys[ety]['args'][0]
    if not E.opts.get('ledger') or not has_local_drop(E, ety):
        return Arr(a.ety, n, ('map', 'clone', a, lo))
    n = st.norm(n) if hasattr(st, 'norm') else n
    if not n.is_const() or n.const() > 8:
        raise Stuck('clone of many owned values')
    made = []
    return Arr(a.ety, n, ('list', tuple(clone_owned(c, E.arr_get(st, a, lo + i), ety, made) for i in range(n.const()))))


def clone_owned(c, v, ty, made):
    E, st = c.E, c.st
    d = E.tys[ty]
    if not has_local_drop(E, ty):
        return clone_value(E, st, ty, v)
    if d['k'] == 'adt' and d['name'].endswith('::Tok'):
        i = token(v.fs[0]) if type(v) is Agg else None
        if i is None or i in st.ghost.get('gone', ()):
            E.report(st, 'owner', 'something that is not a value is cloned')
        if not st.ghost.get('panicking') and st.decide(('b', ('upanic', st.ctx) + uid(st))):
            # the library function drops what it has made
            st.ghost['gone'] = st.ghost.get('gone', frozenset()) | set(made)
            E.panic(st, 'user', c.unwind)
            raise UserPanic()
        n = st.ghost.get('made', 0)
        st.ghost['made'] = n + 1
        made.append(n)
        return Agg(v.ty, v.var, [P(n)])
    if type(v) is Sym:
        v = E.expand(st, v, E.variant_of(st, v, v.ty))
    if type(v) is Agg:
        ft = E.field_tys(v.ty, v.var)
        return Agg(v.ty, v.var, [clone_owned(c, x, ft[i], made) for i, x in enumerate(v.fs)])
    if type(v) is Arr:
        return Arr(v.ety, v.n, ('list', tuple(clone_owned(c, E.arr_get(st, v, P(i)), v.ety, made) for i in range(v.n.const()))))
    raise Stuck('clone of %r' % (v,))


def new_heap(E, st, val, tag='H'):
    st.heap += 1
    o = (tag, st.ctx, st.heap)
    st.objs[o] = val
    return o


def alloc(E, st, n, ety):
    """heap allocation of n elements: event unless provably empty"""
    sz = E.tys[ety]['size']
    if sz == 0:
        return
    n = P(n)
    if n.is_const() and n.const() == 0:
        return
    if st.entails_eq(n):
        return
    E.event(st, ('alloc', n))


def work(E, st, n):
    """something done n times"""
    if E.opts.get('work') and n is not None:
        E.event(st, ('work', P(n)))


# ------------------------------------------------------------------ memory
def mem_read(E, st, v, ty, args):
    pt = E.pointee(ty)
    r = E.as_ref(st, v, pt)
    x = E.read(st, r.obj, r.path)
    if x is UNINIT and not E.tys[pt]['md'] and E.tys[pt]['size'] != 0 and not maybe_uninit_inside(E, pt):
        E.event(st, ('ub', 'read of uninitialised memory'))
    return x


def maybe_uninit_inside(E, t):
    d = E.tys[t]
    if d['md']:
        return True
    if d['k'] == 'array':
        return maybe_uninit_inside(E, d['ty'])
    return False


def mem_write(E, st, ref, ty, v):
    r = E.as_ref(st, ref, E.pointee(ty))
    E.write(st, r.obj, r.path, v)


def copy_mem(E, st, a, b, n):
    if n == ONE and type(a) is Ref and type(b) is Ref:
        E.write(st, b.obj, b.path, E.read(st, a.obj, a.path))
        return
    raise Stuck('memory copy')


# ------------------------------------------------------------------ slices
def sref(E, st, v, ty):
    """(ref with lo/n) for a slice or array reference"""
    pt = E.pointee(ty)
    v = E.as_ref(st, v, pt)
    if v.lo is None:
        d = E.tys[E.peel(pt)]
        if d['k'] == 'array':
            return Ref(v.obj, v.path, ZERO, E.clen(d['len']))
        x = E.read(st, v.obj, v.path)
        if type(x) is Vec:
            return Ref(v.obj, v.path + (VECARR,), ZERO, x.arr.n)
        if type(x) is Arr:
            return Ref(v.obj, v.path, ZERO, x.n)
        raise Stuck('slice ref')
    return v


VECARR = ('f', 0, None, None, None)


def elem(r, i):
    return Ref(r.obj, r.path + (('x', r.lo + P(i)),))


def sub(r, a, b):
    return Ref(r.obj, r.path, r.lo + P(a), P(b) - P(a))


def siter_ty_mut(E, ty):
    return 'IterMut' in E.tys[ty]['name']


def slice_get(E, st, r, i, dty):
    if st.decide(lt(i, r.n)):
        return opt(E, dty, elem(r, i))
    return opt(E, dty)


def range_bounds(E, st, v, ty, n):
    """(a, b, condition-checked) for a range-typed index"""
    d = E.tys[ty]
    nm = d['name'].split('::')[-1]
    if type(v) is Sym:
        v = E.expand(st, v)
    f = v.fs
    if nm == 'Range':
        return E.num(st, f[0]), E.num(st, f[1])
    if nm == 'RangeTo':
        return ZERO, E.num(st, f[0])
    if nm == 'RangeFrom':
        return E.num(st, f[0]), n
    if nm == 'RangeFull':
        return ZERO, n
    if nm == 'RangeToInclusive':
        return ZERO, E.num(st, f[0]) + 1
    raise Stuck('index by ' + nm)


def index(E, st, r, iv, ity, unwind, checked=True):
    d = E.tys[ity]
    if d['k'] == 'int':
        i = E.num(st, iv)
        if st.decide(lt(i, r.n)):
            return elem(r, i)
        if not checked:
            E.event(st, ('ub', 'unchecked index out of bounds'))
            raise Infeasible()
        E.panic(st, 'index out of bounds', unwind)
        return HANDLED
    a, b = range_bounds(E, st, iv, ity, r.n)
    if st.decide(conj(ge(b, a), ge(r.n, b))):
        return sub(r, a, b)
    E.panic(st, 'slice range out of bounds', unwind)
    return HANDLED


# ------------------------------------------------------------------ iterators
def it_load(E, st, ref, ty):
    pt = E.pointee(ty)
    r = E.as_ref(st, ref, pt)
    v = E.read(st, r.obj, r.path)
    if type(v) is Sym:
        raise Stuck('opaque iterator')
    return r, v


def it_elem(E, st, v, i):
    if type(v) is SIter:
        return Ref(v.obj, v.path + (('x', P(i)),))
    return E.arr_get(st, v.arr, i)


def it_with(v, lo=None, hi=None):
    lo = v.lo if lo is None else lo
    hi = v.hi if hi is None else hi
    if type(v) is SIter:
        return SIter(v.ty, v.obj, v.path, lo, hi)
    return AIter(v.ty, v.arr, lo, hi)


def it_next(E, st, ref, ty, dty, back=False):
    r, v = it_load(E, st, ref, ty)
    if not st.decide(lt(v.lo, v.hi)):
        return opt(E, dty)
    if back:
        x = it_elem(E, st, v, v.hi - 1)
        nv = it_with(v, hi=v.hi - 1)
    else:
        x = it_elem(E, st, v, v.lo)
        nv = it_with(v, lo=v.lo + 1)
    E.write(st, r.obj, r.path, nv)
    return opt(E, dty, x)


def it_nth(E, st, ref, ty, dty, n, back=False):
    r, v = it_load(E, st, ref, ty)
    if st.decide(lt(n, v.hi - v.lo)):
        if back:
            x = it_elem(E, st, v, v.hi - 1 - n)
            nv = it_with(v, hi=v.hi - 1 - n)
        else:
            x = it_elem(E, st, v, v.lo + n)
            nv = it_with(v, lo=v.lo + n + 1)
        E.write(st, r.obj, r.path, nv)
        return opt(E, dty, x)
    nv = it_with(v, hi=v.lo) if back else it_with(v, lo=v.hi)
    E.write(st, r.obj, r.path, nv)
    return opt(E, dty)


def usize_ty(E):
    for i, t in enumerate(E.tys):
        if t['s'] == 'usize':
            return i


def size_hint(E, st, dty, n):
    d = E.tys[dty]
    return Agg(dty, 0, (n, Agg(d['tys'][1], 1, (n,))))


# ------------------------------------------------------------------ words
def tz(E, st, w):
    """index of the lowest set bit of a non-zero word"""
    a = atom('tz', (w,), ZERO, P(63))
    i = P(a)
    st.apply(('f', ('bit', w, i)))
    if (w, ZERO, i) not in st.zeros:
        st.apply(('zeros', w, ZERO, i))
    return i


def hz(E, st, w):
    """index of the highest set bit of a non-zero word"""
    a = atom('hb', (w,), ZERO, P(63))
    i = P(a)
    st.apply(('f', ('bit', w, i)))
    if (w, i + 1, P(64)) not in st.zeros:
        st.apply(('zeros', w, i + 1, P(64)))
    return i


def popcount(E, st, w):
    if w.k == 'c':
        return P(bin(w.a).count('1'))
    if w.k == 'bit':
        return ONE
    if w.k == 'lm':
        return P(w.a)
    if w.k == 'and' and w.b.k == 'not' and w.b.a.k == 'bit':
        if st.decide_bit(w.a, w.b.a.a):
            return popcount(E, st, w.a) - 1
        return popcount(E, st, w.a)
    if w.k == 'or' and w.b.k == 'bit':
        if st.decide_bit(w.a, w.b.a):
            return popcount(E, st, w.a)
        return popcount(E, st, w.a) + 1
    if w.k == 'xor' and w.b.k == 'bit':
        if st.decide_bit(w.a, w.b.a):
            return popcount(E, st, w.a) - 1
        return popcount(E, st, w.a) + 1
    return pc_range(E, st, w)


def pc_range(E, st, w):
    return P(card_atom(w))


# ------------------------------------------------------------------ dispatch
def norm(name):
    n = re.sub(r"'[a-z_]\w*,? ?", '', name)
    n = n.replace('core::', 'std::').replace('alloc::', 'std::')
    return n


EXACT = {}
PATS = []


def nat(*names):
    def deco(f):
        for n in names:
            EXACT[n] = f
        return f
    return deco


def pat(rx):
    def deco(f):
        PATS.append((re.compile(rx), f))
        return f
    return deco


class C:
    """call context"""
    __slots__ = ('E', 'st', 'callee', 'a', 't', 'dest', 'target', 'unwind', 'name')

    @property
    def dty(self):
        return self.dest.ty

    def num(self, i):
        return self.E.num(self.st, self.a[i])


_ncache = {}


def lookup(callee):
    key = callee.get('r') or callee['name']
    f = _ncache.get(key, 0)
    if f != 0:
        return f
    f = None
    n = norm(key)
    f = EXACT.get(n)
    if f is None:
        for rx, g in PATS:
            if rx.search(n):
                f = g
                break
    _ncache[key] = f
    return f


def native(E, st, callee, args, atys, dest, target, unwind):
    if callee.get('model'):
        return None
    if 'intrinsic' in callee:
        f = INTRIN.get(callee['intrinsic'])
        if f is None:
            raise Stuck('intrinsic ' + callee['intrinsic'])
    else:
        f = lookup(callee)
        if f is None:
            if target == -1 and callee.get('r', callee['name']).startswith(('core::', 'std::', 'alloc::')):
                E.panic(st, callee.get('r', callee['name']), unwind)
                return HANDLED
            if callee.get('rk') == 'unresolved' or callee.get('rk') == 'virtual':
                return None
            if 'db' in callee:
                t0 = self_iter(E, callee)
                if t0:
                    E.push(st, callee['db'], args, dest, target, unwind)
                    return HANDLED
            return None
    c = C()
    c.E, c.st, c.callee, c.a, c.t, c.dest, c.target, c.unwind = E, st, callee, args, atys, dest, target, unwind
    c.name = callee.get('r') or callee['name']
    return f(c)


def self_iter(E, callee):
    """is this a method of one of the natively modelled iterators?"""
    r = callee.get('r', '')
    return any(x in r for x in ('std::slice::Iter<', 'std::slice::IterMut<', 'std::array::IntoIter<', 'std::vec::IntoIter<',
                                'core::slice::', 'core::array::', 'alloc::vec::'))


# ---- specification vocabulary
@pat(r'rt::omvi_check$')
def n_check(c):
    E, st = c.E, c.st
    fr = st.frames[-1]
    f = c.a[0].f if type(c.a[0]) is Bool else None
    r = st.decide(f)
    line = fr.line
    E.spec_check(st, r, (E.prog.bodies[fr.b]['name'], E.shortline(line)))
    return Agg(c.dty, 0, ())


@pat(r'rt::omvi_assume$')
def n_assume(c):
    if not c.st.decide(c.a[0].f):
        raise Infeasible()
    return Agg(c.dty, 0, ())


@pat(r'rt::any$')
def n_any(c):
    if c.E.uninhabited(c.dty):
        raise Infeasible()
    c.st.uc += 1
    return c.E.lift(c.st, c.dty, ('any', c.st.ctx, c.st.uc))


@pat(r'rt::same$')
def n_same(c):
    E, st = c.E, c.st
    pt = E.pointee(c.t[0])
    a, b = E.as_ref(st, c.a[0], pt), E.as_ref(st, c.a[1], pt)
    if a.lo is not None or b.lo is not None:
        if not st.decide(eq(a.n, b.n)):
            return F
        if not st.decide(ge(a.n, 1)):
            return T
        i = P(atom('anyidx', (a.n,), ZERO, a.n - 1))
        x = E.read(st, a.obj, a.path + (('x', a.lo + i),))
        y = E.read(st, b.obj, b.path + (('x', b.lo + i),))
        return Bool(same_form(E, st, x, y))
    return Bool(same_form(E, st, E.read(st, a.obj, a.path), E.read(st, b.obj, b.path)))


@pat(r'rt::is_clone_of$')
def n_isclone(c):
    E, st = c.E, c.st
    x, y = rd(E, st, c.a[0], c.t[0]), rd(E, st, c.a[1], c.t[1])
    return Bool(same_form(E, st, x, clone_value(E, st, E.pointee(c.t[1]), y)))


@pat(r'rt::is_default$')
def n_isdefault(c):
    E, st = c.E, c.st
    x = rd(E, st, c.a[0], c.t[0])
    return Bool(same_form(E, st, x, default_value(E, st, E.pointee(c.t[0]))))


def default_value(E, st, ty):
    return Sym(ty, ('default', E.tys[ty]['s']))


@pat(r'rt::fun$')
def n_fun(c):
    E, st = c.E, c.st
    x = rd(E, st, c.a[0], c.t[0])
    tag = c.callee['rargs'][0] if c.callee.get('rargs') else c.callee['args'][0]
    tag = int(tag['v']) if type(tag) is dict else tag
    return E.lift(st, c.dty, ('fun', tag, term_of(E, x)))


@pat(r'rt::differing_bit$')
def n_differing(c):
    """of two single-word values that differ: a bit in which they do"""
    E, st = c.E, c.st
    ws = []
    for x in c.a:
        v = rd(E, st, x, c.t[0])
        while type(v) is Agg:
            f = [y for y in v.fs if not (type(y) is Agg and not y.fs)]
            if len(f) != 1:
                raise Stuck('differing_bit of %r' % (v,))
            v = f[0]
        ws.append(E.to_word(v))
    from interp import mk_word
    w = mk_word('xor', ws[0], ws[1])
    i = P(atom('hb', (w,), ZERO, P(63)))
    if not st.decide(st.bit_form(w, i)):
        raise Infeasible()
    return i


def token(v):
    if type(v) is not Poly or not v.is_const():
        return None
    return v.const()


@pat(r'rt::fresh$')
def n_fresh(c):
    n = c.st.ghost.get('made', 0)
    c.st.ghost['made'] = n + 1
    return P(n)


@pat(r'rt::dropped$')
def n_dropped(c):
    st = c.st
    i = token(c.a[0])
    if i is None:
        c.E.report(st, 'owner', 'something that is not a value is dropped')
        return Agg(c.dty, 0, ())
    gone = st.ghost.get('gone', frozenset())
    if i in gone:
        c.E.report(st, 'owner', 'value dropped twice')
    st.ghost['gone'] = gone | {i}
    return Agg(c.dty, 0, ())


@pat(r'rt::used$')
def n_used(c):
    i = token(c.a[0])
    if i is None:
        c.E.report(c.st, 'owner', 'something that is not a value is used')
    elif i in c.st.ghost.get('gone', ()):
        c.E.report(c.st, 'owner', 'value used after it was dropped')
    return Agg(c.dty, 0, ())


@pat(r'rt::ghost$')
def n_ghost(c):
    E, st = c.E, c.st
    return ghost_copy(E, st, rd(E, st, c.a[0], c.t[0]), E.pointee(c.t[0]))


def ghost_copy(E, st, v, ty):
    """bitwise copy, with owned heap objects duplicated"""
    d = E.tys[ty]
    if d['k'] == 'adt' and d['box'] and type(v) is Ref:
        o = new_heap(E, st, E.read(st, v.obj, v.path))
        return Ref(o, (), v.lo, v.n)
    if type(v) is Agg and d['k'] == 'adt' and d['tr']:
        return v
    if type(v) is Agg:
        ft = E.field_tys(v.ty, v.var)
        return Agg(v.ty, v.var, [ghost_copy(E, st, x, ft[i]) for i, x in enumerate(v.fs)])
    if type(v) is Ref and d['tr'] and d['args']:
        o = new_heap(E, st, E.read(st, v.obj, v.path))
        return Ref(o, (), v.lo, v.n)
    return v


@pat(r'rt::discard$')
def n_discard(c):
    return Agg(c.dty, 0, ())


# ---- mem / ptr
@nat('std::mem::replace')
def n_replace(c):
    old = mem_read(c.E, c.st, c.a[0], c.t[0], None)
    mem_write(c.E, c.st, c.a[0], c.t[0], c.a[1])
    return old


@nat('std::mem::swap')
def n_swap(c):
    x = mem_read(c.E, c.st, c.a[0], c.t[0], None)
    y = mem_read(c.E, c.st, c.a[1], c.t[1], None)
    mem_write(c.E, c.st, c.a[0], c.t[0], y)
    mem_write(c.E, c.st, c.a[1], c.t[1], x)
    return Agg(c.dty, 0, ())


@nat('std::mem::forget', 'std::mem::ManuallyDrop::<T>::forget')
def n_forget(c):
    c.E.event(c.st, ('forget',))
    return Agg(c.dty, 0, ())


@pat(r'^std::ptr::(read|read_unaligned|read_volatile)$|^std::ptr::\w+_ptr::<impl \*\w+ T>::read$|^std::ptr::NonNull::<T>::read$')
def n_read(c):
    return mem_read(c.E, c.st, c.a[0], c.t[0], None)


@pat(r'^std::ptr::(write|write_unaligned)$|^std::ptr::mut_ptr::<impl \*mut T>::write$|^std::ptr::NonNull::<T>::write$')
def n_write(c):
    mem_write(c.E, c.st, c.a[0], c.t[0], c.a[1])
    return Agg(c.dty, 0, ())


@pat(r'^std::ptr::mut_ptr::<impl \*mut T>::replace$|^std::ptr::replace$')
def n_preplace(c):
    return n_replace(c)


@pat(r'_ptr::<impl \*\w+ T>::(add|offset|wrapping_add)$|^std::ptr::NonNull::<T>::(add|offset)$')
def n_padd(c):
    return c.E.ptr_offset(c.st, c.a[0], c.num(1))


@pat(r'_ptr::<impl \*\w+ T>::(sub|wrapping_sub)$|^std::ptr::NonNull::<T>::sub$')
def n_psub(c):
    return c.E.ptr_offset(c.st, c.a[0], -c.num(1))


@pat(r'_ptr::<impl \*\w+ T>::(cast|cast_mut|cast_const|cast_array)$|^std::ptr::NonNull::<T>::(cast)$')
def n_pcast(c):
    return c.E.transmute(c.st, c.a[0], c.t[0], c.dty)


@pat(r'^std::ptr::NonNull::<T>::(as_ptr|as_ref|as_mut|new_unchecked|from_ref|from_mut)$|^std::ptr::Unique::<T>::')
def n_nn(c):
    if c.name.endswith(('as_ref', 'as_mut')):
        return rd(c.E, c.st, c.a[0], c.t[0])
    return c.a[0]


@pat(r'^std::ptr::(drop_in_place)$|mut_ptr::<impl \*mut T>::drop_in_place$')
def n_drop_in_place(c):
    E, st = c.E, c.st
    pt = E.pointee(c.t[0])
    r = E.as_ref(st, c.a[0], pt)
    E.store(st, c.dest, Agg(c.dty, 0, ()))
    fr = st.frames[-1]
    fr.bb, fr.si = c.target, 0
    start_drop(E, st, [(r.obj, r.path, pt, r.lo, r.n)], c.unwind)
    return HANDLED


@nat('std::ptr::eq', 'std::ptr::addr_eq')
def n_ptreq(c):
    return c.E.compare(c.st, 'Eq', c.a[0], c.a[1])


@nat('std::mem::transmute_copy')
def n_transmute_copy(c):
    E, st = c.E, c.st
    x = rd(E, st, c.a[0], c.t[0])
    return E.transmute_value(st, x, E.pointee(c.t[0]), c.dty)


@nat('std::mem::size_of')
def n_size_of(c):
    t = c.callee['args'][0]
    s = c.E.tys[t]['size']
    if s is not None:
        return P(s)
    return P(atom('SIZEOF', (c.E.tys[t]['s'],), ZERO, P(2 ** 63 - 1)))


@nat('std::mem::needs_drop')
def n_needs_drop(c):
    return T if c.E.tys[c.callee['args'][0]]['nd'] else F


# MaybeUninit / ManuallyDrop are transparent
@pat(r'^std::mem::MaybeUninit::<T>::(new|assume_init|assume_init_ref|assume_init_mut|as_ptr|as_mut_ptr|assume_init_read)$|^std::mem::ManuallyDrop::<T>::(new|into_inner)$|^<std::mem::ManuallyDrop<T> as std::ops::Deref(Mut)?>::deref(_mut)?$')
def n_mu(c):
    if c.name.endswith('assume_init_read'):
        return mem_read(c.E, c.st, c.a[0], c.t[0], None)
    v = c.a[0]
    if c.name.endswith('assume_init') and v is UNINIT:
        c.E.event(c.st, ('ub', 'assume_init of uninitialised memory'))
    return v


@nat('std::mem::ManuallyDrop::<T>::take')
def n_mdtake(c):
    return mem_read(c.E, c.st, c.a[0], c.t[0], None)


@nat('std::mem::ManuallyDrop::<T>::drop')
def n_mddrop(c):
    E, st = c.E, c.st
    pt = E.prog.transparent_field(E.pointee(c.t[0]))[1]
    r = E.as_ref(st, c.a[0], pt)
    return drop_then(c, [(r.obj, r.path, E.peel(pt), None, None)])


def drop_then(c, items):
    E, st = c.E, c.st
    E.store(st, c.dest, Agg(c.dty, 0, ()))
    fr = st.frames[-1]
    fr.bb, fr.si = c.target, 0
    start_drop(E, st, items, c.unwind)
    return HANDLED


@nat('std::mem::MaybeUninit::<T>::uninit')
def n_uninit(c):
    t = c.E.peel(c.dty)
    d = c.E.tys[t]
    if d['k'] == 'array':
        return Arr(d['ty'], c.E.clen(d['len']), ('uninit',))
    return UNINIT


@nat('std::mem::MaybeUninit::<T>::write')
def n_muwrite(c):
    mem_write(c.E, c.st, c.a[0], c.t[0], c.a[1])
    return c.a[0]


@pat(r'^std::mem::MaybeUninit::<T>::assume_init_drop$')
def n_mudrop(c):
    E, st = c.E, c.st
    pt = E.pointee(c.t[0])
    r = E.as_ref(st, c.a[0], pt)
    return drop_then(c, [(r.obj, r.path, E.peel(pt), None, None)])


# ---- slices
@pat(r'^std::slice::<impl \[T\]>::len$|^std::ptr::\w+_ptr::<impl \*\w+ \[T\]>::len$|^std::ptr::NonNull::<\[T\]>::len$')
def n_len(c):
    return sref(c.E, c.st, c.a[0], c.t[0]).n


@pat(r'^std::slice::<impl \[T\]>::is_empty$')
def n_isempty(c):
    return Bool(eq(sref(c.E, c.st, c.a[0], c.t[0]).n, 0))


@pat(r'^std::slice::<impl \[T\]>::(as_ptr|as_mut_ptr)$|^std::ptr::\w+_ptr::<impl \*\w+ \[T\]>::as_(mut_)?ptr$|<impl \[T; N\]>::as_ptr')
def n_asptr(c):
    r = sref(c.E, c.st, c.a[0], c.t[0])
    return Ref(r.obj, r.path + (('x', r.lo),))


@pat(r'^std::slice::<impl \[T\]>::(iter|iter_mut)$')
def n_iter(c):
    r = sref(c.E, c.st, c.a[0], c.t[0])
    return SIter(c.dty, r.obj, r.path, r.lo, r.lo + r.n)


@pat(r"^std::slice::iter::<impl std::iter::IntoIterator for &.*\[T\]>::into_iter$|^<&.*\[T(; N)?\] as std::iter::IntoIterator>::into_iter$|^std::array::<impl std::iter::IntoIterator for &.*\[T; N\]>::into_iter$|^std::slice::(Iter|IterMut)::<T>::new$|<&.*std::(vec::Vec<T(, A)?>|boxed::Box<\[T\](, A)?>) as std::iter::IntoIterator>::into_iter$|^std::boxed::iter::<impl std::iter::IntoIterator for &.*>::into_iter$")
def n_intoiter_ref(c):
    r = sref(c.E, c.st, c.a[0], c.t[0])
    return SIter(c.dty, r.obj, r.path, r.lo, r.lo + r.n)


@pat(r'^<usize as std::slice::SliceIndex<\[T\]>>::(get|get_mut)$')
def n_slget(c):
    r = sref(c.E, c.st, c.a[1], c.t[1])
    return slice_get(c.E, c.st, r, c.num(0), c.dty)


@pat(r'^<.* as std::slice::SliceIndex<\[T\]>>::(index|index_mut)$')
def n_slindex(c):
    r = sref(c.E, c.st, c.a[1], c.t[1])
    return index(c.E, c.st, r, c.a[0], c.t[0], c.unwind)


@pat(r'^std::slice::<impl \[T\]>::(get_unchecked|get_unchecked_mut)$')
def n_getun(c):
    r = sref(c.E, c.st, c.a[0], c.t[0])
    return index(c.E, c.st, r, c.a[1], c.t[1], c.unwind, checked=False)


@pat(r'^<std::ops::Range\w*(<usize>)? as std::slice::SliceIndex<\[T\]>>::(get|get_mut)$')
def n_slget2(c):
    E, st = c.E, c.st
    r = sref(E, st, c.a[1], c.t[1])
    a, b = range_bounds(E, st, c.a[0], c.t[0], r.n)
    if st.decide(conj(ge(b, a), ge(r.n, b))):
        return opt(E, c.dty, sub(r, a, b))
    return opt(E, c.dty)


@pat(r'^std::slice::<impl \[T\]>::(first|first_mut|last|last_mut)$')
def n_first(c):
    E, st = c.E, c.st
    r = sref(E, st, c.a[0], c.t[0])
    if not st.decide(ge(r.n, 1)):
        return opt(E, c.dty)
    return opt(E, c.dty, elem(r, r.n - 1 if '::last' in c.name else 0))


@pat(r'^std::slice::<impl \[T\]>::(split_first|split_first_mut|split_last|split_last_mut)$')
def n_split_first(c):
    E, st = c.E, c.st
    r = sref(E, st, c.a[0], c.t[0])
    if not st.decide(ge(r.n, 1)):
        return opt(E, c.dty)
    tt = E.field_tys(c.dty, 1)[0]
    if 'last' in c.name:
        return opt(E, c.dty, tup(tt, elem(r, r.n - 1), sub(r, 0, r.n - 1)))
    return opt(E, c.dty, tup(tt, elem(r, 0), sub(r, 1, r.n)))


@pat(r'^std::slice::<impl \[T\]>::(split_at|split_at_mut)$')
def n_split_at(c):
    E, st = c.E, c.st
    r = sref(E, st, c.a[0], c.t[0])
    m = c.num(1)
    if not st.decide(ge(r.n, m)):
        E.panic(st, 'split_at out of bounds', c.unwind)
        return HANDLED
    return tup(c.dty, sub(r, 0, m), sub(r, m, r.n))


@pat(r'^std::slice::<impl \[T\]>::swap$')
def n_slswap(c):
    E, st = c.E, c.st
    r = sref(E, st, c.a[0], c.t[0])
    i, j = c.num(1), c.num(2)
    if not st.decide(conj(lt(i, r.n), lt(j, r.n))):
        E.panic(st, 'index out of bounds', c.unwind)
        return HANDLED
    a, b = elem(r, i), elem(r, j)
    x, y = E.read(st, a.obj, a.path), E.read(st, b.obj, b.path)
    E.write(st, a.obj, a.path, y)
    E.write(st, b.obj, b.path, x)
    return Agg(c.dty, 0, ())


@nat('std::slice::from_ref', 'std::slice::from_mut')
def n_from_ref(c):
    """a one-element slice over a scalar cell"""
    r = c.E.as_ref(c.st, c.a[0], c.E.pointee(c.t[0]))
    return Ref(r.obj, r.path + (('one',),), ZERO, ONE)


@pat(r'^std::slice::from_raw_parts(_mut)?$|^std::ptr::slice_from_raw_parts(_mut)?$')
def n_frp(c):
    return c.E.slice_from_ptr(c.st, c.a[0], c.num(1))


@pat(r'^std::slice::<impl \[T\]>::reverse$')
def n_reverse(c):
    E, st = c.E, c.st
    r = sref(E, st, c.a[0], c.t[0])
    a = E.read(st, r.obj, r.path)
    if type(a) is Sym:
        a = E.arr_from_sym(a)
    if a.base[0] == 'list' and not a.ov and r.lo == ZERO and r.n == a.n:
        E.write(st, r.obj, r.path, Arr(a.ety, a.n, ('list', tuple(reversed(a.base[1])))))
        return Agg(c.dty, 0, ())
    if a.n.is_const() and r.lo == ZERO and r.n == a.n and a.n.const() <= 16:
        l = [E.arr_get(st, a, i) for i in range(a.n.const())]
        E.write(st, r.obj, r.path, Arr(a.ety, a.n, ('list', tuple(reversed(l)))))
        return Agg(c.dty, 0, ())
    raise Stuck('reverse')


@pat(r'^std::array::<impl \[T; N\]>::(as_slice|as_mut_slice)$|^<\[T; N\] as std::(convert::As(Ref|Mut)|borrow::Borrow(Mut)?)<\[T\]>>|^std::array::<impl std::(convert::As(Ref|Mut)|borrow::Borrow(Mut)?)<\[T\]> for \[T; N\]>::')
def n_as_slice(c):
    return sref(c.E, c.st, c.a[0], c.t[0])


# ---- slice / array / vec iterators
SI = r'^<std::(slice::(Iter|IterMut)<T>|array::IntoIter<T, N>|vec::IntoIter<T(, A)?>) as std::iter::'


@pat(SI + r'Iterator>::next$')
def n_next(c):
    return it_next(c.E, c.st, c.a[0], c.t[0], c.dty)


@pat(SI + r'DoubleEndedIterator>::next_back$')
def n_next_back(c):
    return it_next(c.E, c.st, c.a[0], c.t[0], c.dty, True)


@pat(SI + r'Iterator>::nth$')
def n_nth(c):
    return it_nth(c.E, c.st, c.a[0], c.t[0], c.dty, c.num(1))


@pat(SI + r'DoubleEndedIterator>::nth_back$')
def n_nthb(c):
    return it_nth(c.E, c.st, c.a[0], c.t[0], c.dty, c.num(1), True)


@pat(SI + r'Iterator>::size_hint$')
def n_sh(c):
    r, v = it_load(c.E, c.st, c.a[0], c.t[0])
    return size_hint(c.E, c.st, c.dty, v.hi - v.lo)


@pat(SI + r'(ExactSizeIterator>::len)$|^std::slice::(Iter|IterMut)::<T>::len$|std::iter::ExactSizeIterator>::len$|^std::iter::ExactSizeIterator::len$')
def n_itlen(c):
    v = None
    try:
        r, v = it_load(c.E, c.st, c.a[0], c.t[0])
    except Stuck:
        pass
    if type(v) in (SIter, AIter):
        return v.hi - v.lo
    return None


@pat(SI + r'ExactSizeIterator>::is_empty$')
def n_itempty(c):
    r, v = it_load(c.E, c.st, c.a[0], c.t[0])
    return Bool(eq(v.hi, v.lo))


@pat(SI + r'Iterator>::count$')
def n_count(c):
    v = c.a[0]
    if type(v) in (SIter, AIter):
        return v.hi - v.lo
    return None


@pat(SI + r'Iterator>::last$')
def n_last(c):
    v = c.a[0]
    if not c.st.decide(lt(v.lo, v.hi)):
        return opt(c.E, c.dty)
    return opt(c.E, c.dty, it_elem(c.E, c.st, v, v.hi - 1))


@pat(r'^<std::slice::Iter<T> as std::clone::Clone>::clone$')
def n_iclone(c):
    return it_load(c.E, c.st, c.a[0], c.t[0])[1]


@pat(r'^<std::(array::IntoIter<T, N>|vec::IntoIter<T(, A)?>) as std::clone::Clone>::clone$')
def n_aclone(c):
    r, v = it_load(c.E, c.st, c.a[0], c.t[0])
    if 'vec::' in c.name:
        alloc(c.E, c.st, v.hi - v.lo, v.arr.ety)
        return AIter(v.ty, clone_each(c, v.arr, v.lo, v.hi - v.lo), ZERO, v.hi - v.lo)
    if c.E.opts.get('ledger'):
        return AIter(v.ty, clone_each(c, v.arr, v.lo, v.hi - v.lo), ZERO, v.hi - v.lo)
    return AIter(v.ty, Arr(v.arr.ety, v.arr.n, ('map', 'clone', v.arr, ZERO)), v.lo, v.hi)


@pat(r'^std::slice::(Iter|IterMut)::<T>::(as_slice|as_mut_slice|into_slice)$|^<std::slice::(Iter|IterMut)<T> as std::convert::AsRef<\[T\]>>::as_ref$')
def n_itslice(c):
    v = c.a[0]
    if type(v) is not SIter:
        r, v = it_load(c.E, c.st, c.a[0], c.t[0])
    return Ref(v.obj, v.path, v.lo, v.hi - v.lo)


AITER = ('aiter',)


@pat(r'^std::(array::IntoIter::<T, N>|vec::IntoIter::<T(, A)?>)::(as_slice|as_mut_slice)$')
def n_aitslice(c):
    r, v = it_load(c.E, c.st, c.a[0], c.t[0])
    return Ref(r.obj, r.path + (AITER,), v.lo, v.hi - v.lo)


@pat(r'^std::array::iter::<impl std::iter::IntoIterator for \[T; N\]>::into_iter$|^<\[T; N\] as std::iter::IntoIterator>::into_iter$|^std::array::IntoIter::<T, N>::new$')
def n_arr_into(c):
    a = c.a[0]
    if type(a) is Sym:
        a = c.E.arr_from_sym(a)
    return AIter(c.dty, a, ZERO, a.n)


@pat(r'^<std::vec::Vec<T(, A)?> as std::iter::IntoIterator>::into_iter$')
def n_vec_into(c):
    v = c.a[0]
    return AIter(c.dty, v.arr, ZERO, v.arr.n)


@pat(r'^std::boxed::iter::<impl std::iter::IntoIterator for std::boxed::Box<\[.*>::into_iter$')
def n_box_into(c):
    v = c.a[0]
    return AIter(c.dty, c.E.read(c.st, v.obj, v.path), ZERO, v.n)


# ---- Vec / Box
def vec_load(c, i=0):
    r = c.E.as_ref(c.st, c.a[i], c.E.pointee(c.t[i]))
    return r, c.E.read(c.st, r.obj, r.path)


def vec_ety(E, ty):
    return E.tys[ty]['args'][0]


@pat(r'^std::vec::Vec::<T(, A)?>::new(_in)?$')
def n_vnew(c):
    return Vec(Arr(vec_ety(c.E, c.dty), 0, ('uninit',)), ZERO)


@pat(r'^<std::vec::Vec<T> as std::default::Default>::default$')
def n_vdef(c):
    return n_vnew(c)


@pat(r'^std::vec::Vec::<T(, A)?>::with_capacity(_in)?$')
def n_vcap(c):
    t = vec_ety(c.E, c.dty)
    n = c.num(0)
    alloc(c.E, c.st, n, t)
    return Vec(Arr(t, 0, ('uninit',)), n)


@pat(r'^std::vec::Vec::<T(, A)?>::push(_mut)?$')
def n_vpush(c):
    E, st = c.E, c.st
    r, v = vec_load(c)
    if v.cap is None or not st.decide(lt(v.arr.n, v.cap)):
        if E.tys[v.arr.ety]['size'] != 0:
            E.event(st, ('alloc', v.arr.n + 1))
        v = Vec(v.arr, None)
    a = E.arr_set(st, v.arr, v.arr.n, c.a[1])
    n = v.arr.n
    E.write(st, r.obj, r.path, Vec(Arr(a.ety, a.n + 1, a.base, a.ov), v.cap))
    if E.tys[c.dty]['k'] == 'tuple':
        return Agg(c.dty, 0, ())
    return Ref(r.obj, r.path + (VECARR, ('x', n)))


@pat(r'^std::vec::Vec::<T(, A)?>::(reserve|reserve_exact|shrink_to_fit)$')
def n_vres(c):
    E, st = c.E, c.st
    r, v = vec_load(c)
    if 'reserve' in c.name:
        n = v.arr.n + c.num(1)
        if v.cap is not None and st.decide(ge(v.cap, n)):
            return Agg(c.dty, 0, ())
        alloc(E, st, n, v.arr.ety)
        E.write(st, r.obj, r.path, Vec(v.arr, n))
    return Agg(c.dty, 0, ())


@pat(r'^std::vec::Vec::<T(, A)?>::len$')
def n_vlen(c):
    return vec_load(c)[1].arr.n


@pat(r'^std::vec::Vec::<T(, A)?>::is_empty$')
def n_vempty(c):
    return Bool(eq(vec_load(c)[1].arr.n, 0))


@pat(r'^std::vec::Vec::<T(, A)?>::capacity$')
def n_vcapq(c):
    v = vec_load(c)[1]
    if v.cap is None:
        raise Stuck('capacity')
    return v.cap


@pat(r'^std::vec::Vec::<T(, A)?>::pop$')
def n_vpop(c):
    E, st = c.E, c.st
    r, v = vec_load(c)
    if not st.decide(ge(v.arr.n, 1)):
        return opt(E, c.dty)
    x = E.arr_get(st, v.arr, v.arr.n - 1)
    a = v.arr
    E.write(st, r.obj, r.path, Vec(Arr(a.ety, a.n - 1, a.base, a.ov), v.cap))
    return opt(E, c.dty, x)


@pat(r'^std::vec::Vec::<T(, A)?>::into_boxed_slice$|^<std::boxed::Box<\[T\](, A)?> as std::convert::From<std::vec::Vec<T(, A)?>>>::from$')
def n_vbox(c):
    v = c.a[0]
    o = new_heap(c.E, c.st, v.arr)
    return Ref(o, (), ZERO, v.arr.n)


@pat(r'^std::slice::<impl \[T\]>::into_vec$|^<std::vec::Vec<T(, A)?> as std::convert::From<std::boxed::Box<\[T\](, A)?>>>::from$')
def n_into_vec(c):
    v = c.a[0]
    return Vec(c.E.read(c.st, v.obj, v.path), v.n)


@pat(r'^std::vec::Vec::<T(, A)?>::(as_slice|as_mut_slice)$|^<std::vec::Vec<T(, A)?> as std::ops::Deref(Mut)?>::deref(_mut)?$|^<std::vec::Vec<T(, A)?> as std::convert::As(Ref|Mut)<\[T\]>>::as_')
def n_vslice(c):
    return sref(c.E, c.st, c.a[0], c.t[0])


@pat(r'^<std::vec::Vec<T(, A)?> as std::ops::Index(Mut)?<I>>::index(_mut)?$')
def n_vindex(c):
    r = sref(c.E, c.st, c.a[0], c.t[0])
    return index(c.E, c.st, r, c.a[1], c.t[1], c.unwind)


@nat('std::vec::from_elem')
def n_from_elem(c):
    E, st = c.E, c.st
    n = c.num(1)
    t = vec_ety(E, c.dty)
    alloc(E, st, n, t)
    return Vec(Arr(t, n, ('rep', c.a[0])), n)


@pat(r'^<std::boxed::Box<\[T\]> as std::default::Default>::default$')
def n_boxdef(c):
    E, st = c.E, c.st
    t = E.tys[E.pointee(c.dty)]['ty']
    o = new_heap(E, st, Arr(t, 0, ('list', ())))
    return Ref(o, (), ZERO, ZERO)


@pat(r'^std::boxed::Box::<T>::new$|^std::boxed::box_new$|^<std::boxed::Box<T> as std::convert::From<T>>::from$')
def n_boxnew(c):
    E, st = c.E, c.st
    if E.tys[c.t[0]]['size'] != 0:
        E.event(st, ('alloc', ONE))
    o = new_heap(E, st, c.a[0])
    return Ref(o)


@pat(r'^<std::boxed::Box<\[T\], A> as std::clone::Clone>::clone$|^<std::boxed::Box<\[T\]> as std::clone::Clone>::clone$')
def n_boxclone(c):
    E, st = c.E, c.st
    b = rd(E, st, c.a[0], c.t[0])
    a = E.read(st, b.obj, b.path)
    alloc(E, st, b.n, a.ety)
    work(E, st, b.n)
    o = new_heap(E, st, clone_each(c, a, b.lo, b.n))
    return Ref(o, (), ZERO, b.n)


@pat(r'^<std::vec::Vec<T(, A)?> as std::clone::Clone>::clone$|^std::slice::<impl \[T\]>::to_vec(_in)?$')
def n_vclone(c):
    E, st = c.E, c.st
    r = sref(E, st, c.a[0], c.t[0])
    a = E.read(st, r.obj, r.path)
    alloc(E, st, r.n, a.ety)
    work(E, st, r.n)
    return Vec(clone_each(c, a, r.lo, r.n), r.n)


@pat(r'^std::array::<impl std::clone::Clone for \[T; N\]>::clone$|^<\[T; N\] as std::clone::Clone>::clone$')
def n_arrclone(c):
    E, st = c.E, c.st
    a = rd(E, st, c.a[0], c.t[0])
    if type(a) is Arr:
        work(E, st, a.n)
        return clone_each(c, a, ZERO, a.n)
    return clone_value(E, st, E.pointee(c.t[0]), a)


@pat(r'^<std::boxed::Box<T(, A)?> as std::(convert::AsRef<T>|borrow::Borrow<T>|ops::Deref)>::|^<std::boxed::Box<T(, A)?> as std::(convert::AsMut<T>|borrow::BorrowMut<T>|ops::DerefMut)>::')
def n_boxref(c):
    return rd(c.E, c.st, c.a[0], c.t[0])


@pat(r'^std::boxed::Box::<T(, A)?>::(leak|into_raw|from_raw|into_inner)$')
def n_boxraw(c):
    if c.name.endswith('into_inner'):
        return c.E.read(c.st, c.a[0].obj, c.a[0].path)
    return c.a[0]


# ---- NonZero
@pat(r'^std::num::NonZero::<T>::new$|^std::num::NonZero::<\w+>::new$')
def n_nznew(c):
    E, st = c.E, c.st
    n = c.num(0)
    if st.decide(eq(n)):
        return opt(E, c.dty)
    return opt(E, c.dty, c.a[0])


@pat(r'^std::num::NonZero::<(T|\w+)>::(get|new_unchecked)$')
def n_nzget(c):
    if c.name.endswith('new_unchecked') and c.st.decide(eq(c.num(0))):
        c.E.event(c.st, ('ub', 'NonZero::new_unchecked(0)'))
        raise Infeasible()
    return c.a[0]


# ---- char
@pat(r'^std::char::(methods::<impl char>::from_u32|from_u32|convert::from_u32)$')
def n_from_u32(c):
    E, st = c.E, c.st
    n = c.num(0)
    if st.decide(lt(n, 0xD800)) or (st.decide(ge(n, 0xE000)) and st.decide(ge(0x10FFFF, n))):
        return opt(E, c.dty, n)
    return opt(E, c.dty)


@pat(r'^std::char::(methods::<impl char>::from_u32_unchecked|from_u32_unchecked|convert::from_u32_unchecked)$')
def n_from_u32u(c):
    E, st = c.E, c.st
    n = c.num(0)
    if not st.decide(disj(lt(n, 0xD800), conj(ge(n, 0xE000), ge(0x10FFFF, n)))):
        E.event(st, ('ub', 'invalid char'))
    return n


@pat(r'^<char as std::convert::TryFrom<u32>>::try_from$|^std::char::convert::<impl std::convert::TryFrom<u32> for char>::try_from$')
def n_ctry(c):
    E, st = c.E, c.st
    n = c.num(0)
    if st.decide(lt(n, 0xD800)) or (st.decide(ge(n, 0xE000)) and st.decide(ge(0x10FFFF, n))):
        return Agg(c.dty, 0, (n,))
    et = variant_ftys(E, c.dty, 1)[0]
    return Agg(c.dty, 1, (Sym(et, ('err',)),))


@pat(r'^std::convert::num::<impl std::convert::TryFrom<\w+> for \w+>::try_from$|^<\w+ as std::convert::TryFrom<\w+>>::try_from$')
def n_tryfrom(c):
    E, st = c.E, c.st
    ok = variant_ftys(E, c.dty, 0)[0]
    r = E.int_range(ok)
    if r is None:
        return None
    n = c.num(0)
    if st.decide(conj(ge(n, r[0]), ge(r[1], n))):
        return Agg(c.dty, 0, (E.num_to_word(n) if E.is_word(ok) else n,))
    et = variant_ftys(E, c.dty, 1)[0]
    return Agg(c.dty, 1, (Sym(et, ('err',)),))


@pat(r'^<(bool|char|u8|u16|u32|u64|usize|i8|i16|i32|i64|isize|u128|i128) as std::convert::From<\w+>>::from$|^std::convert::num::<impl std::convert::From<\w+> for \w+>::from$|^std::char::convert::<impl std::convert::From<\w+> for \w+>::from$')
def n_ifrom(c):
    E = c.E
    n = c.num(0)
    return E.num_to_word(n) if E.is_word(c.dty) else n


# ---- comparison of scalars
@pat(r'^std::cmp::impls::<impl std::cmp::Partial(Eq|Ord)(<\w+>)? for (u8|u16|u32|u64|usize|i8|i16|i32|i64|isize|char|bool)>::(eq|ne|lt|le|gt|ge)$')
def n_pcmp(c):
    E, st = c.E, c.st
    op = {'eq': 'Eq', 'ne': 'Ne', 'lt': 'Lt', 'le': 'Le', 'gt': 'Gt', 'ge': 'Ge'}[c.name.split('::')[-1]]
    return E.compare(st, op, rd(E, st, c.a[0], c.t[0]), rd(E, st, c.a[1], c.t[1]))


@pat(r'^std::cmp::impls::<impl std::cmp::(Partial)?Ord for (u8|u16|u32|u64|usize|i8|i16|i32|i64|isize|char|bool)>::(cmp|partial_cmp)$')
def n_cmp(c):
    E, st = c.E, c.st
    a, b = rd(E, st, c.a[0], c.t[0]), rd(E, st, c.a[1], c.t[1])
    return cmp_result(c, E.num(st, a), E.num(st, b))


def cmp_result(c, x, y):
    E, st = c.E, c.st
    if st.decide(lt(x, y)):
        v = 0
    elif st.decide(eq(x, y)):
        v = 1
    else:
        v = 2
    t = c.dty
    if 'Option' in E.tys[t]['name']:
        return opt(E, t, Agg(variant_ftys(E, t, 1)[0], v, ()))
    return Agg(t, v, ())


@pat(r'num::<impl (usize|u64|u32|u16|u8)>::(trailing_zeros|leading_zeros|count_ones|count_zeros|trailing_ones|leading_ones|is_power_of_two|ilog2|checked_ilog2)$')
def n_bits(c):
    E, st = c.E, c.st
    op = c.name.split('::')[-1]
    if 'u64' not in c.name:
        p = c.num(0)
        if p.is_const():
            bits = E.tys[E.peel(c.t[0])]['bits']
            x = p.const()
            if op == 'trailing_zeros':
                return P((x & -x).bit_length() - 1 if x else bits)
            if op == 'leading_zeros':
                return P(bits - x.bit_length())
            if op == 'count_ones':
                return P(bin(x).count('1'))
        raise Stuck(op)
    w = E.to_word(c.a[0])
    return word_op(E, st, op, w, c)


def word_op(E, st, op, w, c=None):
    if op == 'trailing_zeros':
        if w.k == 'c':
            return P((w.a & -w.a).bit_length() - 1 if w.a else 64)
        return P(64) if st.decide_wz(w) else tz(E, st, w)
    if op == 'leading_zeros':
        if w.k == 'c':
            return P(64 - w.a.bit_length())
        return P(64) if st.decide_wz(w) else 63 - hz(E, st, w)
    if op == 'count_ones':
        return popcount(E, st, w)
    if op == 'count_zeros':
        return 64 - popcount(E, st, w)
    if op == 'trailing_ones':
        from interp import mk_word
        return word_op(E, st, 'trailing_zeros', mk_word('not', w))
    if op == 'leading_ones':
        from interp import mk_word
        return word_op(E, st, 'leading_zeros', mk_word('not', w))
    if op == 'is_power_of_two':
        return Bool(eq(popcount(E, st, w), 1))
    if op == 'ilog2':
        if st.decide_wz(w):
            E.panic(st, 'ilog2 of zero', c.unwind)
            return HANDLED
        return hz(E, st, w)
    if op == 'checked_ilog2':
        if st.decide_wz(w):
            return opt(E, c.dty)
        return opt(E, c.dty, hz(E, st, w))
    raise Stuck(op)


@pat(r'num::<impl (usize|u64|u32|u16|u8)>::saturating_sub$')
def n_satsub(c):
    E, st = c.E, c.st
    x, y = c.num(0), c.num(1)
    r = x - y if st.decide(ge(x, y)) else ZERO
    return E.num_to_word(r) if E.is_word(c.dty) else r


@pat(r'num::<impl (usize|u64|u32|u16|u8)>::saturating_(add|mul)$')
def n_satadd(c):
    E, st = c.E, c.st
    x, y = c.num(0), c.num(1)
    hi = E.int_range(c.dty)[1]
    r = x + y if 'add' in c.name else x * y
    return r if st.decide(ge(hi, r)) else P(hi)


# ---- atomics
ORD = ['Relaxed', 'Release', 'Acquire', 'AcqRel', 'SeqCst']


@pat(r'^std::sync::atomic::Atomic(::<usize>|Usize)::(new|load|store|swap|compare_exchange|compare_exchange_weak|get_mut|into_inner|fetch_\w+|compare_and_swap|try_update|update)$')
def n_atomic(c):
    E, st = c.E, c.st
    op = c.name.split('::')[-1]
    if op == 'new':
        return Agg(c.dty, 0, (c.num(0),))
    if op == 'into_inner':
        return E.num(st, c.a[0].fs[0])
    r = E.as_ref(st, c.a[0], E.pointee(c.t[0]))
    cur_cell = E.read(st, r.obj, r.path)
    if type(cur_cell) is Sym:
        cur_cell = Agg(cur_cell.ty, 0, (P(atom('val', (('fld', cur_cell.term, 0, 0),), ZERO, P(U64 - 1))),))
    aty = cur_cell.ty

    def put(v):
        E.write(st, r.obj, r.path, Agg(aty, 0, (v,)))
    if op == 'get_mut':
        if type(E.read(st, r.obj, r.path)) is Sym:
            put(cur_cell.fs[0])
        f0 = E.tys[aty]['variants'][0]['fields'][0][1]
        return Ref(r.obj, r.path + (('f', 0, 0, f0, aty),))
    cur = E.num(st, cur_cell.fs[0])
    ords = []
    for a, t in zip(c.a, c.t):
        d = E.tys[t]
        if d['k'] == 'adt' and d['name'].endswith('atomic::Ordering'):
            ords.append(a)
    # an access may observe what other threads stored in between
    E.event(st, ('atomic', op, tuple(ords)))
    if E.opts.get('concurrent'):
        cur = E.concurrent_value(st, cur)
    if op == 'load':
        return cur
    if op == 'store':
        put(c.num(1))
        return Agg(c.dty, 0, ())
    if op == 'swap':
        put(c.num(1))
        return cur
    if op in ('compare_exchange', 'compare_exchange_weak'):
        if st.decide(eq(cur, c.num(1))):
            if op.endswith('weak'):
                st.uc += 1
                if st.decide(('b', ('spurious', st.ctx, st.uc))):
                    return Agg(c.dty, 1, (cur,))
            put(c.num(2))
            return Agg(c.dty, 0, (cur,))
        return Agg(c.dty, 1, (cur,))
    raise Stuck('atomic ' + op)


# ---- panics
@pat(r'^std::panicking::|^std::rt::(begin_panic|panic_fmt)|^std::option::(unwrap_failed|expect_failed)$|^std::result::unwrap_failed$|^std::slice::index::\w+_fail$|^std::process::abort$|^std::raw_vec::(handle_error|capacity_overflow)|^std::alloc::handle_alloc_error$|^std::hint::unreachable_unchecked$')
def n_panic(c):
    if 'unreachable_unchecked' in c.name:
        c.E.event(c.st, ('ub', 'unreachable_unchecked'))
        c.st.end = 'ub'
        return HANDLED
    if 'panicking::' in c.name and c.target != -1:
        return None
    c.E.panic(c.st, norm(c.name).split('::')[-1], c.unwind)
    return HANDLED


@pat(r'precondition_check$')
def n_precond(c):
    return Agg(c.dty, 0, ())


@pat(r'^std::fmt::Arguments::<?.*>?::(new\w*|from_str\w*)$|^std::fmt::rt::')
def n_fmtargs(c):
    return Sym(c.dty, ('fmtargs',) + tuple(('v', a) if type(a) is Ref else ('c',) for a in c.a))


@pat(r'^std::intrinsics::(likely|unlikely|black_box)$|^std::hint::(black_box|must_use)$')
def n_ident(c):
    return c.a[0]


@pat(r'^std::hint::assert_unchecked$')
def n_assert_unchecked(c):
    if not c.st.decide(c.a[0].f):
        c.E.event(c.st, ('ub', 'assert_unchecked violated'))
        raise Infeasible()
    return Agg(c.dty, 0, ())


# ------------------------------------------------------------------ intrinsics
INTRIN = {}


def intr(*names):
    def deco(f):
        for n in names:
            INTRIN[n] = f
        return f
    return deco


INTRIN['size_of'] = n_size_of
INTRIN['needs_drop'] = n_needs_drop
INTRIN['likely'] = n_ident
INTRIN['unlikely'] = n_ident
INTRIN['black_box'] = n_ident
INTRIN['forget'] = n_forget
INTRIN['read_via_copy'] = n_read
INTRIN['write_via_move'] = n_write
INTRIN['volatile_load'] = n_read
INTRIN['drop_in_place'] = n_drop_in_place


@intr('ub_checks', 'contract_checks')
def i_ub(c):
    return F


@intr('overflow_checks')
def i_of(c):
    return T if c.E.opts.get('debug', True) else F


@intr('cold_path', 'assert_inhabited', 'assert_zero_valid', 'assert_mem_uninitialized_valid')
def i_nop(c):
    return Agg(c.dty, 0, ())


@intr('assume')
def i_assume(c):
    return n_assert_unchecked(c)


@intr('unreachable')
def i_unreach(c):
    c.E.event(c.st, ('ub', 'unreachable'))
    c.st.end = 'ub'
    return HANDLED


@intr('abort')
def i_abort(c):
    c.E.panic(c.st, 'abort', c.unwind)
    return HANDLED


@intr('transmute', 'transmute_unchecked')
def i_transmute(c):
    return c.E.transmute_value(c.st, c.a[0], c.t[0], c.dty)


@intr('discriminant_value')
def i_discr(c):
    E, st = c.E, c.st
    pt = E.pointee(c.t[0])
    v = rd(E, st, c.a[0], c.t[0])
    if E.tys[pt]['k'] != 'adt':
        raise Stuck('discriminant_value')
    return P(int(E.tys[pt]['variants'][E.variant_of(st, v, pt)]['discr']))


@intr('ctpop')
def i_ctpop(c):
    return word_op(c.E, c.st, 'count_ones', c.E.to_word(c.a[0]), c)


@intr('cttz', 'cttz_nonzero')
def i_cttz(c):
    return word_op(c.E, c.st, 'trailing_zeros', c.E.to_word(c.a[0]), c)


@intr('ctlz', 'ctlz_nonzero')
def i_ctlz(c):
    return word_op(c.E, c.st, 'leading_zeros', c.E.to_word(c.a[0]), c)


@intr('saturating_sub')
def i_satsub(c):
    return n_satsub(c)


@intr('saturating_add')
def i_satadd(c):
    x, y = c.num(0), c.num(1)
    hi = c.E.int_range(c.dty)[1]
    return x + y if c.st.decide(ge(hi, x + y)) else P(hi)


@intr('integer_min')
def i_min(c):
    x, y = c.num(0), c.num(1)
    return x if c.st.decide(ge(y, x)) else y


@intr('integer_max')
def i_max(c):
    x, y = c.num(0), c.num(1)
    return x if c.st.decide(ge(x, y)) else y


@intr('three_way_compare')
def i_cmp(c):
    return cmp_result(c, c.num(0), c.num(1))


def _arith(op):
    def f(c):
        return c.E.arith(c.st, op, c.a[0], c.a[1], c.t[0], c.dty)
    return f


for _n, _o in (('add', 'Add'), ('sub', 'Sub'), ('mul', 'Mul')):
    INTRIN[_n + '_with_overflow'] = _arith(_o + 'WithOverflow')
    INTRIN['wrapping_' + _n] = _arith(_o)
    INTRIN['unchecked_' + _n] = _arith(_o + 'Unchecked')
for _n, _o in (('div', 'Div'), ('rem', 'Rem'), ('shl', 'Shl'), ('shr', 'Shr')):
    INTRIN['unchecked_' + _n] = _arith(_o)
INTRIN['exact_div'] = _arith('Div')


@intr('offset', 'arith_offset')
def i_offset(c):
    return n_padd(c)


@intr('aggregate_raw_ptr')
def i_agg(c):
    return c.E.aggregate(c.st, ['rawptr'], c.a, c.dty)


@intr('ptr_metadata')
def i_meta(c):
    if type(c.a[0]) is Ref and c.a[0].n is not None:
        return c.a[0].n
    return Agg(c.dty, 0, ())


@intr('slice_get_unchecked')
def i_sgu(c):
    r = sref(c.E, c.st, c.a[0], c.t[0])
    i = c.num(1)
    if not c.st.decide(lt(i, r.n)):
        c.E.event(c.st, ('ub', 'unchecked index out of bounds'))
        raise Infeasible()
    return elem(r, i)


@intr('copy_nonoverlapping', 'copy')
def i_copy(c):
    copy_mem(c.E, c.st, c.a[0], c.a[1], c.num(2))
    return Agg(c.dty, 0, ())


@intr('typed_swap_nonoverlapping')
def i_swap(c):
    return n_swap(c)


@intr('const_eval_select')
def i_ces(c):
    raise Stuck('const_eval_select')


@intr('min_align_of', 'align_of', 'pref_align_of')
def i_align(c):
    return P(atom('ALIGN', (c.E.tys[c.callee['args'][0]]['s'],), ONE, P(2 ** 29)))


@intr('is_val_statically_known')
def i_known(c):
    return F


# ------------------------------------------------------------------ drops
def start_drop(E, st, items, unwind):
    items = [i for i in items if E.tys[i[2]]['nd']]
    if not items:
        return
    from interp import Frame
    f = Frame()
    st.fidc += 1
    f.fid = st.fidc
    f.b = None
    f.bb = f.si = 0
    f.dest = None
    f.target = -9
    f.unwind = unwind
    f.line = st.frames[-1].line if st.frames else ''
    f.work = tuple(items)
    f.kind = 'drop'
    f.ctx = None
    st.frames.append(f)


def step_work(E, st, fr):
    if not fr.work:
        st.frames.pop()
        return
    obj, path, ty, lo, n = fr.work[0]
    rest = fr.work[1:]
    fr.work = rest
    d = E.tys[ty]
    if not d['nd']:
        return
    k = d['k']
    if k in ('ref', 'ptr'):
        return
    if d['md']:
        return
    if k == 'adt' and d['tr'] and d['box']:
        v = E.read(st, obj, path)
        inner = d['args'][0]
        r = E.as_ref(st, v, inner)
        E.event(st, ('dealloc', r.obj))
        if E.tys[inner]['nd'] or E.tys[inner]['k'] in ('slice',):
            fr.work = ((r.obj, r.path, inner, r.lo, r.n),) + rest
        return
    if k == 'slice' or k == 'array':
        ety = d['ty']
        if not E.tys[ety]['nd']:
            return
        if lo is None:
            lo, n = ZERO, E.clen(d['len']) if k == 'array' else None
        v = E.read(st, obj, path)
        if type(v) is Sym:
            v = E.arr_from_sym(v)
        drop_elems(E, st, fr, (obj, path), v, ety, lo, n)
        return
    if k == 'adt' and d['name'].split('::')[-1] == 'Vec':
        v = E.read(st, obj, path)
        E.event(st, ('dealloc', obj))
        ety = d['args'][0]
        if E.tys[ety]['nd']:
            drop_elems(E, st, fr, (obj, path + (VECARR,)), v.arr, ety, ZERO, v.arr.n)
        return
    if k == 'adt' and d['name'] in ('std::vec::IntoIter', 'std::array::IntoIter'):
        v = E.read(st, obj, path)
        ety = d['args'][0]
        if type(v) is AIter and E.tys[ety]['nd']:
            drop_elems(E, st, fr, (obj, path + (AITER,)), v.arr, ety, v.lo, v.hi - v.lo)
        return
    if k in ('param', 'alias', 'dyn', 'fnptr'):
        v = E.read(st, obj, path)
        E.event(st, ('drop', v))
        return
    if k == 'adt' and d['ak'] == 'enum':
        v = E.read(st, obj, path)
        var = E.variant_of(st, v, ty)
        items = tuple((obj, path + (('f', i, var, f[1], ty),), f[1], None, None)
                      for i, f in enumerate(d['variants'][var]['fields']))
        fr.work = items + rest
        if d.get('drop') is not None:
            call_drop(E, st, fr, d['drop'], obj, path)
        return
    if k in ('adt', 'tuple', 'closure'):
        if d['tr']:
            fr.work = ((obj, path, E.prog.transparent_field(ty)[1], None, None),) + rest
            return
        fts = E.field_tys(ty)
        items = tuple((obj, path + (('f', i, None, t, ty),), t, None, None) for i, t in enumerate(fts))
        fr.work = items + rest
        if d.get('drop') is not None:
            call_drop(E, st, fr, d['drop'], obj, path)
        return
    raise Stuck('drop of ' + d['s'])


def call_drop(E, st, fr, body, obj, path):
    E.push(st, body, [Ref(obj, path)], None, -9, fr.unwind)


def drop_elems(E, st, fr, where, arr, ety, lo, n):
    if n is not None and n.is_const() and n.const() <= 8:
        obj, path = where
        items = tuple((obj, path + (('x', lo + i),), ety, None, None) for i in range(n.const()))
        fr.work = items + fr.work
        return
    if has_local_drop(E, ety):
        raise Stuck('drop of many %s' % E.tys[ety]['s'])
    E.event(st, ('dropseq', arr, lo, n))
    work(E, st, n)


def has_local_drop(E, ty, seen=None):
    seen = seen or set()
    if ty in seen:
        return False
    seen.add(ty)
    d = E.tys[ty]
    if d['k'] == 'adt':
        if d.get('drop') is not None:
            return True
        return any(has_local_drop(E, f[1], seen) for v in d['variants'] for f in v['fields'])
    if d['k'] in ('tuple', 'closure'):
        return any(has_local_drop(E, t, seen) for t in d['tys'])
    if d['k'] in ('array', 'slice'):
        return has_local_drop(E, d['ty'], seen)
    return False


# ------------------------------------------------------------------ user code
def uid(st):
    st.uc += 1
    return (st.ctx, st.uc)


def user_call(E, st, callee, args, atys, dest, target, unwind):
    name = callee['name']
    tr = callee.get('trait', '')
    m = name.split('::')[-1]
    selfty = callee['args'][0] if callee['args'] and type(callee['args'][0]) is int else None
    sk = E.tys[selfty] if selfty is not None else None
    c = C()
    c.E, c.st, c.callee, c.a, c.t, c.dest, c.target, c.unwind = E, st, callee, args, atys, dest, target, unwind
    c.name = name
    if tr.endswith('::Ordinal') and sk is not None and E.is_key_param(selfty):
        if m == 'ordinal':
            v = rd(E, st, args[0], atys[0])
            return v.ord
        if m == 'from_ordinal':
            n = E.num(st, args[0])
            if st.decide(lt(n, E.size_of_key(selfty))):
                return opt(E, dest.ty, Key(selfty, n))
            return opt(E, dest.ty)
        return None
    short = tr.split('::')[-1]
    if selfty is not None and sk['k'] in ('param', 'alias'):
        key = E.is_key_param(selfty)
        if short == 'Clone' and m == 'clone':
            v = rd(E, st, args[0], atys[0])
            if not key:
                E.event(st, ('user', 'clone'))
                maybe_unwind(E, st, unwind)
            return clone_value(E, st, selfty, v)
        if short == 'Default':
            E.event(st, ('user', 'default'))
            return default_value(E, st, selfty)
        if short == 'PartialEq' and m in ('eq', 'ne'):
            a, b = rd(E, st, args[0], atys[0]), rd(E, st, args[1], atys[1])
            f = same_form(E, st, a, b)
            return Bool(f if m == 'eq' else neg(f))
        if short in ('Ord', 'PartialOrd') and key:
            a, b = rd(E, st, args[0], atys[0]).ord, rd(E, st, args[1], atys[1]).ord
            if m in ('cmp', 'partial_cmp'):
                return cmp_result(c, a, b)
            if m in ('lt', 'le', 'gt', 'ge'):
                return E.compare(st, m.capitalize(), a, b)
    if short in ('FnOnce', 'FnMut', 'Fn'):
        if sk['k'] == 'fndef':
            raise Stuck('fndef call')
        t = uid(st)
        E.event(st, ('user', 'call', args[1] if len(args) > 1 else None))
        maybe_unwind(E, st, unwind)
        return E.lift(st, dest.ty, ('call', E.tys[selfty]['s']) + t)
    if short == 'Iterator' and m == 'next' and sk['k'] in ('param', 'alias'):
        E.event(st, ('user', 'next'))
        maybe_unwind(E, st, unwind)
        return E.lift(st, dest.ty, ('unext',) + uid(st))
    if short == 'IntoIterator' and m == 'into_iter':
        E.event(st, ('user', 'into_iter'))
        return E.lift(st, dest.ty, ('uiter',) + uid(st))
    if short in ('Debug', 'Display') and m == 'fmt':
        return fmt_user(E, st, c)
    if short == 'Iterator' and m == 'size_hint' and sk['k'] in ('param', 'alias'):
        return E.lift(st, dest.ty, ('uhint',) + uid(st))
    return None


def maybe_unwind(E, st, unwind):
    """caller-supplied code may panic (only followed in ownership mode)"""
    if E.unwind and not st.ghost.get('panicking'):
        f = ('b', ('upanic', st.ctx, st.uc))
        if st.decide(f):
            E.panic(st, 'user', unwind)
            raise UserPanic()


class UserPanic(Exception):
    pass


# ------------------------------------------------------------------ Debug output
# A specification formats into a recorder (rt::Rec) instead of a Formatter.
def fmt_peel(E, st, v):
    """the formatted value behind references, and the last array index passed"""
    idx = None
    while type(v) is Ref:
        if v.lo is not None:
            raise Stuck('formatted slice')
        for p in v.path:
            if p[0] == 'x':
                idx = p[1]
        v = E.read(st, v.obj, v.path)
    return v, idx


def fmt_record(E, st, rec, key, idx, val):
    def fld(i):
        return rd_field(E, st, rec, i)
    r = E.read(st, rec.obj, rec.path)
    if type(r) is not Agg or 'Rec' not in E.tys[r.ty]['s']:
        raise Stuck('formatter that is not a recorder')
    nxt, first, count, j, present, want, done = r.fs
    n = key.ord if key is not None else idx
    if n is None:
        raise Stuck('formatted value of unknown key')
    n = P(n)
    fr = st.frames[-1]
    site = (E.prog.bodies[fr.b]['name'], E.shortline(fr.line))
    E.spec_check(st, st.decide(ge(n - nxt)), site + ('order of the output',))
    if st.decide(present.f):
        if st.decide(ge(j - nxt)):
            E.spec_check(st, not st.decide(lt(j, n)), site + ('an entry is left out',))
    if st.decide(eq(n, j)):
        E.spec_check(st, st.decide(present.f), site + ('an absent entry is shown',))
        if val is not None and want.var == 1:
            w, _ = fmt_peel(E, st, want.fs[0])
            E.spec_check(st, st.decide(same_form(E, st, val, w)), site + ('the value of an entry',))
    if st.decide(eq(count)):
        first = n
    E.write(st, rec.obj, rec.path, Agg(r.ty, 0, (n + 1, first, count + 1, j, present, want, done)))


def rd_field(E, st, ref, i):
    return E.read(st, ref.obj, ref.path).fs[i]


def fmt_emit(E, st, rec, v):
    v, idx = fmt_peel(E, st, v)
    if type(v) is Key:
        fmt_record(E, st, rec, v, None, None)
    elif type(v) is Agg and E.tk(v.ty) == 'tuple' and len(v.fs) == 2:
        k, _ = fmt_peel(E, st, v.fs[0])
        x, _ = fmt_peel(E, st, v.fs[1])
        if type(k) is not Key:
            raise Stuck('formatted pair')
        fmt_record(E, st, rec, k, None, x)
    elif type(v) is Sym:
        fmt_record(E, st, rec, None, idx, v)
    else:
        raise Stuck('formatted value %r' % (v,))


def fmt_ok(E, dty):
    return Agg(dty, 0, (Agg(E.field_tys(dty, 0)[0], 0, ()),))


def builder_rec(E, st, b):
    v = E.read(st, b.obj, b.path)
    if type(v) is Sym or type(v.fs[0]) is not Ref:
        raise Stuck('formatter of unknown origin')
    return v.fs[0]


# ------------------------------------------------------------------ atomic accesses
def accesses(E, st):
    out = []
    for ev, site in st.events:
        if ev[0] == 'atomic':
            out.append(ev)
        elif ev[0] == 'loopev' and 'atomic' in repr(ev[2]):
            st.notes.add('inexact')
            st.uc += 1
            return P(atom('lp', ('accesses', st.ctx, st.uc), ZERO, P(U64), (), True)), out
    return P(len(out)), out


@pat(r'rt::accesses$')
def n_accesses(c):
    return accesses(c.E, c.st)[0]


@pat(r'rt::ordering_is$')
def n_ordering_is(c):
    E, st = c.E, c.st
    n, l = accesses(E, st)
    i = P(c.num(0)).const()
    want = rd(E, st, c.a[1], c.t[1])
    if not l or i >= len(l[-1][2]):
        return F
    got = l[-1][2][i]
    return Bool(same_form(E, st, got, want))


def total(E, st, kind, at_least_one):
    """how much of what the events of the kind say happened"""
    r = ZERO
    evs = st.events
    if kind == 'work':
        evs = evs[max([i for i, e in enumerate(evs) if e[0][0] == 'mark'], default=0):]
    for ev, site in evs:
        if ev[0] == kind:
            if at_least_one:
                # a request for nothing is none
                if st.decide(ge(ev[1], 1)):
                    r = r + 1
            else:
                r = r + ev[1]
        elif ev[0] == 'loopev' and ("('%s'," % kind) in repr(ev[2]):
            st.notes.add('inexact')
            st.uc += 1
            r = r + P(atom('lp', (kind, st.ctx, st.uc), ZERO, P(U64), (), True))
    return r


@pat(r'rt::allocations$')
def n_allocations(c):
    return total(c.E, c.st, 'alloc', True)


@pat(r'rt::mark$')
def n_mark(c):
    c.E.event(c.st, ('mark',))
    return Agg(c.dty, 0, ())


@pat(r'rt::work$')
def n_work(c):
    return total(c.E, c.st, 'work', False)


@pat(r'rt::recording$')
def n_recording(c):
    return c.a[0]


@pat(r'^std::fmt::Formatter::(<>::)?(debug_map|debug_list|debug_set)$')
def n_debug_builder(c):
    return Agg(c.dty, 0, (c.a[0],))


@pat(r'^std::fmt::(builders::)?DebugMap::(<>::)?entry$')
def n_debug_map_entry(c):
    E, st = c.E, c.st
    rec = builder_rec(E, st, c.a[0])
    k, _ = fmt_peel(E, st, c.a[1])
    v, _ = fmt_peel(E, st, c.a[2])
    if type(k) is not Key:
        raise Stuck('formatted key')
    fmt_record(E, st, rec, k, None, v)
    return c.a[0]


@pat(r'^std::fmt::(builders::)?Debug(List|Set)::(<>::)?entry$')
def n_debug_list_entry(c):
    fmt_emit(c.E, c.st, builder_rec(c.E, c.st, c.a[0]), c.a[1])
    return c.a[0]


@pat(r'^std::fmt::(builders::)?Debug(List|Set|Map)::(<>::)?finish$')
def n_debug_finish(c):
    E, st = c.E, c.st
    rec = builder_rec(E, st, c.a[0])
    r = E.read(st, rec.obj, rec.path)
    E.write(st, rec.obj, rec.path, Agg(r.ty, 0, r.fs[:6] + (T,)))
    return fmt_ok(E, c.dty)


@pat(r'^std::fmt::Formatter::(<>::)?write_(fmt|str)$|^<std::fmt::Formatter(<>)? as std::fmt::Write>::write_(fmt|str)$')
def n_write_fmt(c):
    E, st = c.E, c.st
    a = c.a[1]
    if type(a) is Sym and a.term[0] == 'fmtargs':
        arr = [x[1] for x in a.term[1:] if x[0] == 'v']
        for r in arr[1:]:
            v = E.read(st, r.obj, r.path)
            if type(v) is not Arr or not v.n.is_const():
                raise Stuck('format arguments')
            for i in range(v.n.const()):
                x = E.read(st, r.obj, r.path + (('x', P(i)),))
                if type(x) is Sym and x.term[0] == 'fmtargs':
                    for y in x.term[1:]:
                        if y[0] == 'v':
                            fmt_emit(E, st, c.a[0], y[1])
    rec = c.a[0]
    r = E.read(st, rec.obj, rec.path)
    if type(r) is Agg and len(r.fs) == 7:
        E.write(st, rec.obj, rec.path, Agg(r.ty, 0, r.fs[:6] + (T,)))
    return fmt_ok(E, c.dty)


def fmt_user(E, st, c):
    if len(c.a) > 1 and type(c.a[1]) is Ref:
        r = E.read(st, c.a[1].obj, c.a[1].path)
        if type(r) is Agg and 'Rec' in E.tys[r.ty]['s']:
            fmt_emit(E, st, c.a[1], c.a[0])
            r = E.read(st, c.a[1].obj, c.a[1].path)
            E.write(st, c.a[1].obj, c.a[1].path, Agg(r.ty, 0, r.fs[:6] + (T,)))
            return fmt_ok(E, c.dty)
    E.event(st, ('fmt', rd(E, st, c.a[0], c.t[0])))
    return Agg(c.dty, 0, (Agg(E.field_tys(c.dty, 0)[0], 0, ()),))
