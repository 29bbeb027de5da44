"""Abstract values and abstract states."""
from poly import *
import poly as _p


class V:
    """base of structured abstract values: immutable"""
    __slots__ = ()

    def key(self):
        return tuple(getattr(self, s) for s in self.__slots__ if s != '_h')

    def __eq__(self, o):
        return type(self) is type(o) and self.key() == o.key()

    def __ne__(self, o):
        return not self == o

    def __hash__(self):
        return hash((type(self).__name__, self.key()))

    def terms(self):
        return self.key()

    def subst(self, m, cache):
        return type(self)(*[_p._subst(x, m, cache) for x in self.key()])

    def __repr__(self):
        return '%s(%s)' % (type(self).__name__, ', '.join(map(show, self.key())))


class Agg(V):
    __slots__ = ('ty', 'var', 'fs')

    def __init__(self, ty, var, fs):
        self.ty, self.var, self.fs = ty, var, tuple(fs)


class Sym(V):
    """a value of which only the identity (term) is known; expanded lazily"""
    __slots__ = ('ty', 'term')

    def __init__(self, ty, term):
        self.ty, self.term = ty, term


class Key(V):
    """value of an opaque key type, identified by its number"""
    __slots__ = ('ty', 'ord')

    def __init__(self, ty, o):
        self.ty, self.ord = ty, P(o)


class Ref(V):
    """pointer: object + path; lo/n given for slices (elements lo..lo+n)"""
    __slots__ = ('obj', 'path', 'lo', 'n')

    def __init__(self, obj, path=(), lo=None, n=None):
        self.obj, self.path, self.lo, self.n = obj, path, lo, n


class Arr(V):
    """array contents: n elements, base contents and a list of later writes"""
    __slots__ = ('ety', 'n', 'base', 'ov')

    def __init__(self, ety, n, base, ov=()):
        self.ety, self.n, self.base, self.ov = ety, P(n), base, tuple(ov)


class Vec(V):
    __slots__ = ('arr', 'cap')

    def __init__(self, arr, cap=None):
        self.arr, self.cap = arr, cap


class SIter(V):
    """std::slice::Iter / IterMut over elements lo..hi of the array at obj/path"""
    __slots__ = ('ty', 'obj', 'path', 'lo', 'hi')

    def __init__(self, ty, obj, path, lo, hi):
        self.ty, self.obj, self.path, self.lo, self.hi = ty, obj, path, P(lo), P(hi)


class AIter(V):
    """array::IntoIter / vec::IntoIter: owns arr, elements lo..hi remain"""
    __slots__ = ('ty', 'arr', 'lo', 'hi')

    def __init__(self, ty, arr, lo, hi):
        self.ty, self.arr, self.lo, self.hi = ty, arr, P(lo), P(hi)


class Bool(V):
    __slots__ = ('f',)

    def __init__(self, f):
        self.f = f


class Word(V):
    """64-bit word as a boolean function of the bit index"""
    __slots__ = ('k', 'a', 'b')

    def __init__(self, k, a=None, b=None):
        self.k, self.a, self.b = k, a, b


class Marker(V):
    __slots__ = ('n',)

    def __init__(self, n):
        self.n = n


UNINIT = Marker('uninit')
MOVED = Marker('moved')
T = Bool(('T',))
F = Bool(('F',))


def neg(f):
    k = f[0]
    if k == 'T':
        return ('F',)
    if k == 'F':
        return ('T',)
    if k == 'ge':
        return ('ge', -f[1] - 1)
    if k == 'eq':
        return ('ne', f[1])
    if k == 'ne':
        return ('eq', f[1])
    if k == 'and':
        return ('or', neg(f[1]), neg(f[2]))
    if k == 'or':
        return ('and', neg(f[1]), neg(f[2]))
    if k == 'not':
        return f[1]
    return ('not', f)


def conj(a, b):
    if a[0] == 'F' or b[0] == 'F':
        return ('F',)
    if a[0] == 'T':
        return b
    if b[0] == 'T':
        return a
    return ('and', a, b)


def disj(a, b):
    return neg(conj(neg(a), neg(b)))


def ge(a, b=0):
    p = P(a) - P(b)
    if p.is_const():
        return ('T',) if p.const() >= 0 else ('F',)
    return ('ge', p)


def lt(a, b):
    return ge(P(b) - P(a) - 1)


def eq(a, b=0):
    p = P(a) - P(b)
    if p.is_const():
        return ('T',) if p.const() == 0 else ('F',)
    return ('eq', p)


class NeedSplit(Exception):
    """the current step depends on an undecided condition: redo it once per
    alternative (each alternative is a list of log entries to assume)"""

    def __init__(self, alts):
        self.alts = alts


class Infeasible(Exception):
    pass


class Stuck(Exception):
    """analysis gave up on this path (reported as undecided, never as a violation)"""


class HoleRead(Exception):
    pass


BOUNDED = [False]


class State:
    def __init__(self):
        self.objs = {}
        self.ge = []
        self.eq = []
        self.ne = []
        self.bools = {}       # form -> True   (opaque conditions known to hold / not hold)
        self.disc = {}        # term -> variant
        self.bits = []        # (word, idx poly, bool)
        self.zeros = []       # (word, lo, hi): bits in [lo,hi) are zero
        self.subs = []        # (word, word): bits of the first are bits of the second
        self.weqs = []        # equal words
        self.foralls = []     # (n atom, count poly, alts)
        self.alts = {}        # (lid, j) -> alternative
        self.log = []
        self.events = []
        self.trace = []
        self.loops = ()       # active loop indices (lid, n)
        self.uc = 0
        self.depth = 0
        self.heap = 0
        self.dead = False
        self.notes = set()

    def clone(self):
        s = State.__new__(State)
        s.objs = dict(self.objs)
        s.ge = list(self.ge)
        s.eq = list(self.eq)
        s.ne = list(self.ne)
        s.bools = dict(self.bools)
        s.disc = dict(self.disc)
        s.bits = list(self.bits)
        s.zeros = list(self.zeros)
        s.subs = list(self.subs)
        s.weqs = list(self.weqs)
        s.foralls = list(self.foralls)
        s.alts = dict(self.alts)
        s.log = list(self.log)
        s.events = list(self.events)
        s.trace = list(self.trace)
        s.loops = self.loops
        s.uc = self.uc
        s.depth = self.depth
        s.heap = self.heap
        s.dead = self.dead
        s.notes = set(self.notes)
        return s

    # ---------------------------------------------------------- linear facts
    def feas(self, extra_ge=(), extra_eq=()):
        seed = set()
        for p in extra_ge:
            seed |= p.atoms()
        for p in extra_eq:
            seed |= p.atoms()
        # atoms mentioned in the bounds of seed atoms belong to the question
        todo = list(seed)
        while todo:
            a = todo.pop()
            for q in (a.lo, a.hi) + tuple(a.ax):
                if q is not None:
                    for b in q.atoms():
                        if b not in seed:
                            seed.add(b)
                            todo.append(b)
        return feasible(self.ge + list(extra_ge), self.eq + list(extra_eq), seed)

    def entails_ge(self, p):
        p = P(p)
        if p.is_const():
            return p.const() >= 0
        if p in self.ge or entails_by_bounds(self.ge, self.eq, p):
            return True
        r = not self.feas([-p - 1])
        if r and p.degree() <= 1 and any(a.name == 'div' for a in p.atoms()):
            # of use where products of it are asked for
            self.ge.append(p)
        return r

    def entails_eq(self, p):
        p = P(p)
        if p.is_const():
            return p.const() == 0
        if p in self.eq or -p in self.eq:
            return True
        return self.entails_ge(p) and self.entails_ge(-p)

    def entails_ne(self, p):
        p = P(p)
        if p.is_const():
            return p.const() != 0
        for q in self.ne:
            if q == p or q == -p:
                return True
        if not self.feas([], [p]):
            return True
        for q in self.ne:
            d = p - q
            if self.entails_eq(d) or self.entails_eq(p + q):
                return True
        return False

    def test(self, f):
        """True / False / None"""
        k = f[0]
        if k == 'T':
            return True
        if k == 'F':
            return False
        if k == 'ge':
            if self.entails_ge(f[1]):
                return True
            if self.entails_ge(-f[1] - 1):
                return False
            # p >= 0 with p != -... handled by ne tightening
            return None
        if k == 'eq':
            if self.entails_ne(f[1]):
                return False
            if self.entails_eq(f[1]):
                return True
            if CNT[0] and self._relate(f[1]):
                return self.test(f)
            return None
        if k == 'ne':
            r = self.test(('eq', f[1]))
            return None if r is None else not r
        if k == 'not':
            r = self.test(f[1])
            return None if r is None else not r
        if k == 'and':
            a = self.test(f[1])
            if a is False:
                return False
            b = self.test(f[2])
            if b is False:
                return False
            return True if a and b else None
        if k == 'or':
            r = self.test(neg(f))
            return None if r is None else not r
        if k == 'bit':
            return self.test_bit(f[1], f[2])
        if k == 'wz':
            return self.test_wz(f[1])
        if k == 'weq':
            if f[1] == f[2]:
                return True
            return self.bools.get(f)
        if k == 'same':
            if f[1] == f[2]:
                return True
            return self.bools.get(f)
        r = self.bools.get(f)
        if r is None and k == 'b':
            for g, v in self.bools.items():
                if g[0] == 'b' and term_shape(g[1], f[1]) and self.term_eq(g[1], f[1]):
                    return v
            for fa in self.foralls:
                r = self.forall_bool(fa, f)
                if r is not None:
                    return r
        return r

    def term_eq(self, a, x):
        """the same term, up to integers known to be equal"""
        if a == x:
            return True
        if type(a) is tuple and type(x) is tuple:
            return len(a) == len(x) and all(self.term_eq(p, q) for p, q in zip(a, x))
        if type(a) in (Poly, Atom) and type(x) in (Poly, Atom):
            return self.entails_eq(P(a) - P(x))
        return False

    def forall_bool(self, fa, f):
        n, cnt, alts, flo = fa
        res = None
        for alt in alts:
            found = None
            for e in alt:
                if e[0] == 'f' and (e[1][0] == 'b' or (e[1][0] == 'not' and e[1][1][0] == 'b')):
                    val = e[1][0] == 'b'
                    b = e[1] if val else e[1][1]
                    if not term_shape(b[1], f[1]):
                        continue
                    j = term_index(b[1], f[1], n)
                    if j is None or not self.term_eq(subst(b[1], {n: j}), f[1]):
                        continue
                    if self.entails_ge(j - flo) and self.entails_ge(cnt - 1 - j):
                        found = val
                        break
            if found is None or (res is not None and res != found):
                return None
            res = found
        return res

    def _relate(self, p):
        """counts up to the same position are the same count, and counting
        further cannot give less; True if something new was learnt"""
        mine = [a for a in p.atoms() if a.name == 'cnt']
        if not mine:
            return False
        new = False
        all_ = {a for q in self.ge + self.eq for a in q.atoms() if a.name == 'cnt'} | set(mine)
        for a in mine:
            for b in sorted(all_, key=lambda a: a.id):
                if a is b or a.args[0] != b.args[0]:
                    continue
                d = P(a.args[1]) - P(b.args[1])
                x = P(a) - P(b)
                if self.entails_eq(d):
                    if not self.entails_eq(x):
                        self.eq.append(x)
                        new = True
                elif self.entails_ge(d):
                    if not self.entails_ge(x):
                        self.ge.append(x)
                        new = True
                elif self.entails_ge(-d):
                    if not self.entails_ge(-x):
                        self.ge.append(-x)
                        new = True
        return new

    def decide(self, f):
        if type(f) is Bool:
            f = f.f
        r = self.test(f)
        if r is not None:
            return r
        # descend to an undecided leaf
        while f[0] in ('and', 'or', 'not'):
            if f[0] == 'not':
                f = f[1]
            else:
                f = f[1] if self.test(f[1]) is None else f[2]
        if f[0] == 'weq':
            i = P(atom('wd', (f[1], f[2]), ZERO, P(63)))
            a, b = self.bit_form(f[1], i), self.bit_form(f[2], i)
            raise NeedSplit([[('f', f)], [('f', neg(f)), ('f', a), ('f', neg(b))], [('f', neg(f)), ('f', neg(a)), ('f', b)]])
        if BOUNDED[0] and f[0] == 'b':
            for g in self.bools:
                if g[0] == 'b' and term_shape(g[1], f[1]):
                    for d in term_diffs(g[1], f[1]):
                        if self.test(eq(d)) is None:
                            raise NeedSplit([[('f', eq(d))], [('f', neg(eq(d)))]])
        raise NeedSplit([[('f', f)], [('f', neg(f))]])

    # ---------------------------------------------------------- assuming
    def assume(self, f):
        """adds the condition; False if the state becomes infeasible"""
        if type(f) is Bool:
            f = f.f
        if self.dead:
            return False
        r = self.test(f)
        if r is True:
            return True
        if r is False:
            self.dead = True
            return False
        self._add(f)
        return not self.dead

    def _add(self, f):
        self.log.append(('f', f))
        k = f[0]
        if k == 'ge':
            self.ge.append(f[1])
            self._tighten()
        elif k == 'eq':
            self.eq.append(f[1])
            if CNT[0]:
                self._relate(f[1])
            self._tighten()
            self._consistency()
        elif k == 'ne':
            p = f[1]
            if self.entails_ge(p):
                self._add(('ge', p - 1))
            elif self.entails_ge(-p):
                self._add(('ge', -p - 1))
            else:
                self.ne.append(p)
        elif k == 'and':
            self.log.pop()
            self.assume(f[1]) and self.assume(f[2])
        elif k == 'not' and f[1][0] in ('bit', 'wz'):
            g = f[1]
            if g[0] == 'bit':
                self.set_bit(g[1], g[2], False)
            else:
                self.bools[g] = False
                w = g[1]
                self._card(w, False)
                if w.k == 'lm' and not self.dead:
                    self.assume(ge(w.a - 1))
        elif k == 'bit':
            self.set_bit(f[1], f[2], True)
        elif k == 'or':
            a, b = self.test(f[1]), self.test(f[2])
            if a is False:
                self.assume(f[2])
            elif b is False:
                self.assume(f[1])
            else:
                self.bools[f] = True
        elif k == 'weq':
            self.bools[f] = True
            self.weqs.append((f[1], f[2]))
            self._weq(f[1], f[2])
        elif k == 'wz':
            self.bools[f] = True
            self.add_zeros(f[1], ZERO, P(64))
            self._card(f[1], True)
            for i in list(dict.fromkeys(i for _, i, _ in self.bits)):
                if self.dead:
                    break
                g = self.bit_form(f[1], i)
                if self.test(g) is not False:
                    self.assume(neg(g))
            self._bitconsist()
        elif k == 'not':
            self.bools[f[1]] = False
        else:
            self.bools[f] = True

    def pc_poly(self, w):
        """the number of bits of w, as far as its structure gives it"""
        if w.k == 'c':
            return P(bin(w.a).count('1'))
        if w.k == 'bit':
            return P(1)
        if w.k == 'lm':
            return P(w.a)
        d = None
        if w.k == 'and' and w.b.k == 'not' and w.b.a.k == 'bit':
            i, d = w.b.a.a, (-1, 0)
        elif w.k == 'or' and w.b.k == 'bit':
            i, d = w.b.a, (0, 1)
        elif w.k == 'xor' and w.b.k == 'bit':
            i, d = w.b.a, (-1, 1)
        if d is not None:
            b = self.test_bit(w.a, i)
            p = self.pc_poly(w.a)
            return None if b is None or p is None else p + (d[0] if b else d[1])
        return P(card_atom(w))

    def _card(self, w, zero):
        c = P(card_atom(w))
        for p in (c, self.pc_poly(w)):
            if p is not None and not self.dead:
                f = eq(p) if zero else ge(p - 1)
                if p is c or self.test(f) is not True:
                    self.assume(f)

    def set_bit(self, w, i, v):
        i = P(i)
        self.bits.append((w, i, v))
        if CNT[0]:
            key, idx = bit_key(w, i)
            self.assume(eq(cnt(key, idx + 1) - cnt(key, idx) - (1 if v else 0)))
        if w.k in COMPOSITE and not self.dead:
            f = self.bit_form(w, i)
            if f[0] != 'bit' or f[1] != w:
                self.assume(f if v else neg(f))
        for a, b in list(self.weqs):
            if a == w or b == w:
                o = b if a == w else a
                if not self.dead and self.test_bit(o, i) is None:
                    self.set_bit(o, i, v)
        for a, b in list(self.subs):
            if a == w and v or b == w and not v:
                o = b if v else a
                if not self.dead and self.test_bit(o, i) is None:
                    self.set_bit(o, i, v)
        for z in list(self.zeros):
            self._outside(w, i, v, z)
        if v and w in ENDS:
            lo, hi = ENDS[w]
            if lo is not None and not self.dead and not self.entails_ge(i - lo):
                self.assume(ge(i - lo))
            if hi is not None and not self.dead and not self.entails_ge(hi - i):
                self.assume(ge(hi - i))

    def _outside(self, w, i, v, z):
        """a set bit lies outside a range of zeros"""
        w2, lo, hi = z
        if self.dead or not (w2 == w and v or w2.k == 'and' and w in (w2.a, w2.b)):
            return
        low = self.entails_ge(i - lo)
        high = self.entails_ge(hi - 1 - i)
        if low and high:
            if w2 != w and self.test_bit(w2, i) is not False:
                f = self.bit_form(w2, i)
                if self.test(f) is not False:
                    self.assume(neg(f))
            return
        if w2 != w and self.test_bit(w2, i) is not True:
            return
        if low:
            if not self.entails_ge(i - hi):
                self.assume(ge(i - hi))
        elif high:
            self.assume(ge(lo - 1 - i))

    def add_zeros(self, w, lo, hi):
        z = (w, P(lo), P(hi))
        self.zeros.append(z)
        for x, i, v in list(self.bits):
            self._outside(x, i, v, z)
        if w.k in ('or',):
            self.add_zeros(w.a, lo, hi)
            self.add_zeros(w.b, lo, hi)
        elif w.k == 'shr':
            self.add_zeros(w.a, lo + P(w.b), hi + P(w.b))
        elif w.k == 'shl':
            self.add_zeros(w.a, lo - P(w.b), hi - P(w.b))

    def _weq(self, a, b):
        idx = [i for _, i, _ in self.bits]
        for w in (a, b):
            word_indices(w, idx)
        for i in idx:
            x, y = self.test_bit(a, i), self.test_bit(b, i)
            if x is not None and y is not None and x != y:
                self.dead = True
                return
            if x is None and y is not None:
                self.set_bit(a, i, y)
            elif y is None and x is not None:
                self.set_bit(b, i, x)

    def _bitconsist(self):
        for (w, i, v) in self.bits:
            if v:
                for (w2, lo, hi) in self.zeros:
                    if w2 == w and self.entails_ge(i - lo) and self.entails_ge(hi - i - 1):
                        self.dead = True
                        return

    def _tighten(self):
        if not self.feas_all():
            self.dead = True
            return
        if self.ne:
            rest = []
            changed = False
            for p in self.ne:
                if self.entails_ge(p):
                    self.ge.append(p - 1)
                    changed = True
                elif self.entails_ge(-p):
                    self.ge.append(-p - 1)
                    changed = True
                else:
                    rest.append(p)
            if changed:
                self.ne = rest
                self._tighten()

    def feas_all(self):
        last = (self.ge[-1:] or []) + (self.eq[-1:] or [])
        seed = set()
        for p in last:
            seed |= p.atoms()
        todo = list(seed)
        while todo:
            a = todo.pop()
            for q in (a.lo, a.hi) + tuple(a.ax):
                if q is not None:
                    for b in q.atoms():
                        if b not in seed:
                            seed.add(b)
                            todo.append(b)
        return feasible(self.ge, self.eq, seed)

    def feas_all2(self):
        return feasible(self.ge, self.eq, None)

    def _consistency(self):
        """facts about the same cell must agree once indices are known equal"""
        by = {}
        for t, v in self.disc.items():
            s = cell_split(t)
            if s is not None:
                by.setdefault(s[0], []).append((s[1], v))
        for a, l in by.items():
            for i in range(len(l)):
                for j in range(i):
                    if l[i][1] != l[j][1] and self.entails_eq(l[i][0] - l[j][0]):
                        self.dead = True
                        return
        for i, (w, x, v) in enumerate(self.bits):
            for (w2, y, v2) in self.bits[:i]:
                if v != v2 and (w == w2 or self.same_word(w, w2)) and self.entails_eq(x - y):
                    self.dead = True
                    return

    # ---------------------------------------------------------- variants
    def variant(self, term):
        """known variant of a symbolic enum value, or None"""
        v = self.disc.get(term)
        if v is not None:
            return v
        s = cell_split(term)
        if s is not None:
            arr, idx = s
            for t, v in self.disc.items():
                s2 = cell_split(t)
                if s2 is not None and s2[0] == arr and t[0] == term[0]:
                    d = s2[1] - idx
                    if d.is_const():
                        if d.const() == 0:
                            return v
                        continue
                    if self.entails_eq(d):
                        return v
            for fa in self.foralls:
                v = self.forall_variant(fa, term, arr, idx)
                if v is not None:
                    return v
        return None

    def forall_variant(self, fa, term, arr, idx):
        n, cnt, alts, flo = fa
        res = None
        for alt in alts:
            found = None
            for e in alt:
                if e[0] == 'disc':
                    s2 = cell_split(e[1])
                    if s2 is None or s2[0] != arr or e[1][0] != term[0]:
                        continue
                    j = solve_index(s2[1], n, idx)
                    if j is None:
                        continue
                    if self.entails_ge(j - flo) and self.entails_ge(cnt - 1 - j):
                        found = e[2]
                        break
            if found is None:
                return None
            if res is not None and res != found:
                return None
            res = found
        return res

    def saturate(self):
        """where a cell or word is known to be different from what every
        iteration of a loop saw, the position lies outside the range the loop
        went over"""
        for n, cnt, alts, flo in list(self.foralls):
            if not alts:
                continue
            js = None
            for alt in alts:
                got = []
                for e in alt:
                    self._against(e, n, got)
                js = got if js is None else [j for j in js if j in got]
                if not js:
                    break
            for j in js or ():
                if self.entails_ge(j - flo):
                    self.assume(ge(j - cnt))
                elif self.entails_ge(cnt - 1 - j):
                    self.assume(ge(flo - 1 - j))
                if self.dead:
                    return

    def _against(self, e, n, out):
        """positions at which something known contradicts the condition e"""
        if e[0] == 'disc':
            s2 = cell_split(e[1])
            if s2 is None:
                return
            for term, v in self.disc.items():
                s = cell_split(term)
                if s is not None and v != e[2] and e[1][0] == term[0] and s2[0] == s[0]:
                    j = solve_index(s2[1], n, s[1])
                    if j is not None and j not in out:
                        out.append(j)
        elif e[0] == 'f' and (e[1][0] == 'bit' or (e[1][0] == 'not' and e[1][1][0] == 'bit')):
            val = e[1][0] == 'bit'
            b = e[1] if val else e[1][1]
            for w, i, v in self.bits:
                if v != val and (b[1] == w or b[1].k == w.k == 'v'):
                    j = solve_bit(b, n, w, i)
                    if j is not None and j not in out and (b[1] == w or self.same_word(subst(b[1], {n: j}), w)):
                        out.append(j)

    def set_variant(self, term, v):
        k = self.variant(term)
        if k is not None:
            if k != v:
                self.dead = True
            return not self.dead
        self.log.append(('disc', term, v))
        self.disc[term] = v
        s = cell_split(term)
        if s is not None and CNT[0]:
            key = ('d', s[0])
            self.assume(eq(cnt(key, s[1] + 1) - cnt(key, s[1]) - (1 if v == 1 else 0)))
        return True

    def apply(self, entry):
        k = entry[0]
        if k == 'f':
            return self.assume(entry[1])
        if k == 'disc':
            return self.set_variant(entry[1], entry[2])
        if k == 'alt':
            self.log.append(entry)
            self.alts[(entry[1], entry[2])] = entry[3]
            return True
        if k == 'zeros':
            self.log.append(entry)
            self.add_zeros(*entry[1:])
            return True
        if k == 'sub':
            self.log.append(entry)
            self.subs.append(entry[1:])
            return True
        raise Exception(entry)

    # ---------------------------------------------------------- words
    def test_bit(self, w, i):
        """bit i of word w: True/False/None"""
        i = P(i)
        if (w, i) in _ASK:
            return None
        _ASK.append((w, i))
        try:
            return self._test_bit(w, i)
        finally:
            _ASK.pop()

    def _test_bit(self, w, i):
        for (w2, j, v) in self.bits:
            if w2 == w or w2.k == 'v' and w.k == 'v' and self.same_word(w2, w):
                d = i - j
                if d.is_const():
                    if d.const() == 0:
                        return v
                elif self.entails_eq(d):
                    return v
        for (w2, lo, hi) in self.zeros:
            if w2 == w or w2.k == 'v' and w.k == 'v' and self.same_word(w2, w):
                if self.entails_ge(i - lo) and self.entails_ge(hi - i - 1):
                    return False
            elif w2.k == 'and' and (w2.a == w or w2.b == w):
                o = w2.b if w2.a == w else w2.a
                if self.entails_ge(i - lo) and self.entails_ge(hi - i - 1) and self.test_bit(o, i) is True:
                    return False
        k = w.k
        if k == 'c':
            if i.is_const():
                return bool((w.a >> i.const()) & 1) if 0 <= i.const() < 64 else False
            return self.test(const_form(w.a, i))
        if k == 'bit':
            return self.test(eq(i, w.a))
        if k == 'lm':
            return self.test(lt(i, w.a))
        if k == 'not':
            r = self.test_bit(w.a, i)
            return None if r is None else not r
        if k == 'and':
            a = self.test_bit(w.a, i)
            if a is False:
                return False
            b = self.test_bit(w.b, i)
            if b is False:
                return False
            return True if a and b else None
        if k == 'or':
            a = self.test_bit(w.a, i)
            if a is True:
                return True
            b = self.test_bit(w.b, i)
            if b is True:
                return True
            return False if a is False and b is False else None
        if k == 'xor':
            a = self.test_bit(w.a, i)
            b = self.test_bit(w.b, i)
            return None if a is None or b is None else a != b
        if k == 'shr':
            if self.entails_ge(63 - i - w.b):
                return self.test_bit(w.a, i + w.b)
            if self.entails_ge(i + w.b - 64):
                return False
            return None
        if k == 'shl':
            if self.entails_ge(i - w.b):
                return self.test_bit(w.a, i - w.b)
            if self.entails_ge(w.b - i - 1):
                return False
            return None
        if self.bools.get(('wz', w)) is True:
            return False
        for fa in self.foralls:
            r = self.forall_bit(fa, w, i)
            if r is not None:
                return r
        for x, y in self.weqs:
            if x == w or y == w:
                r = self.test_bit(y if x == w else x, i)
                if r is not None:
                    return r
        for x, y in self.subs:
            if y == w and x != w and self.test_bit(x, i) is True:
                return True
            if x == w and y != w and self.test_bit(y, i) is False:
                return False
        return None

    def bit_form(self, w, i):
        """the condition 'bit i of w is set' over words of unknown structure"""
        i = P(i)
        k = w.k
        if k == 'c':
            return const_form(w.a, i)
        if k == 'bit':
            return eq(i, w.a)
        if k == 'lm':
            return lt(i, w.a)
        if k == 'not':
            return neg(self.bit_form(w.a, i))
        if k == 'and':
            return conj(self.bit_form(w.a, i), self.bit_form(w.b, i))
        if k == 'or':
            return disj(self.bit_form(w.a, i), self.bit_form(w.b, i))
        if k == 'xor':
            a, b = self.bit_form(w.a, i), self.bit_form(w.b, i)
            return disj(conj(a, neg(b)), conj(neg(a), b))
        if k == 'shr':
            return conj(ge(63 - i - w.b), self.bit_form(w.a, i + w.b))
        if k == 'shl':
            return conj(ge(i - w.b), self.bit_form(w.a, i - w.b))
        return ('bit', w, i)

    def forall_bit(self, fa, w, i):
        n, cnt, alts, flo = fa
        res = None
        for alt in alts:
            found = None
            for e in alt:
                if e[0] == 'f' and (e[1][0] == 'bit' or (e[1][0] == 'not' and e[1][1][0] == 'bit')):
                    val = e[1][0] == 'bit'
                    b = e[1] if val else e[1][1]
                    if b[1] != w and not (b[1].k == w.k == 'v'):
                        continue
                    j = solve_bit(b, n, w, i)
                    if j is None:
                        continue
                    if b[1] != w and not self.same_word(subst(b[1], {n: j}), w):
                        continue
                    if self.entails_ge(j - flo) and self.entails_ge(cnt - 1 - j):
                        found = val
                        break
            if found is None:
                return None
            if res is not None and res != found:
                return None
            res = found
        return res

    def same_word(self, a, b):
        if a == b:
            return True
        if a.k != 'v' or b.k != 'v':
            return False
        s, t = cell_split(a.a), cell_split(b.a)
        return s is not None and t is not None and s[0] == t[0] and self.entails_eq(s[1] - t[1])

    def decide_bit(self, w, i):
        r = self.test_bit(w, i)
        if r is not None:
            return r
        return self.decide(self.bit_form(w, i))

    def test_wz(self, w):
        r = self.bools.get(('wz', w))
        if r is not None:
            return r
        for (w2, j, v) in self.bits:
            if v and w2 == w:
                return False
        k = w.k
        if k == 'c':
            return w.a == 0
        if k == 'bit':
            return False
        if k == 'lm':
            return self.test(eq(w.a))
        if k == 'and':
            for x, y in ((w.a, w.b), (w.b, w.a)):
                s = single_bit(y)
                if s is not None:
                    r = self.test_bit(x, s)
                    return None if r is None else not r
            a, b = self.test_wz(w.a), self.test_wz(w.b)
            if a or b:
                return True
        if k == 'or':
            a, b = self.test_wz(w.a), self.test_wz(w.b)
            if a is False or b is False:
                return False
            return True if a and b else None
        for (w2, lo, hi) in self.zeros:
            if w2 == w and self.entails_ge(-lo) and self.entails_ge(hi - 64):
                return True
        c = P(card_atom(w))
        if any(card_atom(w) in p.atoms() for p in self.ge + self.eq):
            if self.entails_ge(c - 1):
                return False
            if self.entails_ge(-c):
                return True
        return None

    def decide_wz(self, w):
        r = self.test_wz(w)
        if r is not None:
            return r
        if w.k == 'and':
            for x, y in ((w.a, w.b), (w.b, w.a)):
                s = single_bit(y)
                if s is not None:
                    return not self.decide_bit(x, s)
        if w.k == 'lm':
            return self.decide(eq(w.a))
        if w.k == 'or':
            return self.decide_wz(w.a) and self.decide_wz(w.b)
        raise NeedSplit([[('f', ('wz', w))], [('f', ('not', ('wz', w)))]])


_ASK = []
COMPOSITE = ('c', 'bit', 'lm', 'not', 'and', 'or', 'xor', 'shr', 'shl')


def disj(a, b):
    return neg(conj(neg(a), neg(b)))


def const_form(c, i):
    """bit i of the constant c is set"""
    if c == 2 ** 64 - 1:
        return ('T',)
    f = ('F',)
    b = 0
    while c >> b:
        if (c >> b) & 1:
            e = b
            while (c >> e) & 1:
                e += 1
            f = disj(f, conj(ge(i - b), lt(i, e)))
            b = e
        else:
            b += 1
    return f


def word_indices(w, out):
    if w.k in ('bit', 'lm') and w.a is not None:
        out.append(P(w.a))
    for x in (w.a, w.b):
        if type(x) is Word:
            word_indices(x, out)


CNT = [False]


def cnt(key, idx):
    """number of positions below idx at which the condition `key` holds"""
    idx = P(idx)
    if idx == ZERO:
        return ZERO
    a = atom('cnt', (key, idx), ZERO)
    if not a.ax:
        a.ax = (idx - P(a),)
    return P(a)


_p._rebuilders['cnt'] = lambda args: cnt(args[0], args[1]).single() or ZERO


def bit_key(w, i):
    i = P(i)
    if w.k == 'v':
        s = cell_split(w.a)
        if s is not None:
            return ('w', s[0]), s[1] * 64 + i
    return ('w', w), i


def single_bit(w):
    if w.k == 'bit':
        return P(w.a)
    if w.k == 'c' and w.a and w.a & (w.a - 1) == 0:
        return P(w.a.bit_length() - 1)
    return None


def card_atom(w):
    return atom('card', (w,), ZERO, P(64))


def cell_split(term):
    """('cell', arr, idx) or a path below it -> (path key, idx)"""
    if type(term) is not tuple or not term:
        return None
    if term[0] == 'cell':
        return (term[1], term[2])
    if term[0] in ('fld',):
        s = cell_split(term[1])
        if s is not None:
            return (('fld', s[0]) + term[2:], s[1])
    return None


def term_shape(a, x):
    """could the two terms be the same one?"""
    if type(a) is tuple and type(x) is tuple:
        return len(a) == len(x) and all(term_shape(p, q) for p, q in zip(a, x))
    if type(a) in (Poly, Atom) and type(x) in (Poly, Atom):
        return True
    return a == x


def term_diffs(a, x):
    if type(a) is tuple and type(x) is tuple:
        return [d for p, q in zip(a, x) for d in term_diffs(p, q)]
    if type(a) in (Poly, Atom) and type(x) in (Poly, Atom):
        return [P(a) - P(x)]
    return []


def term_index(a, x, n):
    """value of n for which a could be x"""
    if type(a) is tuple and type(x) is tuple:
        for p, q in zip(a, x):
            j = term_index(p, q, n)
            if j is not None:
                return j
        return None
    if type(a) in (Poly, Atom) and type(x) in (Poly, Atom):
        return solve_index(P(a), n, P(x))
    return None


def solve_index(p, n, t):
    """j such that p[n := j] == t, for p = a + c*n with c = +-1"""
    c = p.t.get((n,))
    if c not in (1, -1):
        return None
    rest = p - Poly({(n,): c})
    if n in rest.atoms():
        return None
    for a in rest.atoms():
        if _p._mentions(a, {n: ZERO}, {}):
            return None
    return (P(t) - rest) * c


def solve_bit(b, n, w, i):
    """j such that bit b[2] of word b[1] is bit i of w for n := j"""
    j = solve_index(b[2], n, i)
    if j is None and b[1].k == w.k == 'v':
        s, t = cell_split(b[1].a), cell_split(w.a)
        if s is not None and t is not None and s[0] == t[0]:
            # words of one array, numbered through
            j = solve_index(P(s[1]) * 64 + b[2], n, P(t[1]) * 64 + i)
    return j


def _rebuild_card(args):
    w = args[0]
    return card_atom(w)


_p._rebuilders['card'] = _rebuild_card
