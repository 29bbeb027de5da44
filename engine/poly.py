"""Integer polynomials over interned atoms, and the linear-constraint domain
(convex polyhedra with monomials as dimensions) used to decide inclusions."""
from fractions import Fraction
from math import gcd
from functools import lru_cache

_atoms = {}
_alist = []


class Atom:
    """An interned symbolic integer (or boolean / word / value identity).

    name: string; args: tuple of Poly / Atom / other hashables.
    lo, hi: optional Poly bounds; ax: tuple of Poly known to be >= 0."""
    __slots__ = ('id', 'name', 'args', 'lo', 'hi', 'ax', 'nonneg', 'taint')

    def __repr__(self):
        if not self.args:
            return self.name
        return '%s(%s)' % (self.name, ','.join(map(show, self.args)))


def show(x):
    if isinstance(x, tuple):
        return '(' + ' '.join(map(show, x)) + ')'
    return str(x) if not isinstance(x, Poly) else repr(x)


def atom(name, args=(), lo=None, hi=None, ax=(), taint=False):
    # the same term read at two types is two values
    key = (name, args, lo, hi) if name in ('ordof', 'val') else (name, args)
    a = _atoms.get(key)
    if a is not None:
        return a
    a = Atom()
    a.id = len(_alist)
    a.name = name
    a.args = args
    a.lo = lo
    a.hi = hi
    a.ax = ax
    a.taint = taint
    a.nonneg = lo is not None and lo.is_const() and lo.const() >= 0
    _atoms[key] = a
    _alist.append(a)
    if name in ('tz', 'hb'):
        # the word's lowest or highest set bit is spoken of
        e = ENDS.get(args[0], (None, None))
        ENDS[args[0]] = (P(a), e[1]) if name == 'tz' else (e[0], P(a))
    return a


ENDS = {}
_fresh = [0]


def fresh(name, **kw):
    _fresh[0] += 1
    return atom('%s#%d' % (name, _fresh[0]), **kw)


class Poly:
    __slots__ = ('t', 'h')

    def __init__(self, t):
        self.t = t            # dict mono(tuple of atoms sorted by id) -> int coef
        self.h = None

    def __hash__(self):
        if self.h is None:
            self.h = hash(frozenset((tuple(a.id for a in m), c) for m, c in self.t.items()))
        return self.h

    def __eq__(self, o):
        return isinstance(o, Poly) and self.t == o.t

    def __ne__(self, o):
        return not self == o

    def is_const(self):
        return not self.t or (len(self.t) == 1 and () in self.t)

    def const(self):
        return self.t.get((), 0)

    def __add__(self, o):
        o = P(o)
        if not o.t:
            return self
        r = dict(self.t)
        for m, c in o.t.items():
            v = r.get(m, 0) + c
            if v:
                r[m] = v
            else:
                r.pop(m, None)
        return Poly(r)

    __radd__ = __add__

    def __neg__(self):
        return Poly({m: -c for m, c in self.t.items()})

    def __sub__(self, o):
        return self + (-P(o))

    def __rsub__(self, o):
        return P(o) + (-self)

    def __mul__(self, o):
        o = P(o)
        r = {}
        for m1, c1 in self.t.items():
            for m2, c2 in o.t.items():
                m = m1 + m2 if not m1 or not m2 else tuple(sorted(m1 + m2, key=_aid))
                v = r.get(m, 0) + c1 * c2
                if v:
                    r[m] = v
                else:
                    r.pop(m, None)
        return Poly(r)

    __rmul__ = __mul__

    def atoms(self):
        s = set()
        for m in self.t:
            s.update(m)
        return s

    def linked(self):
        """atoms of the polynomial, and what quotients among them are of"""
        s = self.atoms()
        for a in list(s):
            if a.name == 'div':
                for q in a.args:
                    s |= q.linked()
        return s

    def single(self):
        """the atom if self is exactly one atom"""
        if len(self.t) == 1:
            (m, c), = self.t.items()
            if c == 1 and len(m) == 1:
                return m[0]
        return None

    def degree(self):
        return max((len(m) for m in self.t), default=0)

    def __repr__(self):
        if not self.t:
            return '0'
        s = ''
        for m, c in sorted(self.t.items(), key=lambda x: (-len(x[0]), [a.id for a in x[0]])):
            n = '*'.join(map(repr, m))
            if not m:
                p = _cst(abs(c))
            elif abs(c) == 1:
                p = n
            else:
                p = _cst(abs(c)) + '*' + n
            s += (' - ' if c < 0 else ' + ') + p
        return s[3:] if s.startswith(' + ') else '-' + s[3:]


def _cst(c):
    for b in (64, 63, 32, 31):
        for d in (-2, -1, 0, 1):
            if c == 2 ** b + d:
                return '2^%d%s' % (b, '' if d == 0 else '%+d' % d)
    return str(c)


def _aid(a):
    return a.id


_consts = {}


def P(x):
    if type(x) is Poly:
        return x
    if type(x) is Atom:
        return Poly({(x,): 1})
    r = _consts.get(x)
    if r is None:
        r = _consts[x] = Poly({(): int(x)} if x else {})
    return r


ZERO = P(0)
ONE = P(1)


def _wrap(x):
    return x


# ------------------------------------------------------------ substitution
def subst(x, m):
    """Substitute atoms (map Atom -> Poly/any term) in polys, atoms, tuples."""
    if not m:
        return x
    cache = {}
    return _subst(x, m, cache)


def _mentions(a, m, cache):
    k = ('m', a)
    r = cache.get(k)
    if r is None:
        r = a in m
        if not r:
            for x in a.args:
                if _ment(x, m, cache):
                    r = True
                    break
        cache[k] = r
    return r


def _ment(x, m, cache):
    if type(x) is Atom:
        return _mentions(x, m, cache)
    if type(x) is Poly:
        return any(_mentions(a, m, cache) for mm in x.t for a in mm)
    if type(x) is tuple:
        return any(_ment(y, m, cache) for y in x)
    if hasattr(x, 'terms'):
        return any(_ment(y, m, cache) for y in x.terms())
    return False


def _subst(x, m, cache):
    t = type(x)
    if t is Atom:
        r = _satom(x, m, cache)
        if type(r) is Poly:
            s = r.single()
            return s if s is not None else r
        return r
    if t is Poly:
        if not any(_mentions(a, m, cache) for mm in x.t for a in mm):
            return x
        r = ZERO
        for mono, c in x.t.items():
            p = P(c)
            for a in mono:
                p = p * P(_satom(a, m, cache))
            r = r + p
        return r
    if t is tuple:
        return tuple(_subst(y, m, cache) for y in x)
    if hasattr(x, 'subst'):
        return x.subst(m, cache)
    return x


def _satom(a, m, cache):
    if a in m:
        return m[a]
    if not _mentions(a, m, cache):
        return a
    k = ('s', a)
    r = cache.get(k)
    if r is None:
        args = tuple(_subst(y, m, cache) for y in a.args)
        lo = None if a.lo is None else _subst(a.lo, m, cache)
        hi = None if a.hi is None else _subst(a.hi, m, cache)
        r = rebuild(a.name, args, lo, hi, a, m, cache)
        cache[k] = r
    return r


_rebuilders = {}


def rebuild(name, args, lo, hi, a, m, cache):
    f = _rebuilders.get(name)
    if f is not None:
        return f(args)
    r = atom(name, args, lo, hi, tuple(_subst(y, m, cache) for y in a.ax), a.taint)
    return r


def tainted(x, cache=None):
    if cache is None:
        cache = {}
    t = type(x)
    if t is Atom:
        if x.taint:
            return True
        r = cache.get(x)
        if r is None:
            cache[x] = False
            r = cache[x] = any(tainted(y, cache) for y in x.args)
        return r
    if t is Poly:
        return any(tainted(a, cache) for m in x.t for a in m)
    if t is tuple:
        return any(tainted(y, cache) for y in x)
    if hasattr(x, 'terms'):
        return any(tainted(y, cache) for y in x.terms())
    return False


# ------------------------------------------------------------ linear feasibility
class Simplex:
    """General simplex over the rationals; feasibility only."""

    def __init__(self):
        self.rows = {}    # basic var -> dict nonbasic -> Fraction
        self.val = {}
        self.lo = {}
        self.hi = {}
        self.n = 0
        self.gave_up = False

    def check(self):
        rows, val, lo, hi = self.rows, self.val, self.lo, self.hi
        it = 0
        while True:
            it += 1
            if it > 3000:
                self.gave_up = True
                return True   # give up: treat as feasible
            b = None
            for x in sorted(rows):
                v = val[x]
                if x in lo and v < lo[x]:
                    b, need, target = x, 1, lo[x]
                    break
                if x in hi and v > hi[x]:
                    b, need, target = x, -1, hi[x]
                    break
            if b is None:
                return True
            row = rows[b][1]
            piv = None
            for y in sorted(row):
                a = row[y]
                inc = (a > 0) == (need > 0)
                if inc:
                    if y not in hi or val[y] < hi[y]:
                        piv = y
                        break
                else:
                    if y not in lo or val[y] > lo[y]:
                        piv = y
                        break
            if piv is None:
                return False
            self.pivot(b, piv, target)

    def pivot(self, b, y, target):
        """rows are (d, {v: c}) for d * basic = sum c * v, all integers"""
        rows, val = self.rows, self.val
        d, row = rows.pop(b)
        a = row.pop(y)
        theta = (target - val[b]) * Fraction(d, a)
        val[b] = target
        val[y] += theta
        if a > 0:
            new = {k: -v for k, v in row.items()}
            new[b] = d
        else:
            a = -a
            new = dict(row)
            new[b] = -d
        items = list(new.items())
        for x, (dx, r) in rows.items():
            c = r.pop(y, None)
            if c:
                val[x] += theta * c if dx == 1 else theta * Fraction(c, dx)
                g = gcd(c, a)
                m, c = a // g, c // g
                if m != 1:
                    for k in r:
                        r[k] *= m
                    dx *= m
                for k, v in items:
                    nv = r.get(k, 0) + c * v
                    if nv:
                        r[k] = nv
                    else:
                        r.pop(k, None)
                if dx != 1:
                    g = gcd(dx, *r.values())
                    if g != 1:
                        dx //= g
                        for k in r:
                            r[k] //= g
                rows[x] = (dx, r)
        rows[y] = (a, new)


def _gcd_tighten(p):
    """p >= 0 over the integers, divided by the gcd of its coefficients."""
    g = 0
    for m, c in p.t.items():
        if m:
            g = gcd(g, c)
    if g > 1:
        t = {m: c // g for m, c in p.t.items() if m}
        c0 = p.const() // g
        if c0:
            t[()] = c0
        return Poly(t)
    return p


def solve_eqs(eqs):
    """Gaussian elimination by monomials of +-1 coefficient.  Returns a list of
    (mono, Poly) replacements (mono -> poly), in order, and leftover eqs; None if
    contradictory."""
    eqs = list(eqs)
    subs = []
    left = []
    work = eqs
    while work:
        e = work.pop()
        for m, p in subs:
            e = _lsub(e, m, p)
        if e.is_const():
            if e.const() != 0:
                return None
            continue
        best = None
        for m, c in e.t.items():
            if m and abs(c) == 1:
                k = (len(m), -max(a.id for a in m))
                if best is None or k < best[0]:
                    best = (k, m, c)
        if best is None:
            left.append(e)
            continue
        _, m, c = best
        r = Poly({k: (-v if c == 1 else v) for k, v in e.t.items() if k != m})
        subs = [(m2, _lsub(p2, m, r)) for m2, p2 in subs]
        subs.append((m, r))
        left2 = []
        for l in left:
            l2 = _lsub(l, m, r)
            (work if l2 != l else left2).append(l2)
        left = left2
    return subs, left


def _lsub(p, m, r):
    c = p.t.get(m)
    if not c:
        return p
    t = dict(p.t)
    del t[m]
    q = Poly(t)
    return q + r * c


def lin_feasible(ges, eqs, model=None):
    """Is the conjunction feasible (over the rationals, after integer tightening)?"""
    s = solve_eqs(eqs)
    if s is None:
        return False
    subs, left = s
    cons = set()
    for g in ges:
        for m, p in subs:
            g = _lsub(g, m, p)
        g = _gcd_tighten(g)
        if g.is_const():
            if g.const() < 0:
                return False
            continue
        cons.add(g)
    for e in left:
        cons.add(e)
        cons.add(-e)
    if not cons:
        return True
    # merge constraints with the same linear part
    best = {}
    for g in cons:
        key = frozenset((m, c) for m, c in g.t.items() if m)
        c0 = g.const()
        if key not in best or c0 < best[key]:
            best[key] = c0
    # quick opposite check
    for key, c0 in best.items():
        neg = frozenset((m, -c) for m, c in key)
        d = best.get(neg)
        if d is not None and c0 + d < 0:
            return False
    S = Simplex()
    ids = {}
    order = sorted({m for key in best for m, _ in key}, key=lambda m: (len(m), [a.id for a in m]))
    for m in order:
        ids[m] = len(ids)
        S.val[ids[m]] = Fraction(0)
    nx = len(ids)
    for key, c0 in best.items():
        key = sorted(key, key=lambda mc: ids[mc[0]])
        if len(key) == 1:
            m, c = key[0]
            x = ids[m]
            b = Fraction(-c0, c)
            if c > 0:
                if x not in S.lo or S.lo[x] < b:
                    S.lo[x] = b
            else:
                if x not in S.hi or S.hi[x] > b:
                    S.hi[x] = b
        else:
            S.rows[nx] = (1, {ids[m]: c for m, c in key})
            S.lo[nx] = Fraction(-c0)
            S.val[nx] = Fraction(0)
            nx += 1
    for x in list(S.lo):
        if x in S.hi and S.lo[x] > S.hi[x]:
            return False
    # nonbasic start values within bounds
    for x in ids.values():
        v = Fraction(0)
        if x in S.lo and v < S.lo[x]:
            v = S.lo[x]
        if x in S.hi and v > S.hi[x]:
            v = S.hi[x]
        S.val[x] = v
    for r, (_, row) in S.rows.items():
        S.val[r] = sum((c * S.val[x] for x, c in row.items()), Fraction(0))
    r = S.check()
    if r and model is not None:
        for m, x in ids.items():
            model[m] = S.val[x]
        model[None] = S.gave_up
    return r


def integer_feasible(ges, eqs, budget):
    """the same over the integers: True, False, or None when it takes too long"""
    at = set()
    for g in list(ges) + list(eqs):
        at |= g.atoms()
    g = list(ges) + atom_axioms(at, ges, eqs)
    g = products(g + list(eqs) + [-e for e in eqs])
    return _branch(g, list(eqs), [budget])


def _branch(g, eqs, left):
    left[0] -= 1
    if left[0] < 0:
        return None
    model = {}
    if not lin_feasible(g, eqs, model):
        return False
    if model.get(None):
        return None
    best = None
    for m, v in model.items():
        if m is not None and v.denominator != 1:
            d = abs(v - v.__floor__() - Fraction(1, 2))
            if best is None or d < best[0]:
                best = (d, m, v)
    if best is None:
        return True
    _, m, v = best
    f = v.__floor__()
    x = Poly({m: 1})
    res = False
    for c in (P(f) - x, x - P(f + 1)):
        r = _branch(g + [c], eqs, left)
        if r:
            return True
        if r is None:
            res = None
    return res


def atom_axioms(atoms, ges, eqs, depth=16):
    """Close a set of atoms with their own bounds and axioms."""
    seen = set()
    todo = list(atoms)
    out = []
    d = 0
    while todo and d < depth:
        nxt = []
        for a in todo:
            if a in seen:
                continue
            seen.add(a)
            if a.lo is not None:
                out.append(P(a) - a.lo)
                nxt += a.lo.atoms()
            if a.hi is not None:
                out.append(a.hi - P(a))
                nxt += a.hi.atoms()
            for p in a.ax:
                out.append(p)
                nxt += p.atoms()
        todo = nxt
        d += 1
    return out


def nonneg_atom(a):
    return a.nonneg


def products(ges, rounds=3, cap=400):
    """Multiply known constraints by non-negative monomials so that they speak
    about the non-linear monomials present."""
    ges = list(dict.fromkeys(ges))
    have = set(ges)
    for _ in range(rounds):
        targets = {m for g in ges for m in g.t if len(m) >= 2}
        if not targets:
            break
        new = []
        for g in ges:
            if len(g.t) > 6:
                continue
            for m1 in list(g.t):
                if not m1:
                    continue
                for t in targets:
                    if len(t) <= len(m1):
                        continue
                    q = _mdiv(t, m1)
                    if q is None or not q or not all(nonneg_atom(a) for a in q):
                        continue
                    p = g * Poly({q: 1})
                    if p not in have and p.degree() <= 18:
                        have.add(p)
                        new.append(p)
                        if len(have) > cap:
                            return ges + new
        if not new:
            break
        ges += new
    return ges


def _mdiv(t, m):
    t = list(t)
    for a in m:
        if a in t:
            t.remove(a)
        else:
            return None
    return tuple(t)


def relevant(ges, eqs, seed_atoms):
    seen = set(seed_atoms)
    ges = list(ges)
    eqs = list(eqs)
    rg, re_ = [], []
    changed = True
    while changed:
        changed = False
        for lst, out in ((ges, rg), (eqs, re_)):
            rest = []
            for g in lst:
                at = g.linked()
                if at & seen:
                    out.append(g)
                    if not at <= seen:
                        seen |= at
                        changed = True
                else:
                    rest.append(g)
            lst[:] = rest
    return rg, re_, seen


def _sign(p):
    """+1 / -1 when every term of p has that sign, whatever the atoms"""
    s = 0
    for m, c in p.t.items():
        if not all(a.nonneg for a in m):
            return 0
        k = 1 if c > 0 else -1
        if s and s != k:
            return 0
        s = k
    return s


def _split(p, x):
    """(c, r) with p = c * x + r, or None when p is not linear in x"""
    c, r = {}, {}
    for m, v in p.t.items():
        n = m.count(x)
        if n == 0:
            r[m] = v
        elif n == 1:
            k = list(m)
            k.remove(x)
            c[tuple(k)] = v
        else:
            return None
    return Poly(c), Poly(r)


def bounds_of(x, ges):
    """(lower, upper) bounds: lists of (q, e) with q * x >= e resp. q * x <= e,
    q a monomial of non-negative atoms with positive coefficient"""
    lo, hi = [], []
    for g in ges:
        if not any(x in m for m in g.t):
            continue
        s = _split(g, x)
        if s is None or len(s[0].t) != 1:
            continue
        (m, c), = s[0].t.items()
        if not all(a.nonneg for a in m):
            continue
        q = Poly({m: abs(c)})
        if c > 0:
            lo.append((q, -s[1]))
        else:
            hi.append((q, s[1]))
    return lo, hi


def bound_prove(p, ges, depth=14, budget=None):
    """p >= 0 by replacing atoms with their bounds, one after the other"""
    if budget is None:
        budget = [300]
    if _sign(p) == 1 or not p.t:
        return True
    if p.is_const():
        return False
    budget[0] -= 1
    if depth <= 0 or budget[0] < 0:
        return False
    order = sorted(p.atoms(), key=lambda a: (_depth(a), a.id), reverse=True)
    if all(a.name in ('SIZE', 'CONST') for a in order):
        depth = min(depth, 2)
    else:
        order = [a for a in order if a.name not in ('SIZE', 'CONST')]
    for x in order:
        s = _split(p, x)
        if s is None:
            continue
        sg = _sign(s[0])
        if not sg:
            continue
        lo, hi = bounds_of(x, ges)
        for q, e in sorted(lo if sg > 0 else hi, key=_specific):
            k = _pdiv(s[0], q)
            if k is not None and all((_depth(a), a.id) < (_depth(x), x.id) or a.name in ('SIZE', 'CONST') for a in e.atoms()):
                if bound_prove(k * e + s[1], ges, depth - 1, budget):
                    return True
    return False


def _specific(b):
    return (not any(a.name == 'div' for a in b[1].atoms()), b[1].is_const(), -len(b[1].t))


def _pdiv(p, q):
    """p / q for a one-term q, or None"""
    (m, c), = q.t.items()
    out = {}
    for k, v in p.t.items():
        r = _mdiv(k, m)
        if r is None or v % c:
            return None
        out[r] = v // c
    return Poly(out)


def _depth(a):
    """how deeply quotients are nested in a: those of others come last"""
    r = _depths.get(a)
    if r is None:
        r = 0
        if a.name == 'div':
            r = -1 + min([_depth(b) for q in a.args for b in P(q).atoms()] + [0])
        _depths[a] = r
    return r


_depths = {}


def entails_by_bounds(ges, eqs, p):
    """does p >= 0 follow by bounds, for polynomials with products"""
    at = set(p.atoms())
    if not any(a.name == 'div' for a in at) and not any(len(m) >= 2 for m in p.t):
        return False
    rg, re_, at = relevant(ges, eqs, at)
    ax = atom_axioms(at | p.atoms(), rg, re_)
    return bound_prove(p, list(dict.fromkeys(rg + ax + list(re_) + [-e for e in re_])))


_models = []
_TRY = (1, 2, 3, 1, 2, 4, 5, 7)


def _value(a, m, rnd):
    v = m.get(a)
    if v is None:
        if a.name == 'div':
            x, y = (_peval(P(q), m, rnd) for q in a.args)
            v = x // y if y else 0
        else:
            k = rnd.random()
            if a.name in ('SIZE', 'CONST'):
                v = rnd.choice(_TRY) if k < .9 else rnd.choice((0, 2 ** 32, 2 ** 63, 255))
            else:
                v = rnd.randrange(0, 12) if k < .7 else rnd.randrange(0, 130) if k < .9 else 2 ** 64 - 1
            if a.lo is not None:
                v = max(v, _peval(a.lo, m, rnd))
            if a.hi is not None:
                v = min(v, _peval(a.hi, m, rnd))
        m[a] = v
    return v


def _peval(p, m, rnd):
    r = 0
    for mono, c in p.t.items():
        for a in mono:
            c *= _value(a, m, rnd)
        r += c
    return r


def _fits(ges, eqs, m, rnd):
    for g in ges:
        if _peval(g, m, rnd) < 0:
            return False
    for e in eqs:
        if _peval(e, m, rnd) != 0:
            return False
    return True


def _sampled(ges, eqs):
    """do some small numbers satisfy everything?  Only a yes means anything."""
    import random
    if len(eqs) > 6:
        return False
    h = 0
    for g in ges:
        h = (h * 31 + len(g.t)) % 1000003
    rnd = random.Random(h)
    for i, m in enumerate(_models):
        if _fits(ges, eqs, dict(m), rnd):
            if i:
                _models.insert(0, _models.pop(i))
            return True
    # the facts about few atoms first: they fail first
    ges = sorted(ges, key=lambda g: len(g.atoms()))
    for _ in range(150):
        m = {}
        if _fits(ges, eqs, m, rnd):
            _models.insert(0, m)
            del _models[40:]
            return True
    return False


_cache = {}


def feasible(ges, eqs, seed=None):
    """Feasibility of the conjunction, using atom axioms and products.
    seed: atoms to which to restrict attention (None: everything)."""
    for g in ges:
        if g.is_const() and g.const() < 0:
            return False
    for e in eqs:
        if e.is_const() and e.const() != 0:
            return False
    if seed is not None:
        ges, eqs, at = relevant(ges, eqs, seed)
    else:
        at = set()
        for g in ges:
            at |= g.atoms()
        for e in eqs:
            at |= e.atoms()
    key = (frozenset(ges), frozenset(eqs))
    r = _cache.get(key)
    if r is not None:
        return r
    ax = atom_axioms(at, ges, eqs)
    allg = list(ges) + ax
    at2 = set(at)
    for p in ax:
        at2 |= p.atoms()
    if at2 != at and seed is not None:
        pass
    r = lin_feasible(allg, eqs)
    if r and any(len(m) >= 2 for g in allg for m in g.t) or (r and any(len(m) >= 2 for e in eqs for m in e.t)):
        if _sampled(allg, eqs):
            _cache[key] = True
            return True
        allp = products(allg + list(eqs) + [-e for e in eqs])
        r = lin_feasible(allp, eqs)
    _cache[key] = r
    return r
