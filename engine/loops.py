"""Loop analysis: inference of a loop invariant by generalising the states met
at the loop head (affine counters, equalities and prefix counts between
integer leaves, per-iteration facts, recorded array writes), and its
verification by one abstract execution of the body."""
from poly import *
from state import *
import state as _s
import poly as _p

MAXT = 9
MAXH = 30
ROUNDS = 14


# ------------------------------------------------------------ walking states
def roots_of(E, st):
    r = []
    for d, fr in enumerate(st.frames):
        if fr.b is None:
            for it in fr.work or ():
                r.append(it[0])
            continue
        live, addr = E.prog.live(fr.b)
        body = E.prog.bodies[fr.b]
        top = d == len(st.frames) - 1
        if top:
            ls = set(live[fr.bb])
        else:
            term = body['blocks'][fr.bb][1]
            nxt = st.frames[d + 1]
            t = nxt.target if nxt.b is not None else fr.bb
            ls = set()
            if nxt.b is None or nxt.kind != 'fn':
                ls |= set(live[fr.bb])
            for x in (t,) + ((nxt.unwind,) if E.unwind else ()):
                if x is not None and x >= 0:
                    ls |= live[x]
        ls |= addr
        for l in sorted(ls):
            r.append(('L', fr.fid, l))
        if fr.dest is not None and not callable(fr.dest):
            r.append(fr.dest.obj)
    seen = set()
    out = []
    for o in r:
        if o in st.objs and o not in seen:
            seen.add(o)
            out.append(o)
    return out


class Walk:
    """skeleton, leaves and object order of the part of a state that is live"""

    def __init__(self, E, st, roots):
        self.E = E
        self.st = st
        self.tok = []
        self.leaves = []      # (kind, value, info)
        self.order = []       # objects
        self.idx = {}
        self.cur = None
        for o in roots:
            self.visit(o)
        i = 0
        while i < len(self.order):
            o = self.order[i]
            self.cur = o
            v = st.objs.get(o)
            if v is None:
                self.tok.append(('none',))
            else:
                self.val(v, ())
            i += 1
        self.skel = tuple(self.tok)

    def visit(self, o):
        i = self.idx.get(o)
        if i is None:
            i = self.idx[o] = len(self.order)
            self.order.append(o)
            self.tok.append(('obj', i, o if o[0] in ('L', 'D', 'P', 'K') else 'H'))
        return i

    def leaf(self, kind, v, path):
        self.leaves.append((kind, v, (self.cur, path)))

    def path(self, p, path):
        for s in p:
            if s[0] == 'x':
                self.tok.append('x')
                self.leaf('int', s[1], path + ('px',))
            else:
                self.tok.append(s[:3])

    def num(self, n, path):
        if n is None:
            self.tok.append('nonum')
        else:
            self.leaf('int', P(n), path)

    def length(self, n, path):
        if n is None:
            self.tok.append('nonum')
        else:
            n = P(n)
            self.tok.append('z' if n == ZERO else 'p')
            if n != ZERO:
                self.leaf('int', n, path)

    def val(self, v, path):
        t = type(v)
        if t is Poly:
            self.tok.append('i')
            self.leaf('int', v, path)
        elif t is Atom:
            self.tok.append('i')
            self.leaf('int', P(v), path)
        elif t is Key:
            self.tok.append(('key', v.ty))
            self.leaf('int', v.ord, path + ('ord',))
        elif t is Bool:
            if v.f[0] in 'TF':
                self.tok.append(v.f[0])
            else:
                self.tok.append('bool')
                self.leaf('bool', v, path)
        elif t is Word:
            self.tok.append('w')
            self.leaf('word', v, path)
        elif t is Sym:
            self.tok.append(('sym', v.ty))
            self.leaf('term', v, path)
        elif t is Agg:
            self.tok.append(('agg', v.ty, v.var))
            for i, x in enumerate(v.fs):
                self.val(x, path + (i,))
        elif t is Ref:
            self.tok.append('ref')
            self.tok.append(self.visit(v.obj))
            self.path(v.path, path)
            self.num(v.lo, path + ('lo',))
            self.length(v.n, path + ('n',))
        elif t is Arr:
            if v.base[0] == 'list' and not v.ov:
                self.tok.append(('list', v.ety, len(v.base[1])))
                for i, x in enumerate(v.base[1]):
                    self.val(x, path + (i,))
            else:
                self.tok.append(('arr', v.ety))
                self.length(v.n, path + ('n',))
                self.leaf('arr', v, path)
        elif t is Vec:
            self.tok.append(('vec', v.arr.ety))
            self.num(v.arr.n, path + ('n',))
            self.leaf('arr', v.arr, path + ('arr',))
            self.num(v.cap, path + ('cap',))
        elif t is SIter:
            self.tok.append(('siter', v.ty))
            self.tok.append(self.visit(v.obj))
            self.path(v.path, path)
            self.num(v.lo, path + ('lo',))
            self.num(v.hi, path + ('hi',))
        elif t is AIter:
            self.tok.append(('aiter', v.ty))
            self.val(v.arr, path + ('arr',))
            self.num(v.lo, path + ('lo',))
            self.num(v.hi, path + ('hi',))
        elif v is UNINIT or v is MOVED:
            self.tok.append(v.n)
        else:
            raise Stuck('walk %r' % (v,))


class Rebuild:
    """values of the skeleton with other leaves"""

    def __init__(self, walk, leaves, names):
        self.w = walk
        self.it = iter(leaves)
        self.names = names        # object order -> object
        self.out = {}
        self.map = {o: names[i] for i, o in enumerate(walk.order)}
        for i, o in enumerate(walk.order):
            v = walk.st.objs.get(o)
            if v is not None:
                self.out[names[i]] = self.val(v)

    def nx(self):
        return next(self.it)

    def path(self, p):
        return tuple(('x', self.nx()) if s[0] == 'x' else s for s in p)

    def num(self, n):
        return None if n is None else self.nx()

    def length(self, n):
        if n is None:
            return None
        return ZERO if P(n) == ZERO else self.nx()

    def val(self, v):
        t = type(v)
        if t is Poly or t is Atom:
            return self.nx()
        if t is Key:
            return Key(v.ty, self.nx())
        if t is Bool:
            return v if v.f[0] in 'TF' else self.nx()
        if t is Word or t is Sym:
            return self.nx()
        if t is Agg:
            return Agg(v.ty, v.var, [self.val(x) for x in v.fs])
        if t is Ref:
            o = self.map[v.obj]
            p = self.path(v.path)
            lo = self.num(v.lo)
            return Ref(o, p, lo, self.length(v.n))
        if t is Arr:
            if v.base[0] == 'list' and not v.ov:
                return Arr(v.ety, v.n, ('list', tuple(self.val(x) for x in v.base[1])))
            n = self.length(v.n)
            a = self.nx()
            return Arr(a.ety, n, a.base, a.ov)
        if t is Vec:
            n = self.nx()
            a = self.nx()
            return Vec(Arr(a.ety, n, a.base, a.ov), self.num(v.cap))
        if t is SIter:
            o = self.map[v.obj]
            p = self.path(v.path)
            lo = self.num(v.lo)
            return SIter(v.ty, o, p, lo, self.num(v.hi))
        if t is AIter:
            a = self.val(v.arr)
            lo = self.num(v.lo)
            return AIter(v.ty, a, lo, self.num(v.hi))
        return v


def subst_state(st, m):
    """apply a substitution of atoms to everything in a state (in place)"""
    c = {}

    def S(x):
        return _p._subst(x, m, c)
    st.objs = {_sobj(o, m, c): _sval(v, m, c) for o, v in st.objs.items()}
    st.ge = [S(x) for x in st.ge]
    st.eq = [S(x) for x in st.eq]
    st.ne = [S(x) for x in st.ne]
    st.bools = {S(k): v for k, v in st.bools.items()}
    st.disc = {S(k): v for k, v in st.disc.items()}
    st.bits = [(S(w), S(i), v) for w, i, v in st.bits]
    st.zeros = [(S(w), S(a), S(b)) for w, a, b in st.zeros]
    st.subs = [(S(a), S(b)) for a, b in st.subs]
    st.weqs = [(S(a), S(b)) for a, b in st.weqs]
    st.foralls = [(S(n), S(cnt), S(alts), lo) for n, cnt, alts, lo in st.foralls]
    st.alts = {S(k): v for k, v in st.alts.items()}
    st.log = [S(x) for x in st.log]
    st.events = [S(x) if x[0][0] != 'loopev' else x for x in st.events]
    st.ctx = S(st.ctx)
    for fr in st.frames:
        if fr.dest is not None and not callable(fr.dest):
            d = fr.dest
            fr.dest = type(d)(_sobj(d.obj, m, c), S(d.path), d.ty, None if d.lo is None else S(d.lo), None if d.n is None else S(d.n), d.var)
        if fr.work:
            fr.work = tuple((_sobj(w[0], m, c), S(w[1]), w[2], None if w[3] is None else S(w[3]), None if w[4] is None else S(w[4])) for w in fr.work)
    return st


def _sobj(o, m, c):
    return _p._subst(o, m, c)


def _sval(v, m, c):
    return _p._subst(v, m, c)


# ------------------------------------------------------------ templates
class Tmpl:
    pass


def is_poly(x):
    return type(x) is Poly


_lids = {}


def do_loop(E, S0):
    E.stats['loops'] += 1
    fr = S0.frames[-1]
    fid, head, depth = fr.fid, fr.bb, len(S0.frames)
    body = E.prog.heads(fr.b)[head]

    def stop(s):
        n = len(s.frames)
        if n < depth:
            return True
        if n > depth:
            return False
        f = s.frames[-1]
        if f.fid != fid:
            return True
        if f.bb not in body:
            return True
        return f.bb == head and f.si == 0

    def is_back(s):
        return s.end is None and len(s.frames) == depth and s.frames[-1].fid == fid and s.frames[-1].bb == head and s.frames[-1].si == 0

    def iterate(s):
        outs = E.explore(s, stop)
        backs = [o for o in outs if is_back(o)]
        if E.opts.get('work'):
            for o in backs:
                o.events.append((('work', ONE), ('', '')))
        return backs, [o for o in outs if not is_back(o)]

    limit = E.opts.get('unroll', 0)
    bound = E.opts.get('bounded')
    if bound:
        return bounded(E, S0, iterate, bound)
    states = [S0]
    done = []
    it = 0
    saved0 = E.save()
    while True:
        saved = E.save()
        backs, exs = [], []
        for s in states:
            b, x = iterate(clone(E, s))
            backs += b
            exs += x
        live = [x for x in exs if x.end is None]
        if not backs:
            return done + exs
        if (not live and len(backs) == 1 and it < 70) or (it < limit and len(backs) <= (600 if E.opts.get('ledger') else 24)):
            done += exs
            states = backs
            it += 1
            continue
        E.restore(saved)
        break
    if it and limit == 0:
        # unrolling did not reach the end: summarise from the start
        E.restore(saved0)
        states = [S0]
        done = []
    for s in states:
        done += Summary(E, s, iterate).run()
    return done


def bounded(E, S0, iterate, bound):
    """the first iterations one by one; what would go on is cut off.  Only used
    to confirm an alarm: every state it keeps is exact."""
    states = [S0]
    done = []
    for it in range(70):
        backs = []
        forks = 0
        for s in states:
            b, x = iterate(clone(E, s))
            backs += b
            done += x
            forks += len(b) + len(x) > 1
        if not backs:
            break
        if forks:
            bound -= 1
            if bound < 0:
                E.stats['cut'] = E.stats.get('cut', 0) + len(backs)
                break
        if len(backs) > 400:
            E.stats['cut'] = E.stats.get('cut', 0) + len(backs) - 400
            backs = backs[:400]
        states = backs
    return done


def clone(E, s):
    from interp import clone_state
    return clone_state(s)


def atoms_in(x, out):
    t = type(x)
    if t is Atom:
        if x not in out:
            out.add(x)
            for y in x.args:
                atoms_in(y, out)
    elif t is Poly:
        for m in x.t:
            for a in m:
                atoms_in(a, out)
    elif t is tuple:
        for y in x:
            atoms_in(y, out)
    elif hasattr(x, 'terms'):
        for y in x.terms():
            atoms_in(y, out)
    return out


def normalise(E, st):
    """replace iteration counts that are known to equal a size constant"""
    sizes = set()
    cnts = set()
    for p in st.ge + st.eq:
        for a in p.atoms():
            if a.name in ('SIZE', 'CONST'):
                sizes.add(a)
            elif a.name == 'n':
                cnts.add(a)
    if not sizes or not cnts:
        return
    for c in st.ctx:
        cnts -= atoms_in(c, set())
    cand = set()
    for p in st.ge + st.eq:
        if len(p.t) <= 3:
            ls = [m[0] for m in p.t if len(m) == 1]
            if len(ls) + (1 if () in p.t else 0) == len(p.t) and len(ls) == 2:
                for a, z in (ls, ls[::-1]):
                    if a in cnts and z in sizes:
                        c = p.t[(a,)]
                        if c in (1, -1) and p.t[(z,)] == -c:
                            cand.add((a, P(z) - p.const() * c))
    done = set()
    for a, e in sorted(cand, key=lambda x: (x[0].id, repr(x[1]))):
        if a not in done and st.entails_eq(P(a) - e):
            done.add(a)
            subst_state(st, {a: e})


class Resplit(Exception):
    pass


class Summary:
    def __init__(self, E, S0, iterate):
        self.E = E
        self.S0 = S0
        self.iterate = iterate
        fr = S0.frames[-1]
        S0.uc += 1
        key = (fr.b, fr.bb, len(S0.frames), tuple(c[0] for c in S0.ctx), S0.uc)
        self.lid = _lids.setdefault((id(E.prog), key), len(_lids) + 1)
        self.n = atom('n', (self.lid, S0.ctx), ZERO, P(2 ** 64))
        self.N = P(self.n)
        self.bn = atom('bn', (self.lid, S0.ctx), ZERO, P(2 ** 64))
        b = E.prog.bodies[S0.frames[-1].b]
        self.harness = b.get('crate') == 'harness'
        self.split = self.harness
        self.params = set()
        self.fresh_id = 0
        self.alts = ()
        self.site = E.site(S0)
        self.consts = self.const_atoms()
        self.keys = []       # prefix-count keys seen
        self.single = []     # (key, idx poly in n, v) decided the same way in every iteration
        self.evs = ()
        self.flo = 0
        self.first = ()

    def const_atoms(self):
        """size-like atoms worth relating to"""
        s = set()
        for p in self.S0.ge + self.S0.eq:
            atoms_in(p, s)
        for v in self.S0.objs.values():
            if type(v) in (Poly, Key, Ref, SIter, Agg):
                atoms_in(v, s)
        return [P(a) for a in sorted(s, key=lambda a: a.id) if a.name in ('SIZE', 'CONST')]

    def newparam(self, kind, taint):
        self.fresh_id += 1
        a = atom('lp' if not taint else 'lpt', (self.lid, self.fresh_id, self.S0.ctx), None, None, (), taint)
        self.params.add(a)
        return a

    # -------------------------------------------------- main fixpoint
    def run(self):
        saved = self.E.save()
        try:
            return self.run1()
        except Resplit:
            # not an array filled in order: start over, telling states apart
            # by what they do to the elements the specification looks at
            self.E.restore(saved)
            self.S0.uc -= 1
            self.__init__(self.E, self.S0, self.iterate)
            self.split = True
            return self.run1()

    def run1(self):
        E = self.E
        self.T = []
        t0 = self.make(self.S0, ZERO, None)
        t0.entry = True
        self.T.append(t0)
        saved = E.save()
        for rnd in range(ROUNDS):
            E.restore(saved)
            changed = False
            exits = []
            allbacks = []
            for ti, t in enumerate(list(self.T)):
                st = self.start(t)
                if st is None:
                    continue
                backs, exs = self.iterate(st)
                for b in backs:
                    for b2 in self.presplit(b):
                        normalise(E, b2)
                        allbacks.append((ti, t, b2))
                exits += exs
            if E.budget < 0:
                raise Stuck('budget')
            alts, evs = self.gather(allbacks)
            if alts != self.alts:
                changed = True
            self.newalts = alts
            first = self.first_facts(allbacks) if rnd <= ROUNDS - 4 else ()
            if first != self.first:
                changed = True
                self.first = first
            if evs != self.evs:
                self.evs = evs
                changed = True
            ms = [self.mcount(t) for (ti, t, b) in allbacks]
            for i, (ti, t, b) in enumerate(allbacks):
                if self.incoming(b, t, (ti, i), ms[i]):
                    changed = True
            if rnd > ROUNDS - 4 and alts != self.alts:
                self.noalts = True
            self.alts = self.newalts
            self.find_single()
            if E.opts.get('trace_loops'):
                print('loop', self.lid, self.site, 'round', rnd, 'templates', len(self.T), 'backs', len(allbacks), 'exits', len(exits), 'changed', changed)
                for t in self.T:
                    print('   ', [show(x) for x in t.ex], 'facts', t.facts)
                    print('   ', t.status, 'points', t.points, 'hist', len(t.hist))
            if not changed:
                exact = self.is_exact()
                for x in exits:
                    if not exact:
                        x.notes.add('inexact')
                    x.ctx = self.S0.ctx
                    if x.end is None:
                        x.saturate()
                        normalise(E, x)
                    x.uc = self.S0.uc
                    x.heap = self.S0.heap
                    if self.evs:
                        x.events.insert(len(self.S0.events), (('loopev', self.lid, self.evs), self.site))
                return [x for x in exits if not x.dead]
        raise Stuck('loop invariant not found')

    def is_exact(self):
        """does the summary lose nothing: every leaf a function of the
        iteration number, one way round the loop, no conditions but linear
        ones"""
        used = set()
        for t in self.T:
            for e in t.ex:
                atoms_in(e, used)
        if used & self.params or getattr(self, 'noalts', False) or len(self.alts) > 1:
            return False
        return all(e[0] == 'f' and e[1][0] in ('ge', 'eq', 'ne') for a in self.alts for e in a)

    def make(self, st, m, src):
        E = self.E
        t = Tmpl()
        t.st = st
        t.m0 = m
        t.src = src
        t.exact = True
        t.entry = False
        w = Walk(E, st, roots_of(E, st))
        t.w = w
        t.names = list(w.order)
        t.ex = [l[1] for l in w.leaves]
        t.status = ['exact'] * len(t.ex)
        t.cands = [None] * len(t.ex)
        t.facts = None
        t.points = []
        t.cls = ()
        t.hist = [(list(t.ex), m, st)]
        return t

    def start(self, t):
        """abstract state of an arbitrary iteration starting from template t"""
        E = self.E
        if t.exact:
            st = clone(E, t.st)
        else:
            st = clone(E, self.S0)
        out = Rebuild(t.w, t.ex, t.names).out
        if not t.exact:
            keep = {o: v for o, v in st.objs.items() if o not in self.T[0].w.idx}
            st.objs = keep
        st.objs.update(out)
        st.fidc = self.S0.fidc
        if not P(t.m0).is_const() or not t.exact:
            if not st.assume(ge(self.N, t.m0 if P(t.m0).is_const() else 0)):
                return None
        st.ctx = self.S0.ctx + ((self.lid, self.N if not (t.exact and P(t.m0).is_const()) else P(t.m0)),)
        st.uc = 0
        st.heap = 0
        for f in t.facts or ():
            if not st.assume(f):
                return None
        for e in t.points:
            if not st.apply(e):
                return None
        if self.first and not t.exact:
            for e in self.first:
                if not st.apply(e):
                    return None
        t.base = len(st.log)
        t.evbase = len(st.events)
        if self.alts and not (t.exact and P(t.m0).is_const()):
            st.foralls = st.foralls + [(self.bn, self.N, subst(self.alts, {self.n: P(self.bn)}), self.flo)]
            if _s.CNT[0]:
                for key, a, sl, v in self.single:
                    l = self.flo
                    if sl > 0:
                        st.assume(eq(cnt(key, a + self.N) - cnt(key, a + l) - v * (self.N - l)))
                    else:
                        st.assume(eq(cnt(key, a + 1 - l) - cnt(key, a + 1 - self.N) - v * (self.N - l)))
        if st.dead:
            return None
        return st

    # -------------------------------------------------- incoming states
    def mcount(self, t):
        if t.exact and P(t.m0).is_const():
            return t.m0 + 1
        return self.N + 1

    def incoming(self, b, t, src, m):
        """merge a state arriving at the loop head; True if a template changed"""
        E = self.E
        w = Walk(E, b, roots_of(E, b))
        c = self.classify(b, w)
        for d in self.T:
            if d.w.skel == w.skel and d.cls == c:
                return self.merge(d, b, w, m, src)
        if len(self.T) >= (MAXH if self.harness or self.split else MAXT):
            raise Stuck('too many loop shapes')
        m0 = m
        if not P(m).is_const():
            b = clone(E, b)
            subst_state(b, {self.n: self.N - 1})
            b.assume(ge(self.N, 1))
            m0 = self.N
        nt = self.make(b, m0, src)
        # object names must not depend on the iteration
        for i, o in enumerate(nt.names):
            if o[0] not in ('L', 'D', 'P', 'K') and o not in self.S0.objs:
                nt.names[i] = ('H', ('loop', self.lid, len(self.T)), i)
        if nt.names != nt.w.order:
            out = Rebuild(nt.w, nt.ex, nt.names).out
            b = clone(E, b)
            for o in nt.w.order:
                b.objs.pop(o, None)
            b.objs.update(out)
            names = nt.names
            nt = self.make(b, m0, src)
        nt.cls = c
        self.T.append(nt)
        return True

    def classes(self, w):
        """ghost indices and changing bounds by which states with a changing
        word are told apart"""
        if not self.split:
            return [], [], [], []
        words = [l[1] for l in w.leaves if l[0] == 'word']
        w0 = {l[1] for l in self.T[0].w.leaves if l[0] == 'word'}
        a0 = {l[1] for l in self.T[0].w.leaves if l[0] == 'arr'}
        arrs = [l[1] for l in w.leaves if l[0] == 'arr' and l[1] not in a0 and self.variants(l[1].ety)] if _s.CNT[0] else []
        if all(x in w0 for x in words) and not arrs:
            return [], [], [], []
        tr = []
        for l in w.leaves:
            if l[0] == 'int' and l[2][1] and l[2][1][-1] == 'ord' and self.fixed(l[1]) and l[1] not in tr:
                tr.append(l[1])
        ints = [l[1] for l in w.leaves if l[0] == 'int' and not self.fixed(l[1])]
        return tr[:2], words[:3], ints[:3], arrs[:2]

    def variants(self, ety):
        E = self.E
        d = E.tys[ety]
        if d['k'] == 'adt' and d['ak'] == 'union':
            d = E.tys[E.peel(ety)]
        return d['k'] == 'adt' and d['ak'] == 'enum'

    def classify(self, b, w):
        tr, words, ints, arrs = self.classes(w)
        return tuple([b.test_bit(x, i) for i in tr for x in words] + [b.test(lt(i, x)) for i in tr for x in ints] +
                     [peek_variant(self.E, b, x, i) for i in tr for x in arrs])

    def merge(self, t, b, w, m, src):
        E = self.E
        n = self.n
        lb = [l[1] for l in w.leaves]
        old = t
        changed = False
        bind = {n: m}
        redo = []
        for i, (kind, _, _) in enumerate(t.w.leaves):
            e, x = t.ex[i], lb[i]
            s = t.status[i]
            if s == 'param':
                continue
            if not self.agrees(t, b, kind, e, x, m, lb, s):
                redo.append(i)
        # bind parameters
        self.bindings(t, lb, bind)
        for i in range(len(t.ex)):
            if t.status[i] == 'derived' and i not in redo and t.w.leaves[i][0] == 'term':
                if not self.elem_holds(t.cands[i][1], lb, b, i):
                    redo.append(i)
            elif t.status[i] == 'derived' and i not in redo:
                e = subst(t.ex[i], bind)
                if not b.entails_eq(lb[i] - e):
                    redo.append(i)
        fbad = []
        if t.facts:
            for f in t.facts:
                g = subst(f, bind)
                if b.test(g) is not True:
                    fbad.append(f)
        pbad = [p for p in t.points if not self.point_ok(b, subst(p, bind))]
        first = t.exact
        if not redo and not fbad and not pbad:
            if not t.exact or not self.facts_weaker(t, b, m):
                if not t.exact:
                    return False
            else:
                return False
        if t.exact:
            # from now on only facts established before the loop, plus candidates
            t.exact = False
            changed = True
            if self.split and not self.harness:
                # contents depending on what the first iterations chose
                old0 = [l[1] for l in self.T[0].w.leaves]
                for i, (kind, _, _) in enumerate(t.w.leaves):
                    if kind == 'arr' and t.status[i] == 'exact' and i not in redo and t.ex[i].ov and t.ex[i] not in old0:
                        redo.append(i)
        t.hist.append((lb, m, b))
        if len(t.hist) > 8:
            t.hist = t.hist[:1] + t.hist[-7:]
        was = 'record' in t.status
        for i in redo:
            self.generalise(t, i, lb[i], m, b)
            changed = True
        if was and 'record' not in t.status:
            # states seen while the array was thought to be written in order
            # say nothing about it
            t.hist = t.hist[:1]
        if fbad:
            t.facts = [f for f in t.facts if f not in fbad]
            changed = True
        if pbad:
            t.points = [p for p in t.points if p not in pbad]
            changed = True
        if first or redo:
            self.rederive(t)
            self.rederive_terms(t)
            self.propose(t)
            if self.T[0] is not t or first:
                pass
        return changed

    def facts_weaker(self, t, b, m):
        """an exact template absorbs a state only if that is the very state it
        was made from"""
        if not P(t.m0).is_const():
            if b.frames is None:
                return False
        if t.entry:
            return False
        base = set(map(repr, t.st.log))
        bl = b
        if not P(m).is_const() and not P(t.m0).is_const():
            bl = clone(self.E, b)
            subst_state(bl, {self.n: self.N - 1})
        elif P(m).is_const() != P(t.m0).is_const():
            return False
        return set(map(repr, bl.log)) >= base

    def bindings(self, t, lb, bind):
        for i, e in enumerate(t.ex):
            if t.status[i] == 'param':
                kind = t.w.leaves[i][0]
                if kind == 'int':
                    bind[e.single()] = lb[i]
                elif kind == 'arr':
                    bind[e.base[1][1]] = ('basebind', lb[i])
                elif kind == 'word':
                    bind[e.a[1]] = ('wordbind', lb[i])
                elif kind == 'term':
                    bind[e.term[1]] = ('termbind', lb[i].term)
                elif kind == 'bool':
                    bind[e.f[1][1]] = ('boolbind', lb[i])

    def agrees(self, t, b, kind, e, x, m, lb, s):
        n = self.n
        if s == 'derived':
            return True
        if kind == 'int':
            em = subst(e, {n: m})
            if s == 'pcnt':
                return False
            return b.entails_eq(x - em)
        if kind == 'term':
            return self.term_eq(b, subst(e.term, {n: m}), x.term)
        if kind == 'word':
            return subst(e, {n: m}) == x
        if kind == 'bool':
            return subst(e, {n: m}) == x
        if kind == 'arr':
            return self.arr_eq(b, subst(e, {n: m}), x, e, m)
        raise Stuck('leaf ' + kind)

    def term_eq(self, b, a, x):
        if a == x:
            return True
        if type(a) is tuple and type(x) is tuple and len(a) == len(x):
            return all(self.term_eq(b, p, q) for p, q in zip(a, x))
        if is_poly(a) and is_poly(x):
            return b.entails_eq(a - x)
        return False

    def arr_eq(self, b, a, x, e, m):
        if a.base != x.base and not self.term_eq(b, a.base, x.base):
            return False
        if a.ov == x.ov:
            return True
        # T: ov0 + [loop record]; B at T(n+1): ov0 + [loop record with count n] + writes
        if e.ov and e.ov[-1][0] == 'loop' and e.ov[-1][1] is self.bn:
            if x.ov[:len(e.ov)] == e.ov:
                return self.writes_match(b, e.ov[-1], x.ov[len(e.ov):], m)
            # arriving from the state before the loop (no iteration yet)
            return False
        return False

    def writes_match(self, b, rec, writes, m):
        _, lid, rng, idx, alts = rec
        k = self.alt_index(b)
        if k is None or k >= len(alts):
            return False
        _, val = alts[k]
        if val is None:
            return not writes
        if len(writes) != 1 or writes[0][0] != 'w':
            return False
        j = P(m) - 1
        return b.entails_eq(writes[0][1] - subst(idx, {self.bn: j})) and (subst(val, {self.bn: j}) == writes[0][2])

    def alt_index(self, b):
        return getattr(b, 'altidx', None)

    # -------------------------------------------------- generalisation
    def leaf_taint(self, t, i):
        if not self.harness:
            return True
        kind, v, (obj, path) = t.w.leaves[i]
        if kind in ('arr', 'word', 'bool'):
            return False
        if kind == 'int' and obj[0] == 'L' and (not path or path == ('ord',)):
            for fr in t.st.frames:
                if fr.fid == obj[1] and fr.b is not None and self.E.prog.bodies[fr.b].get('crate') == 'harness':
                    return False
        if kind == 'int' and path and path[-1] == 'ord':
            return False
        if kind == 'term':
            return False
        return True

    def generalise(self, t, i, x, m, b):
        kind = t.w.leaves[i][0]
        s = t.status[i]
        e = t.ex[i]
        if kind == 'int':
            if s == 'exact' and len(t.hist) <= 2:
                d = P(m) - P(t.m0)
                if d.is_const() and d.const() > 0 and P(t.m0).is_const():
                    delta = x - e
                    if d.const() == 1 and all(a.name in ('SIZE', 'CONST') or a in self.s0atoms() for a in atoms_in(delta, set())):
                        t.ex[i] = e + delta * (self.N - t.m0)
                        t.status[i] = 'affine'
                        return
            if s in ('exact', 'affine') and t.exact is False and len(t.hist) > 1:
                # try the slope observed between two general iterations
                pass
            t.ex[i] = P(self.newparam('int', self.leaf_taint(t, i)))
            t.status[i] = 'param'
            t.cands[i] = None
            return
        if kind == 'term':
            g = self.term_gen(t, i, e.term, x.term, m, b)
            if g is not None:
                t.ex[i] = Sym(e.ty, g)
                t.status[i] = 'affine'
                return
            t.ex[i] = Sym(e.ty, ('lp', self.newparam('term', self.leaf_taint(t, i))))
            t.status[i] = 'param'
            return
        if kind == 'bool':
            t.ex[i] = Bool(('b', ('lp', self.newparam('bool', self.leaf_taint(t, i)))))
            t.status[i] = 'param'
            return
        if kind == 'word':
            t.ex[i] = Word('v', ('lp', self.newparam('word', self.leaf_taint(t, i))))
            t.status[i] = 'param'
            return
        if kind == 'arr':
            if s == 'exact' and (self.harness or not self.split):
                r = self.record(t, i, e, x, m, b)
                if r is not None:
                    t.ex[i] = r
                    t.status[i] = 'record'
                    return
            if s == 'record':
                r = self.rerecord(t, i, e)
                if r is not None:
                    t.ex[i] = r
                    return
            if not self.split and self.tracked(t):
                raise Resplit()
            t.ex[i] = Arr(e.ety, e.n, ('term', ('lp', self.newparam('arr', self.leaf_taint(t, i)))))
            t.status[i] = 'param'
            return
        raise Stuck('generalise ' + kind)

    def s0atoms(self):
        r = getattr(self, '_s0a', None)
        if r is None:
            r = self._s0a = set()
            for l in self.T[0].w.leaves:
                atoms_in(l[1], r)
        return r

    def is_iter_atom(self, a):
        """does the atom depend on this iteration (its fresh unknowns)?"""
        if a is self.n or a in self.params:
            return True
        return False

    def term_gen(self, t, i, a, x, m, b):
        if a == x:
            return a
        if type(a) is tuple and type(x) is tuple and len(a) == len(x):
            r = []
            for p, q in zip(a, x):
                g = self.term_gen(t, i, p, q, m, b)
                if g is None:
                    return None
                r.append(g)
            return tuple(r)
        if is_poly(a) and is_poly(x):
            if t.status[i] == 'exact' and P(t.m0).is_const():
                d = P(m) - P(t.m0)
                if d == ONE:
                    return a + (x - a) * (self.N - t.m0)
            em = subst(a, {self.n: m})
            if b.entails_eq(em - x):
                return a
        return None

    def record(self, t, i, e, x, m, b):
        """first generalisation of an array written in the loop"""
        if x.base != e.base or x.ov[:len(e.ov)] != e.ov:
            return None
        new = x.ov[len(e.ov):]
        if not P(t.m0).is_const():
            return None
        self.recs = getattr(self, 'recs', {})
        rec = ('loop', self.bn, (P(t.m0), self.N), None, ())
        return Arr(e.ety, e.n, e.base, e.ov + (rec,))

    def rerecord(self, t, i, e):
        """rebuild the write record from the alternatives of the last pass"""
        tries = getattr(t, 'rtries', {})
        t.rtries = tries
        tries[i] = tries.get(i, 0) + 1
        if tries[i] > 4:
            return None
        alts = []
        idx = None
        ovlen = len(e.ov)
        for (ti, tt, b, logp) in self.altsrc:
            w = Walk(self.E, b, roots_of(self.E, b))
            if w.skel != t.w.skel:
                return None
            x = w.leaves[i][1]
            if tt is not t:
                return None
            if x.base != e.base or x.ov[:ovlen] != e.ov:
                return None
            wr = x.ov[ovlen:]
            if len(wr) > 1:
                return None
            if not wr:
                alts.append((logp, None))
                continue
            if wr[0][0] != 'w':
                return None
            if tt.exact and P(tt.m0).is_const():
                return None
            if idx is None:
                idx = wr[0][1]
            elif idx != wr[0][1] and not b.entails_eq(idx - wr[0][1]):
                return None
            for a in atoms_in(wr[0][2], set()) | atoms_in(wr[0][1], set()):
                if a in self.params:
                    return None
            alts.append((logp, wr[0][2]))
        if idx is None:
            return None
        c = idx.t.get((self.n,))
        if c not in (1, -1):
            return None
        return Arr(e.ety, e.n, e.base, e.ov[:-1] + (('loop', self.bn, e.ov[-1][2]) + subst((idx, tuple(alts)), {self.n: P(self.bn)}),))

    # -------------------------------------------------- relations
    def rederive(self, t):
        """express integer parameters through other leaves where every known
        incoming state agrees"""
        E = self.E
        ints = [i for i, l in enumerate(t.w.leaves) if l[0] == 'int']
        tried = getattr(t, 'dead', set())
        t.dead = tried
        # order: ghost / harness variables first
        order = sorted(ints, key=lambda i: (self.leaf_taint_pos(t, i), i))
        prim = []
        for i in order:
            if t.status[i] in ('exact', 'affine'):
                prim.append(i)
        for i in order:
            if t.status[i] not in ('param', 'derived'):
                continue
            if t.status[i] == 'derived' and self.holds(t, i, t.cands[i][0], t.cands[i][1]):
                continue
            if t.status[i] == 'derived':
                tried.add((i, t.cands[i]))
                t.ex[i] = P(self.newparam('int', self.leaf_taint(t, i)))
                t.status[i] = 'param'
            ok = False
            cands = []
            for j in prim:
                if j == i:
                    continue
                h = t.hist[0]
                d = h[0][i] - h[0][j]
                if d.is_const() or self.const_like(d):
                    cands.append(('plus', j, d))
            if _s.CNT[0]:
                for key in self.keys:
                    for j in prim:
                        for sg in (1, -1):
                            cands.append(('cnt', j, key, sg))
            # values fixed across the loop combine: i = j - l etc. are left to the facts
            for c in cands:
                if (i, c) in tried:
                    continue
                if self.holds(t, i, c[0], c):
                    self.derive(t, i, c)
                    ok = True
                    break
                tried.add((i, c))
            if not ok and t.status[i] == 'param':
                prim.append(i)

    def elem_holds(self, c, lb, st, i):
        """is leaf i the (field of the) element of array leaf c[1] at c[2]?"""
        _, a, idx, fld = c
        return type(lb[i]) is Sym and elem_terms(self.E, st, lb[a], idx).get(fld) == lb[i].term

    def rederive_terms(self, t):
        tracked = self.tracked(t)
        tried = getattr(t, 'dead', set())
        t.dead = tried
        for i, (kind, _, _) in enumerate(t.w.leaves):
            if kind != 'term' or t.status[i] not in ('param', 'derived'):
                continue
            if t.status[i] == 'derived':
                if all(self.elem_holds(t.cands[i][1], lb, st, i) for lb, m, st in t.hist):
                    continue
                tried.add((i, t.cands[i][1]))
                t.ex[i] = Sym(t.ex[i].ty, ('lp', self.newparam('term', self.leaf_taint(t, i))))
                t.status[i] = 'param'
            for a, (k2, _, _) in enumerate(t.w.leaves):
                if k2 != 'arr' or t.status[a] != 'param' or t.status[i] != 'param':
                    continue
                for idx in tracked:
                    lb0, m0, st0 = t.hist[-1]
                    for fld in elem_terms(self.E, st0, lb0[a], idx):
                        c = ('elem', a, idx, fld)
                        if t.status[i] == 'param' and (i, c) not in tried and all(self.elem_holds(c, lb, st, i) for lb, m, st in t.hist):
                            term = ('cell', t.ex[a].base[1], idx)
                            t.ex[i] = Sym(t.ex[i].ty, term if fld is None else ('fld', term) + fld)
                            t.status[i] = 'derived'
                            t.cands[i] = ('elem', c)

    def const_like(self, d):
        return all(a.name in ('SIZE', 'CONST') for a in d.atoms()) or not (atoms_in(d, set()) & (self.params | {self.n}))

    def leaf_taint_pos(self, t, i):
        return 1 if self.leaf_taint(t, i) else 0

    def derive(self, t, i, c):
        t.status[i] = 'derived'
        t.cands[i] = (c[0], c)
        if c[0] == 'plus':
            t.ex[i] = t.ex[c[1]] + c[2]
        else:
            _, j, key, sg = c
            x0, y0 = t.hist[0][0][i], t.hist[0][0][j]
            t.ex[i] = x0 + (cnt(key, t.ex[j]) - cnt(key, y0)) * sg

    def holds(self, t, i, kind, c):
        for (lb, m, st) in t.hist:
            if kind == 'plus':
                if not st.entails_eq(lb[i] - lb[c[1]] - c[2]):
                    return False
            else:
                _, j, key, sg = c
                x0, y0 = t.hist[0][0][i], t.hist[0][0][j]
                if not st.entails_eq(lb[i] - x0 - (cnt(key, lb[j]) - cnt(key, y0)) * sg):
                    return False
        return True

    def propose(self, t):
        """candidate inequalities between integer leaves that hold in every
        incoming state seen so far"""
        ints = [i for i, l in enumerate(t.w.leaves) if l[0] == 'int']
        exprs = []
        for i in ints:
            e = t.ex[i]
            if e.is_const():
                continue
            if e not in [x[0] for x in exprs]:
                exprs.append((e, i))
        facts = []
        seenf = set()

        def add(f, val):
            """f: form over template expressions; val(lb, m): the same over an incoming state"""
            if f[0] in 'TF' or f in seenf:
                return
            seenf.add(f)
            for (lb, m, st) in t.hist:
                if st.test(val(lb, m)) is not True:
                    return
            facts.append(f)
        hasvar = lambda e: bool(atoms_in(e, set()) & (self.params | {self.n}))
        n = self.n
        x0 = t.hist[0][0]
        sizes = list(self.consts)
        for e, i in exprs:
            if not hasvar(e):
                continue
            add(ge(e), lambda lb, m, i=i: ge(lb[i]))
            for s in sizes:
                add(ge(s - e), lambda lb, m, i=i, s=s: ge(s - lb[i]))
                add(ge(s - e, 1), lambda lb, m, i=i, s=s: ge(s - lb[i], 1))
            add(ge(e - x0[i]), lambda lb, m, i=i: ge(lb[i] - x0[i]))
            add(ge(x0[i] - e), lambda lb, m, i=i: ge(x0[i] - lb[i]))
            if _s.CNT[0]:
                for key in self.keys[:3]:
                    add(ge(cnt(key, e) - cnt(key, self.start0(i, t)) - 1), lambda lb, m, i=i, key=key: ge(cnt(key, lb[i]) - cnt(key, self.start0(i, t)) - 1))
                if t.status[i] == 'param' and P(t.m0).is_const():
                    # one more counted element per iteration
                    for key in self.keys[:3]:
                        add(eq(cnt(key, e) - cnt(key, x0[i]) - (self.N - t.m0)), lambda lb, m, i=i, key=key: eq(cnt(key, lb[i]) - cnt(key, x0[i]) - (P(m) - t.m0)))
            if t.status[i] in ('param', 'derived') and P(t.m0).is_const():
                add(ge(x0[i] + self.N - t.m0 - e), lambda lb, m, i=i: ge(x0[i] + P(m) - t.m0 - lb[i]))
                add(ge(e - self.N + t.m0 - x0[i]), lambda lb, m, i=i: ge(lb[i] - P(m) + t.m0 - x0[i]))
            for e2, j in exprs:
                if i == j:
                    continue
                d = e2 - e
                if d.is_const():
                    continue
                add(ge(d), lambda lb, m, i=i, j=j: ge(lb[j] - lb[i]))
                if hasvar(e2) or True:
                    add(ge(-d), lambda lb, m, i=i, j=j: ge(lb[i] - lb[j]))
        # keep only facts not already implied by the entry facts
        t.facts = facts
        # word leaves: high bits clear
        pts = []
        for i, (kind, _, _) in enumerate(t.w.leaves):
            if kind == 'word' and t.status[i] == 'param':
                for s in sizes:
                    if all(zero_from(st, lb[i], s) for (lb, m, st) in t.hist):
                        pts.append(('zeros', t.ex[i], s, P(64)))
                for e, j in exprs:
                    if not hasvar(e):
                        continue
                    if all(zero_range(st, lb[i], ZERO, lb[j]) for (lb, m, st) in t.hist):
                        pts.append(('zeros', t.ex[i], ZERO, e))
                    if all(zero_range(st, lb[i], lb[j], P(64)) for (lb, m, st) in t.hist):
                        pts.append(('zeros', t.ex[i], e, P(64)))
                w0 = t.hist[0][0][i]
                for x in dict.fromkeys(l[1] for l in self.T[0].w.leaves if l[0] == 'word'):
                    if all(sub_word(st, lb[i], x) for (lb, m, st) in t.hist):
                        pts.append(('sub', t.ex[i], x))
                    if all(sub_word(st, x, lb[i]) for (lb, m, st) in t.hist):
                        pts.append(('sub', x, t.ex[i]))
            if kind == 'word':
                for idx in self.tracked(t):
                    vs = {st.test_bit(lb[i], idx) for (lb, m, st) in t.hist}
                    if len(vs) == 1 and None not in vs:
                        f = ('bit', t.ex[i], idx)
                        pts.append(('f', f if vs.pop() else ('not', f)))
            if kind == 'arr' and (t.status[i] == 'param' or t.status[i] == 'exact' and not t.ex[i].ov and t.ex[i].base[0] == t.hist[0][0][i].base[0] and len(t.ex[i].base) > 1 and type(t.ex[i].base[1]) is tuple):
                pts += self.arr_points(t, i)
        t.points = pts

    def start0(self, i, t):
        """value leaf i had when the loop was entered, if it can be told"""
        for l0 in self.T[0].w.leaves:
            if l0[0] == 'int' and l0[2] == t.w.leaves[i][2]:
                return l0[1]
        return ZERO

    def tracked(self, t):
        """ghost indices that stay fixed during the loop"""
        if not self.harness and not any(E_h(self.E, fr) for fr in self.S0.frames):
            return []
        out = []
        for i, (kind, v, (obj, path)) in enumerate(t.w.leaves):
            if kind == 'int' and t.status[i] == 'exact' and not P(t.ex[i]).is_const():
                if path and path[-1] == 'ord' and t.ex[i] not in out:
                    out.append(t.ex[i])
        return out[:4]

    def arr_points(self, t, i):
        E = self.E
        pts = []
        ety = t.ex[i].ety
        d = E.tys[ety]
        if d['k'] == 'adt' and d['ak'] == 'union':
            d = E.tys[E.peel(ety)]
        for idx in self.tracked(t):
            term = ('cell', t.ex[i].base[1], idx)
            if E.is_word(ety):
                q, r = word_pos(idx)
                vs = {peek_bit(E, st, lb[i], q, r) for (lb, m, st) in t.hist}
                if len(vs) == 1 and None not in vs:
                    f = ('bit', Word('v', ('cell', t.ex[i].base[1], q)), r)
                    pts.append(('f', f if vs.pop() else ('not', f)))
                continue
            if d['k'] == 'adt' and d['ak'] == 'enum':
                vs = set()
                for (lb, m, st) in t.hist:
                    vs.add(peek_variant(E, st, lb[i], idx))
                if len(vs) == 1 and None not in vs:
                    pts.append(('disc', term, vs.pop()))
        return pts

    def point_ok(self, b, p):
        E = self.E
        def bound(w):
            if type(w) is Word and w.k == 'v' and type(w.a) is tuple and type(w.a[1]) is tuple and w.a[1][0] == 'wordbind':
                return w.a[1][1]
            return w
        if p[0] == 'zeros':
            return zero_range(b, bound(p[1]), p[2], p[3])
        if p[0] == 'sub':
            return sub_word(b, bound(p[1]), bound(p[2]))
        if p[0] == 'f':
            f = p[1]
            v = f[0] == 'bit'
            g = f if v else f[1]
            w = g[1]
            if w.k == 'v' and type(w.a) is tuple and w.a[0] == 'cell':
                base = w.a[1]
                if type(base) is tuple and base[0] == 'lp' and type(base[1]) is tuple and base[1][0] == 'basebind':
                    return peek_bit(E, b, base[1][1], w.a[2], g[2]) is v
            return b.test_bit(bound(w), g[2]) is v
        if p[0] == 'disc':
            term, v = p[1], p[2]
            base = term[1]
            if type(base) is tuple and base[0] == 'lp' and type(base[1]) is tuple and base[1][0] == 'basebind':
                return peek_variant(E, b, base[1][1], term[2]) == v
            return b.variant(term) == v
        return False

    def presplit(self, b):
        """make live booleans concrete and resolve aliasing with tracked
        indices, so that states fall into clear classes"""
        E = self.E
        out = []
        work = [b]
        while work:
            s = work.pop()
            try:
                w = Walk(E, s, roots_of(E, s))
                for (kind, v, _) in w.leaves:
                    if kind == 'bool' and not (type(v.f[1]) is tuple and v.f[1][:1] == ('lp',)):
                        s.decide(v.f)
                for o in w.order:
                    if o in s.objs:
                        s.objs[o] = concretise_bools(s, s.objs[o])
                if self.split:
                    tr = [l[1] for l in w.leaves if l[0] == 'int' and l[2][1] and l[2][1][-1] == 'ord' and self.fixed(l[1])]
                    for li, (kind, v, _) in enumerate(w.leaves):
                        if kind == 'arr' and not E.is_word(v.ety):
                            for x in v.ov:
                                if x[0] == 'w' and atoms_in(x[1], set()):
                                    for i in tr[:4]:
                                        s.decide(eq(x[1], i))
                        if kind == 'word' and tr:
                            for i in tr[:4]:
                                if s.test_bit(v, i) is None and v.k != 'v':
                                    s.decide_bit(v, i)
                        if kind == 'arr' and tr and E.is_word(v.ety) and v.ov:
                            for i in tr[:4]:
                                q, r = word_pos(i)
                                x = E.to_word(E.arr_get(s, v, q))
                                if s.test_bit(x, r) is None:
                                    s.decide_bit(x, r)
                tr, words, ints, arrs = self.classes(Walk(E, s, roots_of(E, s)))
                for i in tr:
                    for x in words:
                        s.decide_bit(x, i)
                    for x in ints:
                        s.decide(lt(i, x))
                    for x in arrs:
                        v = E.arr_get(s, x, i)
                        if type(v) is Sym and s.variant(v.term) is None:
                            raise NeedSplit([[('disc', v.term, k)] for k in range(2)])
                out.append(s)
            except Infeasible:
                pass
            except NeedSplit as e:
                for alt in e.alts:
                    c = clone(E, s)
                    if all(c.apply(x) and not c.dead for x in alt):
                        work.append(c)
        return out

    def fixed(self, p):
        p = P(p)
        if p.is_const():
            return False
        return not (atoms_in(p, set()) & (self.params | {self.n})) and p in self.s0ints()

    def s0ints(self):
        r = getattr(self, '_s0i', None)
        if r is None:
            r = self._s0i = {l[1] for l in self.T[0].w.leaves if l[0] == 'int'}
        return r

    # -------------------------------------------------- alternatives
    def first_facts(self, allbacks):
        """what every way through the first iteration established, where that
        iteration is not described by the alternatives"""
        if any(not t.exact and not (P(t.m0).is_const() and P(t.m0).const() >= 1) for t in self.T):
            return ()
        got = None
        for (ti, t, b) in allbacks:
            if not (t.exact and P(t.m0).is_const() and P(t.m0).const() == 0):
                continue
            l = [e for e in b.log[t.base:] if e[0] in ('f', 'disc')]
            if got is None:
                got = l
            else:
                l = set(l)
                got = [e for e in got if e in l]
        return tuple(got or ())

    def gather(self, allbacks):
        """per-iteration alternatives: the conditions under which an iteration
        went around, as functions of the iteration number"""
        alts = []
        evs = []
        self.altsrc = []
        keys = []
        ok = True
        for (ti, t, b) in allbacks:
            log = []
            exact0 = t.exact and P(t.m0).is_const()
            for e in b.log[t.base:]:
                if e[0] in ('f', 'disc', 'alt', 'zeros'):
                    k = cond_key(e)
                    if k is not None and k[0] not in keys:
                        keys.append(k[0])
                    if exact0:
                        continue
                    if atoms_in(e, set()) & self.params:
                        continue
                    log.append(e)
            for ev in b.events[t.evbase:]:
                x = strip_event(ev)
                if x not in evs:
                    evs.append(x)
            if exact0:
                # a single concrete iteration: covered by the general ones
                b.altidx = None
                self.exact0 = True
                continue
            log = tuple(log)
            b.altidx = len(alts)
            alts.append(log)
            self.altsrc.append((ti, t, b, log))
        self.keys = keys
        # iterations below flo are not described by `alts`
        self.flo = max([P(t.m0).const() + 1 for t in self.T if t.exact and P(t.m0).is_const()], default=0)
        if getattr(self, 'noalts', False) or all(not a for a in alts):
            return (), tuple(evs)
        return tuple(alts), tuple(evs)

    def find_single(self):
        self.single = []
        if not self.alts:
            return
        first = None
        for alt in self.alts:
            s = {}
            for e in alt:
                k = cond_key(e)
                if k is not None:
                    key, idx, v = k
                    c = idx.t.get((self.n,))
                    if c in (1, -1):
                        rest = idx - Poly({(self.n,): c})
                        if self.n not in atoms_in(rest, set()):
                            s[(key, rest, c)] = v
            if first is None:
                first = s
            else:
                first = {k: v for k, v in first.items() if s.get(k) == v}
        for (key, rest, c), v in first.items():
            self.single.append((key, rest, c, v))


def E_h(E, fr):
    return fr.b is not None and E.prog.bodies[fr.b].get('crate') == 'harness'


def concretise_bools(s, v):
    t = type(v)
    if t is Bool:
        if v.f[0] in 'TF':
            return v
        r = s.test(v.f)
        return v if r is None else (T if r else F)
    if t is Agg:
        return Agg(v.ty, v.var, [concretise_bools(s, x) for x in v.fs])
    return v


def cond_key(e):
    """(prefix-count key, index, value) of a condition about one cell or bit"""
    if e[0] == 'disc':
        s = cell_split(e[1])
        if s is not None:
            return (('d', s[0]), s[1], 1 if e[2] == 1 else 0)
    if e[0] == 'f':
        f = e[1]
        v = 1
        if f[0] == 'not':
            f = f[1]
            v = 0
        if f[0] == 'bit':
            key, idx = bit_key(f[1], f[2])
            return (key, idx, v)
    return None


def strip_event(ev):
    e, site = ev
    if e[0] in ('drop',):
        return (('drop', 'x'), site)
    if e[0] in ('alloc', 'work'):
        return ((e[0], 'loop'), site)
    if e[0] == 'user':
        return (e[:2], site)
    if e[0] in ('dropseq', 'dealloc'):
        return ((e[0], 'x'), site)
    return ev


def word_pos(idx):
    """word and bit at which element number idx of a set is kept"""
    q = P(_p._rebuilders['div']((P(idx), P(64))))
    return q, P(idx) - q * 64


def elem_terms(E, st, arr, idx):
    try:
        v = E.arr_get(st, arr, idx)
    except (NeedSplit, Stuck):
        return {}
    if type(v) is Sym:
        r = {None: v.term}
        k = st.variant(v.term)
        if k is not None:
            for i, ft in enumerate(E.field_tys(v.ty, k)):
                r[(k, i)] = ('fld', v.term, k, i)
        return r
    if type(v) is Agg:
        return {(v.var, i): x.term for i, x in enumerate(v.fs) if type(x) is Sym}
    return {}


def peek_bit(E, st, arr, q, r):
    try:
        v = E.arr_get(st, arr, q)
        return st.test_bit(E.to_word(v), r)
    except (NeedSplit, Stuck):
        return None


def peek_variant(E, st, arr, idx):
    try:
        v = E.arr_get(st, arr, idx)
    except (NeedSplit, Stuck):
        return None
    if type(v) is Agg:
        return v.var
    if type(v) is Sym:
        return st.variant(v.term)
    return None


def zero_range(st, w, lo, hi):
    """are all bits of w at positions in [lo, hi) known to be zero?"""
    lo, hi = P(lo), P(hi)
    if st.entails_ge(lo - hi):
        return True
    k = w.k
    if k == 'c' and w.a == 0:
        return True
    if k == 'bit':
        return st.entails_ge(lo - P(w.a) - 1) or st.entails_ge(P(w.a) - hi)
    if k == 'or' or k == 'xor':
        return zero_range(st, w.a, lo, hi) and zero_range(st, w.b, lo, hi)
    if k == 'and':
        if zero_range(st, w.a, lo, hi) or zero_range(st, w.b, lo, hi):
            return True
        # cleared bits fill the gaps between known ranges of zeros
        gaps = []
        x = w
        while x.k == 'and' and x.b.k == 'not' and x.b.a.k == 'bit':
            gaps.append(P(x.b.a.a))
            x = x.a
        for g in gaps:
            if st.entails_ge(g - lo) and st.entails_ge(hi - 1 - g) and zero_range(st, x, lo, g) and zero_range(st, x, g + 1, hi):
                return True
    for (w2, a, b) in st.zeros:
        if w2 == w and st.entails_ge(lo - a) and st.entails_ge(b - hi):
            return True
    if st.entails_ge(hi - 64):
        return zero_from(st, w, lo)
    return False


def sub_word(st, a, b, dep=0):
    """is every bit of a known to be a bit of b?"""
    if a == b or a.k == 'c' and a.a == 0:
        return True
    if a.k == 'and' and (sub_word(st, a.a, b, dep) or sub_word(st, a.b, b, dep)):
        return True
    if a.k == 'or':
        return sub_word(st, a.a, b, dep) and sub_word(st, a.b, b, dep)
    if a.k == 'bit':
        return st.test_bit(b, a.a) is True
    if b.k == 'or' and (sub_word(st, a, b.a, dep) or sub_word(st, a, b.b, dep)):
        return True
    for x, y in st.subs:
        if x == a and (y == b or dep < 3 and y != a and sub_word(st, y, b, dep + 1)):
            return True
    return False


def zero_from(st, w, s):
    """are all bits of w at positions >= s known to be zero?"""
    k = w.k
    if k == 'c':
        if w.a == 0:
            return True
        return st.entails_ge(s - w.a.bit_length())
    if k == 'bit':
        return st.entails_ge(s - P(w.a) - 1)
    if k == 'lm':
        return st.entails_ge(s - P(w.a))
    if k == 'or' or k == 'xor':
        return zero_from(st, w.a, s) and zero_from(st, w.b, s)
    if k == 'and':
        return zero_from(st, w.a, s) or zero_from(st, w.b, s)
    for (w2, lo, hi) in st.zeros:
        if w2 == w and st.entails_ge(s - lo) and st.entails_ge(hi - 64):
            return True
    return st.entails_ge(s - 64)


# ------------------------------------------------------------ reading records
def loop_read(E, st, rec, idx):
    """value at idx of an array written by a summarised loop; None: untouched"""
    _, lid, (lo, hi), widx, alts = rec
    if widx is None:
        return None
    n = lid
    j = solve_index(widx, n, idx)
    if j is None:
        raise Stuck('loop record index')
    if not (st.decide(ge(j, lo)) and st.decide(lt(j, hi))):
        return None
    vals = [v for _, v in alts]
    if all(v is None for v in vals):
        return None
    k = st.alts.get((lid, j))
    if k is None:
        for (l2, j2), k2 in st.alts.items():
            if l2 == lid and st.entails_eq(j - j2):
                k = k2
                break
    if k is None:
        m = {n: j}
        if len(alts) == 1:
            for e in subst(alts[0][0], m):
                if not st.apply(e):
                    raise Infeasible()
            st.apply(('alt', lid, j, 0))
            k = 0
        else:
            raise NeedSplit([[('alt', lid, j, a)] + list(subst(alts[a][0], m)) for a in range(len(alts))])
    v = vals[k]
    if v is None:
        return None
    return subst(v, {n: j})
