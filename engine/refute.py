"""Is an apparent violation real?  A failed obligation is reported only when
nothing on its path was over-approximated and its path condition has a small
integer witness; otherwise it is undecided."""
from poly import *
from state import *
from loops import atoms_in


def path_atoms(st):
    s = set()
    for e in st.log:
        atoms_in(e, s)
    return s


def from_generator(a):
    return any(type(x) is tuple and x[:1] == ('inst',) for x in a.args)


def undecided(E, st):
    """reason why the failure is not a confirmed violation, or None"""
    bad = [a for a in path_atoms(st) if a.taint]
    if bad:
        return 'depends on an over-approximated value (%s)' % ', '.join(sorted(map(repr, bad))[:3])
    if not E.opts.get('bounded'):
        if 'inexact' in st.notes or any(a.name in ('lp', 'lpt') and not from_generator(a) for a in path_atoms(st)):
            return 'behind a loop'
    if not st.feas_all2():
        return 'path infeasible'
    try:
        if not consistent(st, [40]):
            return 'path infeasible'
    except (NeedSplit, Unsure):
        return 'path condition not understood'
    return None


class Unsure(Exception):
    pass


def indices(st):
    """positions the path speaks of"""
    out = dict.fromkeys(i for _, i, _ in st.bits)
    for a in sorted(path_atoms(st), key=lambda a: a.id):
        if a.name in ('ordof', 'tz', 'hb', 'wd'):
            out[P(a)] = None
    return list(out)


def consistent(st, budget):
    """all that is known of the words, positions and alternatives of the path
    taken together"""
    budget[0] -= 1
    if budget[0] < 0:
        raise Unsure()
    st = st.clone()
    for f, v in list(st.bools.items()):
        if f[0] == 'wz' and v is False and f[1].k in COMPOSITE:
            i = P(atom('wd', (f[1],), ZERO, P(63)))
            if not st.assume(st.bit_form(f[1], i)):
                return False
    while True:
        n = len(st.log)
        pend = None
        for f, v in list(st.bools.items()):
            if f[0] != 'or' or not v:
                continue
            a, b = st.test(f[1]), st.test(f[2])
            if a is False and b is False:
                return False
            if a is False:
                st.assume(f[2])
            elif b is False:
                st.assume(f[1])
            elif a is None and b is None:
                pend = f
            if st.dead:
                return False
        idx = indices(st)
        for w, i, v in list(st.bits):
            if v and w in ENDS:
                for e, p in zip(ENDS[w], (lambda x: i - x, lambda x: x - i)):
                    if e is not None and not st.assume(ge(p(e))):
                        return False
            if v is True and st.test_bit(w, i) is False:
                return False
            if w.k in COMPOSITE:
                f = st.bit_form(w, i)
                r = st.test(f)
                if r is (not v):
                    return False
                if r is None and not st.assume(f if v else neg(f)):
                    return False
            for z in list(st.zeros):
                st._outside(w, i, v, z)
                if st.dead:
                    return False
        for w, lo, hi in list(st.zeros):
            for i in idx:
                if st.entails_ge(i - lo) and st.entails_ge(hi - 1 - i):
                    f = st.bit_form(w, i)
                    r = st.test(f)
                    if r is True or r is None and not st.assume(neg(f)):
                        return False
                    if r is False:
                        # without what says it is zero, is it set?
                        keep = st.zeros
                        st.zeros = [z for z in keep if z != (w, lo, hi)]
                        r = st.test_bit(w, i)
                        st.zeros = keep
                        if r is True:
                            return False
        for a, b in list(st.weqs):
            for i in idx:
                f, g = st.bit_form(a, i), st.bit_form(b, i)
                x, y = st.test(f), st.test(g)
                if x is not None and y is not None:
                    if x != y:
                        return False
                elif x is not None and not st.assume(g if x else neg(g)) or y is not None and not st.assume(f if y else neg(f)):
                    return False
        divs = {}
        for a in sorted(path_atoms(st), key=lambda a: a.id):
            if a.name == 'div':
                divs.setdefault(a.args[1], []).append(a)
        for l in divs.values():
            for a in l:
                for b in l:
                    # division is monotone
                    if a is not b and not st.entails_ge(P(a) - P(b)) and st.entails_ge(P(a.args[0]) - P(b.args[0])):
                        if not st.assume(ge(P(a) - P(b))):
                            return False
        if st.dead or not st.feas_all2():
            return False
        if len(st.log) == n:
            break
        budget[0] -= 0.5
        if budget[0] < 0:
            raise Unsure()
    if pend is not None:
        for f in (pend[1], pend[2]):
            b = st.clone()
            if b.assume(f) and consistent(b, budget):
                return True
        return False
    for p in list(st.ne)[:1]:
        for q in (p - 1, -p - 1):
            b = st.clone()
            b.ne = [x for x in b.ne if x is not p]
            if b.assume(ge(q)) and consistent(b, budget):
                return True
        return False
    r = grounded(st) if nonlinear(st) else integer_feasible(st.ge, st.eq, 200)
    if r is None:
        raise Unsure()
    return r


def closure(st):
    at = set()
    for p in st.ge + st.eq + st.ne:
        at |= p.atoms()
    return at, atom_axioms(at, st.ge, st.eq)


def curved(st):
    """atoms to be given values before every fact is linear"""
    at, ax = closure(st)
    out = set()
    for p in st.ge + st.eq + st.ne + ax:
        for m in p.t:
            if len(m) >= 2:
                out |= set(m)
        for a in p.atoms():
            if a.name == 'div' and not P(a.args[1]).is_const():
                out |= P(a.args[1]).atoms()
    return out


def nonlinear(st):
    return bool(curved(st))


SIZES = [2, 1, 3, 4, 2 ** 32, 7, 2 ** 63, 2 ** 31, 256]


def grounded(st):
    """the facts with small numbers for the sizes they multiply and divide by"""
    import itertools, random
    var = sorted((a for a in curved(st) if a.name in ('SIZE', 'CONST')), key=lambda a: a.id)
    rnd = random.Random(1)
    tries = [[2] * len(var), [3] * len(var), [1] * len(var)]
    tries += [list(x) for x in itertools.islice(itertools.product(SIZES[:3], repeat=len(var)), 81)]
    tries += [[rnd.choice(SIZES) for _ in var] for _ in range(300)]
    n = 0
    for vals in tries:
        m = {a: P(v) for a, v in zip(var, vals)}
        ges = [subst(p, m) for p in st.ge]
        eqs = [subst(p, m) for p in st.eq]
        if any(p.is_const() and p.const() < 0 for p in ges) or any(p.is_const() and p.const() for p in eqs):
            continue
        at = set()
        for p in ges + eqs:
            at |= p.atoms()
        ax = atom_axioms(at, ges, eqs)
        if any(len(mm) >= 2 for p in ges + eqs + ax for mm in p.t):
            continue
        if any(p.is_const() and p.const() < 0 for p in ax):
            continue
        n += 1
        if n > 40:
            break
        if integer_feasible(ges, eqs, 100):
            return True
    raise Unsure()


def describe(E, st):
    out = []
    for e in st.log[-14:]:
        if e[0] == 'f':
            out.append(form(e[1]))
        elif e[0] == 'disc':
            out.append('%s is variant %d' % (show(e[1]), e[2]))
    return out


def form(f):
    k = f[0]
    if k in ('ge', 'eq', 'ne'):
        return '%r %s 0' % (f[1], {'ge': '>=', 'eq': '==', 'ne': '!='}[k])
    return show(f)
