"""Runs the specification entries of a dump."""
import sys, time
sys.path.insert(0, __file__.rsplit('/', 1)[0])
sys.setrecursionlimit(20000)
from poly import *
from state import *
import state as _s
from interp import *
import loops


def entry_state(E, b, registry):
    """initial abstract states for a spec function (one per combination of
    partitions of its arguments)"""
    body = E.prog.bodies[b]
    states = [(new_state(), [])]
    for i, ty in enumerate(body['locals'][1:body['argc'] + 1]):
        nxt = []
        for st, args in states:
            for s2, v in arg_values(E, st, ty, ('arg', body['name'], i), registry):
                nxt.append((s2, args + [v]))
        states = nxt
    out = []
    for st, args in states:
        if st.dead:
            continue
        fr = E.mkframe(st, b, None, -1, -1)
        for i, a in enumerate(args):
            st.objs[('L', fr.fid, i + 1)] = a
        st.frames.append(fr)
        out.append(st)
    return out


_inst = [0]


def arg_values(E, st, ty, term, registry):
    d = E.tys[ty]
    if d['s'] in registry:
        out = []
        for (src, val) in registry[d['s']]:
            s2 = clone_state(st)
            v = instantiate(E, s2, src, val)
            if not s2.dead:
                out.append((s2, v))
        return out
    if d['k'] == 'ref':
        out = []
        for s2, v in arg_values(E, st, d['ty'], term + ('*',), registry):
            o = ('A', term)
            s2.objs[o] = v
            out.append((s2, Ref(o)))
        return out
    s2 = clone_state(st)
    try:
        return [(s2, E.lift(s2, ty, term))]
    except Infeasible:
        return []


def instantiate(E, st, src, val):
    """copy the facts and reachable objects of a generated value into st under
    fresh names"""
    _inst[0] += 1
    k = _inst[0]
    s = clone_state(src)
    ats = set()
    for x in s.ge + s.eq + s.ne:
        loops.atoms_in(x, ats)
    for x in (list(s.disc), list(s.bools), s.bits, s.zeros, s.subs, s.weqs, s.foralls, s.log):
        loops.atoms_in(tuple(x), ats)
    objs = reach(s, val)
    for o in objs:
        loops.atoms_in(o, ats)
        loops.atoms_in(s.objs[o], ats)
    loops.atoms_in(val, ats)
    cache = {}
    f = lambda x: _rt(x, k, cache)
    st.ge += [f(x) for x in s.ge]
    st.eq += [f(x) for x in s.eq]
    st.ne += [f(x) for x in s.ne]
    st.disc.update({f(t): v for t, v in s.disc.items()})
    st.bools.update({f(t): v for t, v in s.bools.items()})
    st.bits += [(f(w), f(i), v) for w, i, v in s.bits]
    st.zeros += [(f(w), f(a), f(b)) for w, a, b in s.zeros]
    st.subs += [(f(a), f(b)) for a, b in s.subs]
    st.weqs += [(f(a), f(b)) for a, b in s.weqs]
    st.foralls += [(f(n), f(c), f(al), lo) for n, c, al, lo in s.foralls]
    st.log += [f(x) for x in s.log]
    for o in objs:
        st.objs[f(o)] = f(s.objs[o])
    if not st.feas_all2():
        st.dead = True
    return f(val)


def _rt(x, k, c):
    t = type(x)
    if t is tuple:
        if x and x[0] in ('any', 'arg', 'call', 'unext', 'uiter', 'default') and x[0] != 'default':
            return x + (('inst', k),) if not (x and type(x[-1]) is tuple and x[-1][:1] == ('inst',)) else x
        if x and x[0] in ('H', 'A'):
            return x + (('inst', k),)
        return tuple(_rt(y, k, c) for y in x)
    if t is Atom:
        if not x.args:
            return x
        r = c.get(x)
        if r is None:
            args = tuple(_rt(y, k, c) for y in x.args)
            if x.name in ('n', 'bn', 'lp', 'lpt'):
                args = args + (('inst', k),)
            if args == x.args:
                r = x
            else:
                import poly
                f = poly._rebuilders.get(x.name)
                if f is not None:
                    r = f(args)
                else:
                    r = atom(x.name, args, _rto(x.lo, k, c), _rto(x.hi, k, c), tuple(_rt(y, k, c) for y in x.ax), x.taint)
            c[x] = r
        return r
    if t is Poly:
        if not any(a.args for mm in x.t for a in mm):
            return x
        r = ZERO
        for mono, cf in x.t.items():
            p = P(cf)
            for a in mono:
                p = p * P(_rt(a, k, c))
            r = r + p
        return r
    if hasattr(x, 'terms'):
        return type(x)(*[_rt(y, k, c) for y in x.key()])
    return x


def _rto(x, k, c):
    return None if x is None else _rt(x, k, c)


def reach(s, val):
    out = []
    seen = set()

    def go(v):
        t = type(v)
        if t in (Ref, SIter):
            if v.obj not in seen and v.obj in s.objs:
                seen.add(v.obj)
                out.append(v.obj)
                go(s.objs[v.obj])
        elif t is Agg:
            for x in v.fs:
                go(x)
        elif t is Vec:
            go(v.arr)
        elif t is AIter:
            go(v.arr)
        elif t is Arr:
            if v.base[0] == 'list':
                for x in v.base[1]:
                    go(x)
            if v.base[0] == 'rep':
                go(v.base[1])
            for w in v.ov:
                if w[0] == 'w':
                    go(w[2])
    go(val)
    return out


def run_entry(E, b, registry, keep=False):
    outs = []
    for st in entry_state(E, b, registry):
        for o in E.explore(st, None):
            E.stats['paths'] += 1
            if E.opts.get('ledger'):
                if o.end in ('return', 'panic'):
                    E.ledger(o)
            elif o.end == 'panic':
                E.report_panic(o)
            outs.append(o)
    return outs


def register(P0, b, reg, rets):
    ty = P0.tys[P0.bodies[b]['locals'][0]]['s']
    reg.setdefault(ty, [])
    reg[ty] = reg[ty] + [(o, o.ret) for o in rets]


def collect_events(E, outs):
    s = []
    for o in outs:
        if o.end == 'return':
            s.append([e for e in o.events])
    return []


def main():
    import argparse
    ap = argparse.ArgumentParser()
    ap.add_argument('dump')
    ap.add_argument('pat', nargs='?', default='')
    ap.add_argument('--trace', action='store_true')
    ap.add_argument('--loops', action='store_true')
    ap.add_argument('--cnt', action='store_true')
    ap.add_argument('--release', action='store_true')
    ap.add_argument('--unroll', type=int, default=0)
    ap.add_argument('--bounded', type=int, default=0)
    ap.add_argument('--unwind', action='store_true')
    ap.add_argument('--ret', action='store_true')
    a = ap.parse_args()
    P0 = Prog(a.dump)
    _s.CNT[0] = a.cnt
    _s.BOUNDED[0] = bool(a.bounded)
    reg = {}
    opts = {'trace': a.trace, 'trace_loops': a.loops, 'debug': not a.release, 'unroll': a.unroll, 'bounded': a.bounded, 'unwind': a.unwind}
    for name, b in P0.roots:
        if 'omv_inv' in name:
            E = Engine(P0, opts)
            outs = run_entry(E, b, reg)
            rets = [o for o in outs if o.end == 'return']
            ty = P0.tys[P0.bodies[b]['locals'][0]]['s']
            register(P0, b, reg, rets)
            if a.ret or E.stuck or E.reports:
                print('INV', name, ty, len(rets), [o.end for o in outs if o.end != 'return'], E.stuck, E.reports)
                for o in rets:
                    print('   ', o.ret, '| ge', o.ge, 'eq', o.eq, 'zeros', o.zeros, [(x, o.objs[x]) for x in reach(o, o.ret)])
    for name, b in P0.roots:
        if a.pat in name and 'omv_inv' not in name:
            t = time.time()
            E = Engine(P0, opts)
            try:
                outs = run_entry(E, b, reg)
            except Exception:
                import traceback
                print(name, 'ERROR', ''.join(traceback.format_exc()[-700:]))
                continue
            ends = {}
            for o in outs:
                ends[o.end] = ends.get(o.end, 0) + 1
            print('%-40s %.2fs %s steps=%d obl=%s' % (name, time.time() - t, ends, E.stats['steps'], len(E.obligations)) + (' FAIL %s' % sorted(k[1] for k, v in E.obligations.items() if v[1]) if any(v[1] for v in E.obligations.values()) else ''))
            for k, r in E.reports.items():
                print('   REPORT', r['kind'], r['label'], r['site'], 'UNDECIDED ' + r['undecided'] if r['undecided'] else '')
                if a.trace:
                    for p in r['path']:
                        print('        ', p)
            for k, n in E.stuck.items():
                print('   STUCK', k, n)
            if a.ret:
                for o in outs:
                    print('   RET', o.end, o.ret)
                    print('      ge', o.ge, 'eq', o.eq, 'ne', o.ne)


if __name__ == '__main__':
    main()
