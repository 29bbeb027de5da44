#!/usr/bin/env python3
"""check.py <property>: decides one property from /repo's current source."""
import json, multiprocessing, os, shutil, signal, subprocess, sys, tempfile, time
sys.setrecursionlimit(20000)
ROOT = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(ROOT, 'engine'))
REPO = os.environ.get('OMV_REPO', '/repo')     # another tree only while developing


def sh(cmd, env=None, cwd=None, timeout=600):
    e = dict(os.environ)
    e.update(env or {})
    r = subprocess.run(cmd, cwd=cwd, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=timeout)
    return r.returncode, r.stdout


class Build:
    """scratch copies of the driver and of the program representation"""

    def __init__(self):
        self.dir = tempfile.mkdtemp(prefix='omv')
        rc, out = sh(['rustc', '+nightly', '--print', 'sysroot'])
        self.lib = out.strip() + '/lib'

    def driver(self):
        d = os.path.join(self.dir, 'driver')
        if not os.path.exists(d):
            rc, out = sh(['rustc', '+nightly', '-O', '--edition', '2021', '-Awarnings', os.path.join(ROOT, 'driver/main.rs'), '-o', d],
                         env={'LD_LIBRARY_PATH': self.lib})
            if rc:
                raise SystemExit('driver does not build:\n' + out)
        return d

    def crate(self, src, target):
        """cargo check of a crate of ours against /repo; returns (rc, output)"""
        return sh(['cargo', '+nightly', 'check', '--offline'], cwd=src, env={'CARGO_TARGET_DIR': os.path.join(self.dir, target)})

    def dump(self, features, release):
        out = os.path.join(self.dir, 'dump-%s-%s.json' % (features, 'r' if release else 'd'))
        h = os.path.join(self.dir, 'harness')
        if not os.path.exists(h):
            shutil.copytree(os.path.join(ROOT, 'harness'), h, ignore=shutil.ignore_patterns('target', 'Cargo.lock'))
            if REPO != '/repo':
                p = os.path.join(h, 'Cargo.toml')
                with open(p) as f:
                    t = f.read()
                with open(p, 'w') as f:
                    f.write(t.replace('"/repo/', '"%s/' % REPO))
        env = {
            'LD_LIBRARY_PATH': self.lib, 'OMV_OUT': out, 'OMV_CRATE': 'harness',
            'OMV_STOP': os.path.join(ROOT, 'driver/stop.txt'), 'RUSTC_WRAPPER': self.driver(),
            'RUSTFLAGS': '-Zalways-encode-mir -Zmir-opt-level=0 -Zub-checks=no -Awarnings',
            'CARGO_TARGET_DIR': os.path.join(self.dir, 'tgt-' + ('r' if release else 'd')),
        }
        cmd = ['cargo', '+nightly', 'check', '--offline', '--features', features] + (['--release'] if release else [])
        rc, txt = sh(cmd, env=env, cwd=h)
        if rc or not os.path.exists(out):
            return None, txt
        return out, txt

    def close(self):
        shutil.rmtree(self.dir, ignore_errors=True)


# ------------------------------------------------------------------ analysis
_G = {}


def st_(E):
    return {k: v for k, v in E.stats.items() if k != 'functions'}


def _one(job):
    import run
    P0, opts, reg, name, b = _G['P'], _G['opts'], _G['reg'], job[0], job[1]
    from interp import Engine
    t = time.time()
    left = int(min(_G['limit'], _G['end'] - t)) if _G.get('end') else _G['limit']
    if left < 1:
        return dict(name=name, ends={}, reports=[], stuck={'out of time': 1}, obl={}, stats={}, fns=[], s=0, events=[])
    signal.alarm(left)
    o = dict(opts)
    o.update(_G['per'].get(name.rsplit('::', 1)[-1], {}))
    E = Engine(P0, o)
    try:
        outs = run.run_entry(E, b, reg)
        ends = {}
        for x in outs:
            ends[x.end] = ends.get(x.end, 0) + 1
        ev = run.collect_events(E, outs)
        return dict(name=name, ends=ends, reports=list(E.reports.values()), stuck={str(k): v for k, v in E.stuck.items()},
                    obl={str(k): v for k, v in E.obligations.items()}, guards=sorted(E.guards), stats=st_(E), fns=sorted(map(str, E.stats['functions'])), s=time.time() - t, events=ev)
    except TimeoutError:
        return dict(name=name, ends={}, reports=[], stuck={'time limit': 1}, obl={}, stats=st_(E), fns=sorted(map(str, E.stats['functions'])), s=time.time() - t, events=[])
    except Exception as e:
        import traceback
        return dict(name=name, ends={}, reports=[], stuck={'analyser error %r %s' % (e, traceback.format_exc()[-900:]): 1}, obl={}, stats=st_(E), fns=sorted(map(str, E.stats['functions'])), s=time.time() - t, events=[])
    finally:
        signal.alarm(0)


def _alarm(*a):
    raise TimeoutError()


def generators(P0, opts, limit, results, tag, end):
    """class invariants of the container types, from the generator loops"""
    import run
    from interp import Engine
    reg = {}
    for name, b in P0.roots:
        if 'omv_inv' not in name:
            continue
        o = dict(opts)
        o['invariant'] = True
        E = Engine(P0, o)
        t = time.time()
        signal.alarm(max(1, int(min(limit, end - t))))
        try:
            outs = run.run_entry(E, b, reg)
            rets = [x for x in outs if x.end == 'return']
            run.register(P0, b, reg, rets)
            stuck = {str(k): v for k, v in E.stuck.items()}
        except TimeoutError:
            stuck = {'time limit': 1}
        except Exception as e:
            stuck = {'analyser error %r' % e: 1}
        finally:
            signal.alarm(0)
        results.append(dict(name=name, ends={}, reports=list(E.reports.values()), stuck=stuck, obl={}, stats=st_(E),
                            fns=sorted(map(str, E.stats['functions'])), s=time.time() - t, events=[], inv=True, confirm=tag))
    return reg


def filtered(r, keep):
    """only what the property is about"""
    if keep:
        r['reports'] = [x for x in r['reports'] if keep(x)]
        r['obl'] = {k: v for k, v in r['obl'].items() if keep({'kind': 'check', 'label': k})}
    return r


def analyse(dump, opts, want=lambda n: True, per=None, limit=240, bound=2, allow=(420, 280), keep=None, gbound=None):
    """runs every specification in the dump; returns list of result dicts.
    A specification that loop invariants leave open is gone through again with
    the first iterations of every loop kept apart: only a failure seen there is
    a violation."""
    import state as _s
    from interp import Prog
    P0 = Prog(dump)
    _s.CNT[0] = bool(opts.get('cnt'))
    _s.BOUNDED[0] = False
    signal.signal(signal.SIGALRM, _alarm)
    results = []
    end = time.time() + allow[0]
    reg = generators(P0, opts, limit, results, False, time.time() + allow[0] / 3)
    _G.update(P=P0, opts=opts, reg=reg, per=per or {}, limit=limit, end=end)
    jobs = [(n, b) for n, b in P0.roots if 'omv_inv' not in n and want(n)]
    with multiprocessing.get_context('fork').Pool(8) as pool:
        first = pool.map(_one, jobs, chunksize=1)
    results += first
    for r in results:
        filtered(r, keep)
    bad = {r['name'] for r in results if r['stuck'] or any(x['undecided'] for x in r['reports'])}
    if any(r.get('inv') and r['name'] in bad for r in results):
        bad |= {n for n, b in jobs}
    jobs = [(n, b) for n, b in jobs if n in bad]
    if jobs:
        o = dict(opts)
        _s.BOUNDED[0] = True
        junk = []
        o['bounded'] = gbound or bound
        end = time.time() + allow[1]
        reg = generators(P0, o, limit, junk, True, time.time() + allow[1] / 3)
        o = dict(o)
        o['bounded'] = bound
        _G.update(opts=o, reg=reg, end=end)
        with multiprocessing.get_context('fork').Pool(8) as pool:
            second = {r['name']: filtered(r, keep) for r in pool.map(_one, jobs, chunksize=1)}
        for r in junk:
            filtered(r, keep)
        _s.BOUNDED[0] = False
        for r in first:
            if r['name'] in second:
                r['second'] = second[r['name']]
        for r in junk:
            r['name'] += ' (first iterations)'
        results += [r for r in junk if r['reports']]
    return results


# ------------------------------------------------------------------ reporting
class Outcome:
    def __init__(self, pid):
        self.pid = pid
        self.violations = []      # (key, text)
        self.undecided = []
        self.cov = {'explanation': '', 'entries': 0, 'obligations': 0, 'discharged': 0, 'paths': 0, 'steps': 0, 'loops': 0,
                    'functions_analysed': [], 'samples': [], 'undecided': []}
        self.fns = set()
        self.guards = set()

    def add(self, results, mode):
        c = self.cov
        for r in results:
            c['entries'] += 1
            for k, v in r['obl'].items():
                c['obligations'] += 1
                if not v[1]:
                    c['discharged'] += 1
            c['paths'] += r['stats'].get('paths', 0)
            c['steps'] += r['stats'].get('steps', 0)
            c['loops'] += r['stats'].get('loops', 0)
            self.guards |= {tuple(g) for g in r.get('guards', ())}
            self.fns |= {f for f in r['fns'] if 'ordinal' in f}
            two = r.get('second')
            seen = set()
            for q in [r] + ([two] if two else []):
                for rep in q['reports']:
                    if not rep['undecided']:
                        key = '%s %s %s' % (r['name'], rep['kind'], rep['label'])
                        if key not in seen:
                            seen.add(key)
                            self.violations.append((key, self.text(r, rep, mode)))
            note = '' if not two else '; first iterations of each loop: %s, %d paths' % (
                'no violation' if not two['stuck'] else 'not understood: ' + '; '.join(two['stuck'])[:300], two['stats'].get('paths', 0))
            for k, v in r['stuck'].items():
                self.undecided.append('%s [%s]: not understood: %s%s' % (r['name'], mode, k, note))
            for rep in r['reports']:
                if rep['undecided'] and '%s %s %s' % (r['name'], rep['kind'], rep['label']) not in seen:
                    self.undecided.append('%s [%s]: %s %s: %s%s' % (r['name'], mode, rep['kind'], rep['label'], rep['undecided'], note))
            if len(c['samples']) < 6 and r['obl']:
                c['samples'].append({'specification': r['name'], 'mode': mode, 'paths': r['stats'].get('paths', 0), 'obligations': r['obl'], 'ends': r['ends']})

    def text(self, r, rep, mode):
        t = ['specification %s (%s build)' % (r['name'], mode),
             '%s %s' % (rep['kind'], rep['label']),
             'at %s' % (rep['site'],), 'call path:']
        t += ['  ' + str(x) for x in rep.get('calls', [])]
        t += ['path condition (last entries):'] + ['  ' + str(x) for x in rep.get('path', [])]
        return '\n'.join(t)


def known(pid):
    out = {}
    p = os.path.join(ROOT, 'known-findings.txt')
    if os.path.exists(p):
        for l in open(p):
            l = l.strip()
            if l.startswith('known: property=%s ' % pid):
                rest = l[len('known: property=%s ' % pid):]
                key, _, what = rest.partition(' :: ')
                out[key] = what
    return out


def finish(o, t0, explanation, assumptions, tier):
    pid = o.pid
    ev = os.environ.get('OMV_EVIDENCE', os.path.join(ROOT, 'evidence'))
    os.makedirs(ev, exist_ok=True)
    c = o.cov
    c['explanation'] = explanation
    c['functions_analysed'] = sorted(o.fns)
    c['undecided'] = o.undecided[:50]
    c['panic_guards_met'] = len(o.guards)
    c['panic_guards'] = ['%s, block %d' % g for g in sorted(o.guards)][:400]
    kn = known(pid)
    new = []
    for key, txt in o.violations:
        if key in kn:
            print('KNOWN-FINDING: property=%s %s' % (pid, kn[key]))
        else:
            new.append((key, txt))
    d = {'property': pid, 'tier': tier, 'seed': int(os.environ.get('VERIF_SEED', '1') or 1), 'level': LEVEL, 'coverage': c,
         'assumptions': assumptions, 'wall_s': round(time.time() - t0, 2), 'violations': len(new)}
    with open(os.path.join(ev, pid + '.json'), 'w') as f:
        json.dump(d, f, indent=1)
    print('%s: %d specifications, %d obligations (%d discharged), %d paths, %d loops, %d functions, %d undecided, %.1fs' % (
        pid, c['entries'], c['obligations'], c['discharged'], c['paths'], c['loops'], len(o.fns), len(o.undecided), time.time() - t0))
    for u in o.undecided[:20]:
        print('  undecided:', u[:300])
    if new:
        path = os.path.join(ev, pid + '.violation.txt')
        with open(path, 'w') as f:
            for key, txt in new:
                f.write(txt + '\n\n')
        for key, txt in new[:5]:
            print(txt)
        print('VIOLATION property=%s replay=%s' % (pid, path))
        return 1
    return 0


LEVEL = 'other'


def main():
    import props
    pid = sys.argv[1]
    tier = os.environ.get('VERIF_TIER', 'quick')
    if tier not in ('quick', 'thorough'):
        tier = 'quick'
    t0 = time.time()
    b = Build()
    signal.signal(signal.SIGTERM, lambda *a: (b.close(), os._exit(2)))
    try:
        o = Outcome(pid)
        expl, assume = props.run(pid, tier, b, o, sys.modules[__name__])
        return finish(o, t0, expl, assume, tier)
    finally:
        b.close()


if __name__ == '__main__':
    sys.exit(main())
