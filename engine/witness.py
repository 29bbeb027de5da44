"""Compile-time witnesses: small client programs judged by the compiler alone.
Nothing of theirs is run. A witness either has to build or has to be refused
with one of the named error codes; a refused one always has a twin that differs
only in the offending detail and has to build."""
import concurrent.futures, glob, os, re, subprocess


class W:
    def __init__(self, name, code, bad=(), edition='2021', twin=None, why='', flags=()):
        self.name, self.code, self.bad, self.edition = name, code, tuple(bad), edition
        self.twin, self.why, self.flags = twin, why, list(flags)


def library(b, repo, release):
    """builds the crate under test; returns rustc arguments"""
    d = os.path.join(b.dir, 'wit')
    os.makedirs(os.path.join(d, 'src'), exist_ok=True)
    with open(os.path.join(d, 'Cargo.toml'), 'w') as f:
        f.write('[package]\nname = "wit"\nversion = "0.0.0"\nedition = "2021"\n[workspace]\n[dependencies]\n'
                'ordinal-map = { path = "%s/ordinal-map", features = ["either"] }\neither = "1"\n' % repo)
    with open(os.path.join(d, 'src/lib.rs'), 'w') as f:
        f.write('')
    tgt = os.path.join(b.dir, 'wit-tgt')
    r = subprocess.run(['cargo', 'build', '--offline'] + (['--release'] if release else []), cwd=d, text=True, stdout=subprocess.PIPE,
                       stderr=subprocess.STDOUT, env=dict(os.environ, CARGO_TARGET_DIR=tgt))
    if r.returncode:
        return None, r.stdout
    deps = os.path.join(tgt, 'release' if release else 'debug', 'deps')
    args = ['-L', 'dependency=' + deps]
    for n in ('ordinal_map', 'either'):
        g = glob.glob(os.path.join(deps, 'lib%s-*.rlib' % n))
        if len(g) != 1:
            return None, 'library file of %s not found' % n
        args += ['--extern', '%s=%s' % (n, g[0])]
    return args, ''


CODE = re.compile(r'^error(?:\[(E\d+)\])?: (.*)$', re.M)


def build_one(b, args, w, release, k, emit):
    src = os.path.join(b.dir, 'w%d.rs' % k)
    with open(src, 'w') as f:
        f.write(w.code)
    cmd = ['rustc', '--edition', w.edition, '--crate-type', 'bin', '--crate-name', 'w%d' % k, '--emit=' + emit, '-Awarnings' if not w.flags else '-Ccodegen-units=1',
           '-o', os.path.join(b.dir, 'w%d.out' % k)] + w.flags + args + [src]
    cmd += ['-Copt-level=3'] if release else ['-Cdebug-assertions=on', '-Copt-level=0']
    r = subprocess.run(cmd, cwd=b.dir, text=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
    for p in glob.glob(os.path.join(b.dir, 'w%d.*' % k)):
        os.unlink(p)
    if r.returncode == 0:
        return True, set(), ''
    codes = {c or 'E?' for c, m in CODE.findall(r.stdout) if not m.startswith('aborting') and not m.startswith('could not compile')}
    return False, codes, r.stdout


def decide(b, repo, ws, release, o, mode, emit='obj'):
    """adds to the outcome; o.violations / o.undecided"""
    args, txt = library(b, repo, release)
    c = o.cov
    if args is None:
        o.undecided.append('the library does not build [%s]: %s' % (mode, txt[-1500:]))
        return
    with concurrent.futures.ThreadPoolExecutor(8) as ex:
        res = list(ex.map(lambda kw: build_one(b, args, kw[1], release, kw[0], emit), enumerate(ws)))
    okname = {w.name for w, r in zip(ws, res) if r[0]}
    for w, (ok, codes, out) in zip(ws, res):
        c['entries'] += 1
        c['obligations'] += 1
        if not w.bad:
            if ok:
                c['discharged'] += 1
            else:
                o.violations.append((w.name, 'program %s (%s build) has to build and does not: %s\n%s\nprogram:\n%s' % (w.name, mode, w.why, out[:6000], w.code)))
            continue
        if ok:
            o.violations.append((w.name, 'program %s (%s build) has to be refused and builds: %s\nprogram:\n%s' % (w.name, mode, w.why, w.code)))
        elif codes <= set(w.bad) and (w.twin is None or w.twin in okname):
            c['discharged'] += 1
        else:
            o.undecided.append('%s [%s]: refused for another reason %s' % (w.name, mode, sorted(codes)))
        if len(c['samples']) < 6:
            c['samples'].append({'program': w.name, 'mode': mode, 'refused_with': sorted(codes), 'text': w.code[-700:]})
