#!/usr/bin/env python3
"""seed.py add <dir with spec.json + demo.rs>...  | verify [id...] | detect [id...]

A planted bug is /verif/seeded/<id>/{patch.diff,demo.sh,demo.rs,meta.json}.
verify: in a scratch copy of /repo: applies, builds, stable tests pass, demo
        passes without and fails with the patch.
detect: runs the property's check on a scratch copy with the patch."""
import json, os, shutil, subprocess, sys, tempfile
SEEDED = '/verif/seeded'
DEMO = '''#!/bin/bash
# run with cwd = the repository
set -e
D="$(cd "$(dirname "$0")" && pwd)"
R="$PWD"
T="$(mktemp -d)"
trap 'rm -rf "$T"' EXIT
mkdir -p "$T/src"
cp "$D/demo.rs" "$T/src/main.rs"
cat > "$T/Cargo.toml" <<EOF
[package]
name = "demo"
version = "0.0.0"
edition = "2021"
[dependencies]
ordinal-map = { path = "$R/ordinal-map"%s }
[profile.release]
debug-assertions = false
[workspace]
EOF
export CARGO_TARGET_DIR="$T/target"
cd "$T"
%s
'''


def sh(c, cwd=None):
    r = subprocess.run(c, shell=True, cwd=cwd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    return r.returncode, r.stdout


def add(path):
    """path: a python file with a list SEEDS of dicts"""
    ns = {}
    exec(open(path).read(), ns)
    for s in ns['SEEDS']:
        d = os.path.join(SEEDED, s['id'])
        os.makedirs(d, exist_ok=True)
        t = tempfile.mkdtemp(prefix='seed')
        try:
            sh('git -C /repo worktree prune; git clone -q /repo %s/r' % t)
            for f, old, new in s['edits']:
                p = '%s/r/%s' % (t, f)
                x = open(p).read()
                if x.count(old) != 1:
                    raise SystemExit('%s: %d matches of %r in %s' % (s['id'], x.count(old), old, f))
                open(p, 'w').write(x.replace(old, new))
            rc, diff = sh('git diff', cwd=t + '/r')
            open(d + '/patch.diff', 'w').write(diff)
        finally:
            shutil.rmtree(t)
        run = s.get('run', 'cargo run -q --offline')
        open(d + '/demo.sh', 'w').write(DEMO % (s.get('feat', ''), run))
        os.chmod(d + '/demo.sh', 0o755)
        open(d + '/demo.rs', 'w').write(s['demo'])
        json.dump({'property': s['prop'], 'needs': s['needs'], 'what_it_breaks': s['breaks']}, open(d + '/meta.json', 'w'), indent=1)


def verify(ids):
    t = tempfile.mkdtemp(prefix='seedv')
    ok = True
    try:
        for i in ids:
            sh('rm -rf %s/r; cp -a /repo %s/r' % (t, t))
            d = os.path.join(SEEDED, i)
            r = t + '/r'
            a, o1 = sh('bash %s/demo.sh' % d, cwd=r)
            p, o2 = sh('git apply %s/patch.diff' % d, cwd=r)
            b, o3 = sh('cargo build --workspace --offline --all-features 2>&1 | tail -5; exit ${PIPESTATUS[0]}'.replace('exit', 'exit'), cwd=r)
            c, o4 = sh('bash -c "set -o pipefail; CARGO_NET_OFFLINE=true cargo test --workspace --offline --all-features 2>&1 | grep -E \'FAILED|[1-9][0-9]* failed|^error\' | head -8"', cwd=r)
            e, o5 = sh('bash %s/demo.sh' % d, cwd=r)
            good = a == 0 and p == 0 and e != 0 and not o4.strip()
            ok &= good
            print(i, 'ok' if good else 'BAD demo0=%d apply=%d demo1=%d\\n%s\\n%s\\n%s\\n%s' % (a, p, e, o1[-500:], o2, o4, o5[-600:]), flush=True)
    finally:
        shutil.rmtree(t)
    return ok


def detect(ids):
    t = tempfile.mkdtemp(prefix='seedd')
    for i in ids:
        d = os.path.join(SEEDED, i)
        pid = json.load(open(d + '/meta.json'))['property']
        sh('rm -rf %s/r; cp -a /repo %s/r' % (t, t))
        rc, o = sh('git apply %s/patch.diff' % d, cwd=t + '/r')
        if rc:
            print(i, 'does not apply', o)
            continue
        rc, o = sh('OMV_REPO=%s/r OMV_EVIDENCE=%s/ev VERIF_TIER=quick python3 /verif/check.py %s' % (t, t, pid))
        l = [x for x in o.splitlines() if x.startswith(pid + ':')]
        print(i, pid, {0: 'MISSED', 1: 'caught'}.get(rc, 'rc=%d %s' % (rc, o[-300:])), l[0] if l else o[-300:], flush=True)
        if rc == 0:
            for x in o.splitlines():
                if 'undecided:' in x:
                    print('     ', x[:250])
    shutil.rmtree(t)


if __name__ == '__main__':
    cmd, args = sys.argv[1], sys.argv[2:]
    if cmd == 'add':
        for a in args:
            add(a)
    else:
        ids = args or sorted(os.listdir(SEEDED))
        {'verify': verify, 'detect': detect}[cmd](ids)
