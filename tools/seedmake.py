#!/usr/bin/env python3
"""Make a planted bug: apply edits to a scratch copy of /repo, confirm that it builds, passes the stable
tests, and that its demonstration fails with it and passes without it; then write /verif/seeded/<id>/.

usage: seedmake.py SPEC.py [ID...]     (SPEC.py defines SEEDS, a list of dicts)
Not used by any check."""
import json, os, re, shutil, subprocess, sys, importlib.util, pathlib

SCRATCH = '/tmp/seedrepo'
SEEDED = pathlib.Path('/verif/seeded')
D = 'validators-derive/src/validator_handlers/'

DEMO = '''#!/bin/bash
# exit 0 when the property holds on this input, nonzero otherwise (run with cwd = the repository)
set -u
HERE=$(cd "$(dirname "$0")" && pwd)
REPO=$PWD
rm -rf /tmp/seed-demo-%(id)s
mkdir -p /tmp/seed-demo-%(id)s/src || exit 3
trap 'rm -rf /tmp/seed-demo-%(id)s' EXIT
cp "$HERE/main.rs" /tmp/seed-demo-%(id)s/src/main.rs || exit 3
cp "$REPO/Cargo.lock" /tmp/seed-demo-%(id)s/Cargo.lock || exit 3
cat > /tmp/seed-demo-%(id)s/Cargo.toml <<TOML
[package]
name = "demo"
version = "0.0.0"
edition = "2021"
[workspace]
[dependencies]
validators = { path = "$REPO/validators", default-features = false, features = [%(features)s] }
%(deps)s
TOML
cd /tmp/seed-demo-%(id)s || exit 3
export CARGO_TARGET_DIR=/tmp/seed-demo-%(id)s/target CARGO_NET_OFFLINE=true CARGO_INCREMENTAL=0
%(run)s
'''
RUN = 'exec_demo() { cargo run -q --offline; }\nexec_demo\n'

def sh(cmd, **kw):
    return subprocess.run(cmd, shell=True, text=True, capture_output=True, **kw)

def env(repo):
    e = dict(os.environ, CARGO_HOME='/root/.cargo', CARGO_TARGET_DIR=repo + '/target', CARGO_NET_OFFLINE='true',
             RUSTUP_TOOLCHAIN='stable-x86_64-unknown-linux-gnu', CARGO_INCREMENTAL='1',
             CARGO_PROFILE_DEV_DEBUG='line-tables-only', CARGO_TERM_COLOR='never')
    return e

def demo(path, repo):
    e = dict(os.environ); e.pop('CARGO_TARGET_DIR', None)
    return subprocess.run(['bash', str(path)], cwd=repo, env=e, text=True, capture_output=True, timeout=290)

def main():
    spec = importlib.util.spec_from_file_location('s', sys.argv[1]); m = importlib.util.module_from_spec(spec); spec.loader.exec_module(m)
    want = set(sys.argv[2:])
    if not os.path.isdir(SCRATCH):
        sh('cp -a /repo ' + SCRATCH)
    sh('git -C %s fetch -q /repo && git -C %s reset -q --hard FETCH_HEAD' % (SCRATCH, SCRATCH))
    base = json.load(open('/opt/vp/BASELINE.json'))
    for s in m.SEEDS:
        if want and s['id'] not in want: continue
        if not want and (SEEDED / s['id'] / 'patch.diff').exists(): continue
        sh('git -C %s checkout -q -- .' % SCRATCH)
        ok = True
        for ed in s['edits']:
            f, old, new = ed[:3]; n = ed[3] if len(ed) > 3 else 0
            p = pathlib.Path(SCRATCH) / f; t = p.read_text()
            parts = t.split(old)
            if len(parts) < 2 or (n != 'all' and n + 1 >= len(parts)):
                print(s['id'], 'EDIT NOT FOUND', f, repr(old)[:80], len(parts) - 1); ok = False; break
            if n == 'all': t = new.join(parts)
            else:
                if len(ed) <= 3 and len(parts) != 2: print(s['id'], 'ambiguous edit', len(parts) - 1, repr(old)[:60]); ok = False; break
                t = old.join(parts[:n + 1]) + new + old.join(parts[n + 1:])
            p.write_text(t)
        if not ok: continue
        diff = sh('git -C %s diff' % SCRATCH).stdout
        tmp = pathlib.Path('/tmp/seed/') / s['id']
        shutil.rmtree(tmp, ignore_errors=True); tmp.mkdir(parents=True)
        (tmp / 'patch.diff').write_text(diff)
        feats = ', '.join('"%s"' % x for x in (['std', 'derive'] + s['features']))
        (tmp / 'demo.sh').write_text(DEMO % dict(id=s['id'].lower(), features=feats, deps=s.get('deps', ''), run=s.get('run', RUN)))
        (tmp / 'main.rs').write_text(s['main'])
        for k, v in s.get('files', {}).items(): (tmp / k).write_text(v)
        (tmp / 'meta.json').write_text(json.dumps({'property': s['property'], 'needs': s['needs'], 'what_it_breaks': s['breaks']}, indent=1) + '\n')
        r = sh('cargo test --workspace --all-features --no-fail-fast --offline -- --test-threads 8', cwd=SCRATCH, env=env(SCRATCH))
        out = r.stdout + r.stderr
        failed = re.findall(r'^test (.*) \.\.\. FAILED', out, re.M); passed = len(re.findall(r' \.\.\. ok$', out, re.M))
        if r.returncode != 0 or failed:
            print(s['id'], 'TESTS CATCH IT', failed[:5], out[-600:] if not failed else ''); continue
        bad = demo(tmp / 'demo.sh', SCRATCH)
        sh('git -C %s checkout -q -- .' % SCRATCH)
        good = demo(tmp / 'demo.sh', SCRATCH)
        if good.returncode != 0 or bad.returncode == 0:
            print(s['id'], 'DEMO WRONG clean=%d patched=%d' % (good.returncode, bad.returncode), good.stderr[-800:]); continue
        if 'could not compile' in bad.stderr and not s.get('compile'):
            print(s['id'], 'DEMO DOES NOT COMPILE PATCHED', bad.stderr[-500:]); continue
        dst = SEEDED / s['id']; shutil.rmtree(dst, ignore_errors=True); shutil.copytree(tmp, dst)
        print(s['id'], 'ok', passed, 'tests;', bad.stderr.strip().splitlines()[:2])
main()
