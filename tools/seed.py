#!/usr/bin/env python3
"""Build and validate planted bugs.

seed.py SPEC.py [ID...]   builds /verif/seeded/<ID>/ from the entries of SPEC.py
and validates each one in a scratch copy of /repo: the patch applies and builds, the
stable tests still pass with it, the demonstration passes without and fails with it.
It then says which properties the analyser reports for the patched tree.

A spec file defines seeds = [dict(id=, property=, needs=, breaks=, pkg=, edits=[(file, old, new)],
test=GO TEST SOURCE)].  -n skips the stable tests; -d skips everything but the analyser.
"""
import importlib.util, json, os, re, shutil, subprocess, sys, tempfile

REPO = '/repo'
SEEDED = '/verif/seeded'
DEMO = '''#!/bin/bash
# Runs the demonstration beside this file as an in-package test of the tree in the
# current directory: exit 0 if the behaviour is right, 1 if it is not.
here=$(cd "$(dirname "$0")" && pwd)
root=$(pwd)
if [ -d /opt/veriftools/go1.23.12/bin ]; then PATH=/opt/veriftools/go1.23.12/bin:$PATH; fi
export PATH GOTOOLCHAIN=local GOPROXY=off GOFLAGS=-mod=readonly GOWORK=off HOME="${HOME:-/root}"
export GOPATH=/root/go GOMODCACHE=/root/go/pkg/mod
tmp=$(mktemp -d)
trap 'rm -rf "$tmp"' EXIT
printf '{"Replace": {"%%s": "%%s"}}' "$root/%(pkg)s/zz_demo_test.go" "$here/demo.go.txt" > "$tmp/overlay.json"
timeout 250 go test -overlay "$tmp/overlay.json" -vet=off -count=1 -timeout 200s -run '^TestDemo$' %(flags)s ./%(pkg)s > "$tmp/out" 2>&1
rc=$?
tail -25 "$tmp/out"
exit $rc
'''

def run(cmd, cwd, **kw):
    env = dict(os.environ, PATH='/opt/veriftools/go1.23.12/bin:' + os.environ['PATH'], GOTOOLCHAIN='local', GOPROXY='off', GOFLAGS='-mod=readonly', GOWORK='off')
    return subprocess.run(cmd, cwd=cwd, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **kw)

def stable(work):
    want = set(json.load(open('/opt/vp/BASELINE.json'))['stable'])
    r = run(['sh', '-c', 'go test -json -vet=off -count=1 -timeout 5m ./... | grep -v \'"Action":"output"\''], work)
    got = set()
    for l in r.stdout.splitlines():
        if '"Action":"pass"' in l and '"Test"' in l:
            e = json.loads(l)
            got.add(e['Package'] + '/' + e['Test'])
    return sorted(want - got)

def main():
    args = [a for a in sys.argv[1:] if not a.startswith('-')]
    flags = [a for a in sys.argv[1:] if a.startswith('-')]
    spec = importlib.util.spec_from_file_location('s', args[0])
    m = importlib.util.module_from_spec(spec); spec.loader.exec_module(m)
    for s in m.seeds:
        if len(args) > 1 and s['id'] not in args[1:]:
            continue
        work = tempfile.mkdtemp(prefix='seed')
        try:
            os.rmdir(work); shutil.copytree(REPO, work, symlinks=True)
            for f, old, new in s['edits']:
                p = os.path.join(work, f); t = open(p).read()
                if t.count(old) != 1:
                    raise SystemExit('%s: %d matches in %s of %r' % (s['id'], t.count(old), f, old))
                open(p, 'w').write(t.replace(old, new))
            diff = subprocess.run(['git', 'diff'], cwd=work, stdout=subprocess.PIPE, text=True).stdout
            d = os.path.join(SEEDED, s['id']); os.makedirs(d, exist_ok=True)
            open(os.path.join(d, 'patch.diff'), 'w').write(diff)
            open(os.path.join(d, 'demo.go.txt'), 'w').write(s['test'].lstrip())
            demo = DEMO % dict(pkg=s['pkg'], flags=s.get('flags', ''))
            open(os.path.join(d, 'demo.sh'), 'w').write(demo); os.chmod(os.path.join(d, 'demo.sh'), 0o755)
            json.dump(dict(property=s['property'], needs=s['needs'], what_it_breaks=s['breaks']), open(os.path.join(d, 'meta.json'), 'w'), indent=1)
            msg = []
            if '-d' not in flags:
                r = run(['go', 'build', './...'], work)
                if r.returncode: msg.append('BUILD FAILS\n' + r.stdout)
                r = run([os.path.join(d, 'demo.sh')], work)
                if r.returncode == 0: msg.append('DEMO PASSES WITH THE PATCH')
                elif '-v' in flags: print(r.stdout)
                if 'build failed' in r.stdout or 'setup failed' in r.stdout: msg.append('DEMO DOES NOT BUILD ' + r.stdout)
                r = run([os.path.join(d, 'demo.sh')], REPO)
                if r.returncode: msg.append('DEMO FAILS ON CLEAN\n' + r.stdout)
                if '-n' not in flags:
                    miss = stable(work)
                    if miss: msg.append('STABLE TESTS FAIL: %s' % miss)
            out = tempfile.mkdtemp()
            r = run(['/tmp/concheck', '-dir', work, '-prop', 'all', '-out', out], work)
            shutil.rmtree(out)
            got = sorted(set(re.findall(r'VIOLATION property=(\w+)', r.stdout)))
            print('%-28s %-4s %s reported=%s %s' % (s['id'], s['property'], 'CAUGHT' if s['property'] in got else 'missed', ','.join(got), ' / '.join(msg) or 'ok'), flush=True)
        finally:
            shutil.rmtree(work, ignore_errors=True)
main()
