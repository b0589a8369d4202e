"""Builds and validates planted bugs: plant(id, property, edits, needs, breaks, demo).
Works in a scratch copy of /repo; writes /verif/seeded/<id>/ when the change
compiles, passes the stable tests, and the demo tells the two trees apart."""
import json, os, shutil, subprocess, sys, tempfile

STABLE = set(json.load(open('/opt/vp/BASELINE.json'))['stable'])
ENV = dict(os.environ, GOFLAGS='', GOPROXY='off', GOTOOLCHAIN='local')

DEMO = r'''#!/bin/bash
# exit 0: the property holds; nonzero: it is broken. Run in the repository.
here="$(cd "$(dirname "$0")" && pwd)"
repo="$PWD"
d="$(mktemp -d)"
trap 'rm -rf "$d"' EXIT
cp "$here"/*.go "$d/"
{ echo "module demo"; echo "go 1.20"
  echo "require github.com/julioguillermo/godeep v0.0.0"
  echo "replace github.com/julioguillermo/godeep => $repo"; } > "$d/go.mod"
cp "$repo/go.sum" "$d/go.sum"
cd "$d" || exit 3
export GOFLAGS=-mod=mod GOPROXY=off GOTOOLCHAIN=local GOSUMDB=off GOWORK=off
go build -o demo . || exit 3
timeout 120 ./demo
'''

def sh(cmd, cwd):
    return subprocess.run(cmd, cwd=cwd, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)

def tests(repo):
    env = '. /opt/vp/env.sh; cd %s; export GODEBUG=randautoseed=0; go test -json -vet=off -count=1 -timeout 10m ./...' % repo
    p = subprocess.run(['bash', '-c', env], stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, text=True)
    ok = set()
    for l in p.stdout.splitlines():
        try: d = json.loads(l)
        except ValueError: continue
        if d.get('Action') == 'pass' and d.get('Test'):
            ok.add(d['Package'] + '/' + d['Test'])
    return STABLE - ok

def plant(id, prop, edits, needs, breaks, demo, extra=None):
    d = '/verif/seeded/' + id
    t = tempfile.mkdtemp(prefix='plant.', dir='/tmp')
    try:
        repo = t + '/repo'
        subprocess.run(['cp', '-a', '/repo', repo], check=True)
        for f, old, new in edits:
            p = repo + '/' + f
            s = open(p).read()
            assert s.count(old) == 1, (id, f, 'matches', s.count(old), old[:60])
            open(p, 'w').write(s.replace(old, new))
        sh('gofmt -w ' + ' '.join(sorted({e[0] for e in edits})), repo)
        diff = subprocess.run(['git', '-C', repo, 'diff'], stdout=subprocess.PIPE, text=True).stdout
        b = sh('go build ./...', repo)
        if b.returncode: print(id, 'DOES NOT BUILD', b.stdout[:1500]); return False
        x = t + '/demo'; os.mkdir(x)
        open(x + '/main.go', 'w').write(demo)
        open(x + '/demo.sh', 'w').write(DEMO)
        r1 = sh('bash %s/demo.sh' % x, '/repo')
        r2 = sh('bash %s/demo.sh' % x, repo)
        miss = tests(repo)
        good = r1.returncode == 0 and r2.returncode not in (0, 3) and not miss
        print(id, prop, 'OK' if good else 'BAD', 'clean=%d planted=%d' % (r1.returncode, r2.returncode), 'failing tests:', sorted(miss)[:5])
        if r1.returncode: print('   clean:', r1.stdout[-1200:])
        print('   planted:', r2.stdout[-300:].strip())
        if not good: return False
        shutil.rmtree(d, ignore_errors=True)
        os.makedirs(d)
        open(d + '/patch.diff', 'w').write(diff)
        open(d + '/demo.sh', 'w').write(DEMO)
        open(d + '/main.go', 'w').write(demo)
        json.dump({'property': prop, 'needs': needs, 'what_it_breaks': breaks}, open(d + '/meta.json', 'w'), indent=1)
        return True
    finally:
        shutil.rmtree(t, ignore_errors=True)
