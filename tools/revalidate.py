"""Validates the planted bugs again, after a change in /repo: each patch must
apply, build, pass the stable tests, and be told apart by its demo.
usage: revalidate.py [DIR of planted bugs] [ids...]"""
import os, shutil, subprocess, sys, tempfile
from concurrent.futures import ThreadPoolExecutor
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from plantlib import sh, tests

root = sys.argv[1] if len(sys.argv) > 1 else '/verif/seeded'
ids = sys.argv[2:] or sorted(os.listdir(root))

def one(id):
    d = root + '/' + id
    t = tempfile.mkdtemp(prefix='reval.', dir='/tmp')
    try:
        repo = t + '/repo'
        subprocess.run(['cp', '-a', '/repo', repo], check=True)
        r = sh('git apply %s/patch.diff' % d, repo)
        if r.returncode: return id, 'DOES NOT APPLY'
        if sh('go build ./...', repo).returncode: return id, 'DOES NOT BUILD'
        miss = tests(repo)
        if miss: return id, 'FAILS %s' % sorted(miss)[:3]
        a, b = sh('bash %s/demo.sh' % d, '/repo'), sh('bash %s/demo.sh' % d, repo)
        if a.returncode: return id, 'DEMO FAILS ON THE UNCHANGED TREE ' + a.stdout[-200:]
        if b.returncode in (0, 3): return id, 'DEMO DOES NOT TELL'
        return id, 'ok'
    finally:
        shutil.rmtree(t)

with ThreadPoolExecutor(3) as ex:
    for id, r in ex.map(one, ids):
        print(id, r, flush=True)
