#!/usr/bin/env python3
"""Development helper (not a check): make / validate a planted bug.
  seed.py make ID FILE <<< JSON [[old,new],...]     writes seeded/ID/patch.diff against /repo HEAD
  seed.py try ID [--check C..] validates in a private mount namespace with a scratch copy bound over /repo"""
import sys, os, json, subprocess, shutil, tempfile
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
BASE = subprocess.run(['git','-C','/repo','rev-list','--max-parents=0','HEAD'],stdout=subprocess.PIPE,text=True).stdout.split()[0]
def sh(c, **k): return subprocess.run(c, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **k)
def orig_rev():
    revs = sh("git -C /repo log --format='%H %s'").stdout.splitlines()
    for l in revs:
        h, s = l.split(' ', 1)
        if not s.startswith('fix:'): return h
def make(sid, edits):
    d = tempfile.mkdtemp(prefix='seed')
    sh('git -C /repo worktree prune; git clone -q /repo %s/r' % d)
    o = orig_rev()
    for f, old, new in edits:
        p = '%s/r/src/mpack/%s' % (d, f)
        t = open(p).read()
        assert t.count(old) == 1, (f, t.count(old), old)
        open(p, 'w').write(t.replace(old, new))
    out = sh('git -C %s/r diff' % d).stdout
    # removed lines must be original
    of = {}
    for l in out.splitlines():
        if l.startswith('--- a/'): cur = l[6:]; of[cur] = sh('git -C /repo show %s:%s' % (o, cur)).stdout.splitlines()
        elif l.startswith('-') and l[1:].strip() and l[1:] not in of[cur]: print('NOT ORIGINAL LINE:', l)
    os.makedirs('%s/seeded/%s' % (V, sid), exist_ok=True)
    open('%s/seeded/%s/patch.diff' % (V, sid), 'w').write(out)
    shutil.rmtree(d)
def attempt(sid, checks):
    d = tempfile.mkdtemp(prefix='seedtry')
    sd = '%s/seeded/%s' % (V, sid)
    script = f'''set -e
cp -a /repo {d}/repo
mount --bind {d}/repo /repo
cd /repo
bash /opt/vp/build.sh >/dev/null 2>&1
rc=0; bash {sd}/demo.sh >{d}/demo0 2>&1 || rc=$?
echo "demo unpatched rc=$rc"
git apply {sd}/patch.diff
rc=0; bash /opt/vp/test.sh {d}/out.json >{d}/test.log 2>&1 || rc=$?
tail -1 {d}/test.log
rc=0; bash {sd}/demo.sh >{d}/demo1 2>&1 || rc=$?
echo "demo patched rc=$rc"
tail -3 {d}/demo1
'''
    for c in checks: script += f'''
rc=0; VERIF_SEED=1 {V}/check {c} quick >{d}/chk 2>&1 || rc=$?
echo "check {c} rc=$rc: $(grep -a VIOLATION {d}/chk | head -2)"
'''
    r = sh("unshare -m bash -s", input=script)
    print(r.stdout)
    shutil.rmtree(d)
if __name__ == '__main__':
    if sys.argv[1] == 'make': make(sys.argv[2], json.load(sys.stdin))
    else: attempt(sys.argv[2], sys.argv[3:])
