#!/usr/bin/env python3
"""seedtest.py [--nocheck] id...: confirms planted bugs in scratch copies of /repo (applies, builds, stable tests pass,
demo passes unpatched and fails patched) and runs this property's quick check against the patched copy."""
import json, os, shutil, subprocess, sys, tempfile
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))

def sh(cmd, cwd=None, env=None, timeout=900):
    p = subprocess.run(cmd, shell=True, cwd=cwd, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=timeout)
    return p.returncode, p.stdout

def one(i, nocheck):
    d = os.path.join(V, 'seeded', i)
    meta = json.load(open(d + '/meta.json'))
    t = tempfile.mkdtemp(prefix='seed_')
    try:
        sh('cp -a /repo %s/repo' % t)
        r = t + '/repo'
        rc, o = sh('git apply --check %s/patch.diff' % d, r)
        if rc: return i, meta['property'], 'DOES NOT APPLY ' + o
        env = dict(os.environ, PYTHONPATH=r, PYTHONDONTWRITEBYTECODE='1')
        shutil.copytree(d, t + '/demo')
        rc0, o0 = sh('bash %s/demo/demo.sh' % t, r, env, 300)
        sh('git apply %s/patch.diff' % d, r)
        rc1, o1 = sh('bash %s/demo/demo.sh' % t, r, env, 300)
        rct, ot = sh('/opt/venv/bin/python -m pytest -q -p no:cacheprovider -x tests/test_autocast.py', r, dict(env, PYTHONHASHSEED='0', MPLBACKEND='Agg'))
        res = 'demo %s/%s tests %s' % (rc0, rc1, 'ok' if rct == 0 else 'FAIL ' + ot[-300:])
        if rc0 != 0: res += '\n' + o0[-800:]
        if rc1 == 0: res += '\n' + o1[-300:]
        if not nocheck:
            env2 = dict(os.environ, VERIF_REPO=r, VERIF_SEED='1', VERIF_TIER='quick')
            rcc, oc = sh('python3 %s/check.py %s quick' % (V, meta['property']), V, env2)
            v = [l for l in oc.splitlines() if l.startswith('VIOLATION') or l.startswith('MACHINERY')]
            cl = sorted({l.split(' clause ')[1].split()[0] for l in oc.splitlines() if ' clause ' in l})
            res += ' | check rc=%s %s %s' % (rcc, 'CAUGHT' if rcc == 1 and v else 'MISSED', ','.join(cl))
            if rcc not in (0, 1): res += oc[-1500:]
        return i, meta['property'], res
    finally:
        shutil.rmtree(t, True)

if __name__ == '__main__':
    a = sys.argv[1:]
    nocheck = '--nocheck' in a
    a = [x for x in a if not x.startswith('--')]
    ids = []
    for x in a or ['']:
        ids += [y for y in sorted(os.listdir(V + '/seeded')) if y.startswith(x) and y not in ids]
    for i in ids:
        print(*one(i, nocheck), flush=True)
