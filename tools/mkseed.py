#!/usr/bin/env python3
"""mkseed.py SPEC.py...   SPEC defines ID, PROP, EDITS=[(file, old, new)], NEEDS, BREAKS, DEMO (python source).
Validates in a scratch copy (tests pass, demo fails with / passes without the change), stores
/verif/seeded/<ID>/ and reports whether the check of the property catches it."""
import json, os, re, shutil, subprocess, sys, tempfile
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


def sh(cmd, cwd, env=None, timeout=1200):
    p = subprocess.run(cmd, shell=True, cwd=cwd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, env=dict(os.environ, **(env or {})), timeout=timeout)
    return p.returncode, p.stdout.decode('utf-8', 'replace')


def scratch():
    d = tempfile.mkdtemp(prefix='seed_')
    sh('cp -a /repo %s/repo' % d, '/')
    return d


def run(spec, nocheck=False):
    ns = {}
    exec(compile(open(spec).read(), spec, 'exec'), ns)
    ID, PROP = ns['ID'], ns['PROP']
    d = scratch()
    r = d + '/repo'
    try:
        dd = d + '/demo'
        os.makedirs(dd)
        open(dd + '/demo.py', 'w').write(ns['DEMO'])
        open(dd + '/demo.sh', 'w').write('#!/bin/bash\n# exit 0: behaves as the property says\nexport PYTHONDONTWRITEBYTECODE=1 PYTHONPATH="$PWD"\n'
                                         'exec /opt/venv/bin/python -W ignore "$(dirname "$(realpath "$0")")/demo.py"\n')
        rc0, out0 = sh('bash %s/demo.sh' % dd, r)
        if rc0:
            return ID, 'DEMO FAILS ON CLEAN TREE: ' + out0[-1500:]
        for f, old, new in ns['EDITS']:
            p = r + '/' + f
            s = open(p).read()
            if s.count(old) != 1:
                return ID, 'edit text occurs %d times in %s' % (s.count(old), f)
            open(p, 'w').write(s.replace(old, new))
        rc, patch = sh('git diff', r)
        rc1, out1 = sh('bash %s/demo.sh' % dd, r)
        if rc1 == 0:
            return ID, 'DEMO PASSES WITH THE CHANGE'
        t = open('/opt/vp/test.sh').read().replace('/repo', r)
        open(d + '/test.sh', 'w').write(t)
        sh('bash %s/test.sh %s/out.json' % (d, d), r)
        res = json.load(open(d + '/out.json'))
        stable = set(json.load(open('/opt/vp/BASELINE.json'))['stable'])
        passed = set(res.get('passed', res.get('pass', [])))
        bad = stable - passed
        if bad:
            return ID, 'TESTS FAIL: %s' % sorted(bad)[:8]
        o = V + '/seeded/' + ID
        shutil.rmtree(o, ignore_errors=True)
        os.makedirs(o)
        open(o + '/patch.diff', 'w').write(patch)
        shutil.copy(dd + '/demo.py', o)
        shutil.copy(dd + '/demo.sh', o)
        json.dump({'property': PROP, 'needs': ns['NEEDS'], 'what_it_breaks': ns['BREAKS']}, open(o + '/meta.json', 'w'), indent=1)
        if nocheck:
            return ID, 'kept (not checked)'
        rc2, out2 = sh('python3-vt %s/check.py %s --tier quick' % (V, PROP), V, {'VERIF_REPO': r, 'VERIF_EVIDENCE': d + '/ev'}, 1000)
        hit = rc2 == 1 and ('VIOLATION property=%s ' % PROP) in out2
        return ID, ('CAUGHT ' if hit else 'MISSED ') + out2[-(700 if hit else 1500):]
    finally:
        shutil.rmtree(d, ignore_errors=True)


if __name__ == '__main__':
    for s in sys.argv[1:]:
        print('==', *run(s))
