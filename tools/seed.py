#!/usr/bin/env python3
"""Confirm planted bugs: seed.py ID...   (applies in a copy bound over /repo in a private mount namespace)
For each: demo passes on the unchanged tree; patch applies, builds, stable tests pass, demo fails; then the property's check."""
import json, os, subprocess, sys, shutil
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


def sh(cmd, **k):
    return subprocess.run(cmd, shell=True, capture_output=True, text=True, **k)


def one(i, check=True):
    d = os.path.join(V, 'seeded', i)
    prop = json.load(open(d + '/meta.json'))['property']
    w = f'/tmp/sw_{i}'
    shutil.rmtree(w, ignore_errors=True)
    sh(f'cp -a /repo {w}')
    demo = f'/tmp/swd_{i}'
    shutil.rmtree(demo, ignore_errors=True)
    shutil.copytree(d, demo)
    for f in ('patch.diff', 'meta.json'):
        os.remove(os.path.join(demo, f))
    script = f'''
mount --bind {w} /repo; cd /repo
bash {demo}/demo.sh > /tmp/sw_{i}.clean 2>&1; echo clean $?
git apply {d}/patch.diff || echo NOAPPLY
bash /opt/vp/build.sh > /tmp/sw_{i}.build 2>&1; echo build $?
bash /opt/vp/test.sh /tmp/sw_{i}.json 2>&1 | tail -1
bash {demo}/demo.sh > /tmp/sw_{i}.bug 2>&1; echo bug $?
'''
    r = sh(f"unshare -rm bash -c '{script}'")
    print(i, prop, r.stdout.replace('\n', ' | '), r.stderr[-300:])
    try:
        base = set(json.load(open('/opt/vp/BASELINE.json'))['stable'])
        got = json.load(open(f'/tmp/sw_{i}.json'))
        miss = base - set(got['passed'])
        if miss:
            print('   STABLE TESTS LOST', sorted(miss)[:4])
    except Exception as e:
        print('   no results', e)
    if check:
        r = sh(f'cd {V} && VERIF_REPO={w} timeout 900 python3 engine/check.py {prop}')
        print('   check:', r.returncode, '\n      '.join(l[:260] for l in r.stdout.splitlines()[-4:]))
    shutil.rmtree(w, ignore_errors=True)
    shutil.rmtree(demo, ignore_errors=True)


for i in sys.argv[1:]:
    one(i)
