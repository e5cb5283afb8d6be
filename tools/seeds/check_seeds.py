#!/usr/bin/env python3
"""Confirm seeded bugs in a scratch clone: builds, stable tests pass, demo quiet on HEAD and failing with the patch."""
import os, subprocess, sys, json
HERE=os.path.dirname(os.path.abspath(__file__)); SD=os.path.realpath(HERE+'/../../seeded'); R='/tmp/seedchk'
subprocess.run(f'rm -rf {R}; git clone -q /repo {R}; cp /repo/Cargo.lock {R}/',shell=True,check=True)
e=dict(os.environ, CARGO_TARGET_DIR='/tmp/seedchk-target', CARGO_NET_OFFLINE='true', CARGO_PROFILE_DEV_DEBUG='line-tables-only')
def run(c,t=600):
    try: return subprocess.run(c,cwd=R,shell=True,env=e,capture_output=True,text=True,timeout=t)
    except subprocess.TimeoutExpired: return None
tests='--tests' in sys.argv; ids=[a for a in sys.argv[1:] if a[0]!='-'] or sorted(os.listdir(SD))
import time
for id in ids:
    run('git checkout -q -- .')
    t=time.time(); a=run(f'bash {SD}/{id}/demo.sh'); t1=time.time()-t
    if run(f'git apply {SD}/{id}/patch.diff').returncode: print(id,'NOAPPLY'); continue
    t=time.time(); b=run(f'bash {SD}/{id}/demo.sh'); t2=time.time()-t
    out=''
    if tests:
        r=run('cargo nextest run --workspace --all-features --offline --no-fail-fast --test-threads 8')
        out='TIMEOUT' if r is None else [l.strip() for l in r.stderr.splitlines() if 'Summary' in l][-1:]+sorted({l.strip() for l in r.stderr.splitlines() if ' FAIL ' in l})
        if not out: out=r.stderr[-800:]
    ok = a and b and a.returncode==0 and b.returncode not in (0,98,99)
    print(id,'OK' if ok else 'BAD', a and a.returncode, f'{t1:.0f}s', b and b.returncode, f'{t2:.0f}s', (b.stderr.strip().splitlines() or [''])[0:3] if b else '', out, flush=True)
    if not ok and a: print(a.stderr[-1500:], b.stderr[-1500:] if b else '')
subprocess.run(f'rm -rf {R} /tmp/seedchk-target',shell=True)
