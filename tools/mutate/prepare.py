#!/usr/bin/env python3
"""prepare.py WORK: copy /repo to WORK/repo with every mutant that compiles built in (see src/main.rs)."""
import sys, os, subprocess, json, re, shutil
W = sys.argv[1]
MUT = sys.argv[2]
os.makedirs(W, exist_ok=True)
if os.path.exists(W + '/repo'): shutil.rmtree(W + '/repo')
subprocess.check_call(['git', 'clone', '-q', '/repo', W + '/repo'])
shutil.copy('/repo/Cargo.lock', W + '/repo/Cargo.lock')
skip = set()
for rnd in range(40):
    open(W + '/skip', 'w').write(' '.join(map(str, sorted(skip))))
    subprocess.check_call([MUT, '/repo/src', W + '/repo/src', W + '/list', W + '/skip'])
    r = subprocess.run('cargo check --offline --features serialize --message-format=json', shell=True, cwd=W + '/repo', stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, env=dict(os.environ, CARGO_TARGET_DIR=W + '/target', RUSTFLAGS='-Awarnings'))
    bad = set(); msgs = []
    for l in r.stdout.splitlines():
        try: j = json.loads(l)
        except Exception: continue
        m = j.get('message')
        if not m or m.get('level') != 'error': continue
        hit = set()
        for s in m['spans']:
            f = W + '/repo/' + s['file_name']
            if not os.path.exists(f): continue
            t = open(f, 'rb').read()
            a, b = s['byte_start'], s['byte_end']
            # the markers inside the span, or the nearest one before it
            ids = [int(x) for x in re.findall(rb'mut_sel :: m \((\d+)u32\)', t[a:b])]
            if not ids:
                ids = [int(x) for x in re.findall(rb'mut_sel :: m \((\d+)u32\)', t[max(0, a - 3000):a])][-1:]
            else: ids = ids[-1:] if len(ids) > 3 else ids
            hit |= set(ids)
        msgs.append((m['message'], sorted(hit)))
        bad |= hit
    print('round', rnd, 'errors', len(msgs), 'ids', len(bad), flush=True)
    if not msgs: break
    if not bad - skip: print(msgs[:10]); break
    skip |= bad
print('rc', r.returncode, r.stderr[-500:] if r.returncode else '')
