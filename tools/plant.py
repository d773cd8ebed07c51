#!/usr/bin/env python3
"""plant.py FILE.py [NAME..] : FILE defines PLANTS = [dict(name, prop, needs, breaks, edits=[(path, old, new)..], demo=program text, [args], [files])].
Confirms each in the scratch copy /tmp/w (built, existing tests pass, the demonstration differs), then keeps it in /verif/seeded/NAME."""
import sys, os, subprocess, json, shutil
W = '/tmp/w'
ENV = dict(os.environ, RUSTUP_TOOLCHAIN='nightly-2024-05-01', CARGO_NET_OFFLINE='true')
for l in open('/opt/vp/env.sh'):
    if l.startswith('export '):
        for kv in l[7:].split():
            if '=' in kv:
                k, v = kv.split('=', 1); ENV[k] = v.strip('"')
ENV.pop('RUSTFLAGS', None)
DEMO = '''#!/bin/bash
# runs demo.cor and compares what it prints with demo.out
root=$PWD; d=$(cd "$(dirname "$0")" && pwd); cd "$d"
out=$(timeout 60 "$root/target/debug/cordy" %sdemo.cor%s 2>&1 < /dev/null)
[ "$out" == "$(cat "$d/demo.out")" ]
'''
REPL = '''#!/bin/bash
# types input.txt into the interactive session and compares what it prints with demo.out
root=$PWD; d=$(cd "$(dirname "$0")" && pwd); cd "$d"
out=$(timeout 60 "$root/target/debug/cordy" < input.txt 2>&1)
[ "$out" == "$(cat "$d/demo.out")" ]
'''
def sh(c, cwd=W, t=150): return subprocess.run(c, shell=True, cwd=cwd, env=ENV, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=t)
def build(): return sh('cargo build --workspace --offline --locked 2>&1')
def tests(n):
    sh('cargo test --workspace --no-fail-fast --offline --locked -- --test-threads 8 > /tmp/w/target/log 2>&1')
    sh(f'python3 /opt/vp/results.py /tmp/plant/{n}.json cargo:/tmp/w/target/log')
    b = set(json.load(open('/opt/vp/BASELINE.json'))['stable'])
    o = json.load(open(f'/tmp/plant/{n}.json'))
    o = set(o.get('passed') or o.get('stable') or [])
    return sorted(b - o)
def reset():
    sh('git checkout -q -- . && git fetch -q /repo HEAD && git reset -q --hard FETCH_HEAD')
def main():
    ns = {}
    exec(open(sys.argv[1]).read(), ns)
    only = sys.argv[2:]
    todo = [p for p in ns['PLANTS'] if not only or p['name'] in only]
    reset()
    r = build()
    if r.returncode: print(r.stdout[-2000:]); return
    # the expected output comes from the unchanged tree
    for p in todo:
        d = f"/tmp/plant/{p['name']}"
        shutil.rmtree(d, ignore_errors=True); os.makedirs(d)
        if 'demo_sh' in p: open(d + '/demo.sh', 'w').write(p['demo_sh'])
        elif 'repl' in p:
            open(d + '/input.txt', 'w').write(p['repl'])
            open(d + '/demo.sh', 'w').write(REPL)
            o = sh(f"cd {d}; timeout 60 {W}/target/debug/cordy < input.txt 2>&1").stdout
            open(d + '/demo.out', 'w').write(o)
            p['out'] = o
        else:
            open(d + '/demo.cor', 'w').write(p['demo'])
            open(d + '/demo.sh', 'w').write(DEMO % (p.get('args', ''), p.get('after', '')))
            o = sh(f"cd {d}; timeout 60 {W}/target/debug/cordy {p.get('args','')}demo.cor{p.get('after','')} 2>&1 < /dev/null").stdout
            open(d + '/demo.out', 'w').write(o)
            p['out'] = o
        for f, t in p.get('files', {}).items(): open(d + '/' + f, 'w').write(t)
        if sh(f'bash {d}/demo.sh').returncode: print(p['name'], 'DEMO FAILS on unchanged tree')
    for p in todo:
        d = f"/tmp/plant/{p['name']}"
        sh('git checkout -q -- .')
        ok = True
        for f, old, new in p['edits']:
            s = open(f'{W}/{f}').read()
            if s.count(old) != 1: print(p['name'], f, 'matches', s.count(old)); ok = False; break
            base = sh(f'git show $(git -C /repo rev-list --max-parents=0 HEAD):{f}').stdout
            mine = [l for l in old.split('\n') if l.strip() and l not in base.split('\n') and l not in new.split('\n')]
            if mine and all(l not in base for l in mine): print(p['name'], 'NOT ORIGINAL', mine)
            open(f'{W}/{f}', 'w').write(s.replace(old, new))
        if not ok: continue
        r = build()
        if r.returncode: print(p['name'], 'BUILD'); print(r.stdout[-1500:]); continue
        rd = sh(f'bash {d}/demo.sh').returncode
        if not rd: print(p['name'], 'demo does not notice'); print(p.get('out', '')[:300]); continue
        m = tests(p['name'])
        if m: print(p['name'], 'breaks tests', len(m), m[:4]); continue
        k = f"/verif/seeded/{p['name']}"
        shutil.rmtree(k, ignore_errors=True); os.makedirs(os.path.dirname(k), exist_ok=True)
        shutil.copytree(d, k)
        open(k + '/patch.diff', 'w').write(sh('git diff').stdout)
        json.dump({'property': p['prop'], 'needs': p['needs'], 'what_it_breaks': p['breaks']}, open(k + '/meta.json', 'w'), indent=1)
        print(p['name'], 'kept;', (p.get('out') or '')[:60].replace('\n', ' | '))
    sh('git checkout -q -- .')
main()
