#!/usr/bin/env python3
"""tryseeds.py WORKERS [ID...]: runs the check of each planted bug's property against a scratch copy with
the bug in it; /repo stays as it is.  TRY_SECS: seconds per check (2 monitor workers each)."""
import json, os, queue, shutil, sys, threading
sys.path.insert(0, os.path.dirname(__file__))
from mutate import sh
def work(k, q):
    base = f'/tmp/try/{k}'
    os.makedirs(base, exist_ok=True)
    sh(f'rm -rf {base}/repo {base}/v && cp -a /repo {base}/repo && mkdir {base}/v && cp -a /verif/harness /verif/sutapi /verif/tools /verif/known_findings.txt {base}/v/ && rm -rf {base}/v/harness/target', '/', 100)
    for f in ('harness/Cargo.toml', 'sutapi/Cargo.toml', 'harness/src/main.rs'):
        p = f'{base}/v/{f}'; t = open(p).read().replace('"/repo"', f'"{base}/repo"').replace('"/repo/src"', f'"{base}/repo/src"'); open(p, 'w').write(t)
    env = dict(os.environ, VMON_ROOT=base + '/v', VMON_SECS=os.environ.get('TRY_SECS', '60'), VMON_WORKERS='2')
    while True:
        try: i = q.get_nowait()
        except queue.Empty: break
        prop = json.load(open(f'/verif/seeded/{i}/meta.json'))['property']
        sh('git checkout -q -- .', base + '/repo', 30)
        rc, t = sh(f'git apply /verif/seeded/{i}/patch.diff', base + '/repo', 30)
        if rc: print(i, 'does not apply', flush=True); continue
        rc, t = sh(f'RUSTC_WRAPPER={base}/v/tools/rustc-cov.sh CARGO_TARGET_DIR={base}/v/target/vmon cargo build -j2 --release --offline --manifest-path {base}/v/harness/Cargo.toml', base, 600)
        if rc: print(i, 'does not build', t[-300:], flush=True); continue
        if prop in ('C25', 'C26'): sh(f'CARGO_TARGET_DIR={base}/v/target/cli cargo build -j2 --offline --manifest-path {base}/repo/Cargo.toml --bin minifier', base, 300)
        rc, t = sh(f'{base}/v/target/vmon/release/vmon run {prop} quick', base, 600, env)
        x = [l for l in t.split('\n') if l.startswith('  ') or 'violations' in l]
        print(i, prop, 'CAUGHT' if rc == 1 and 'VIOLATION' in t else f'MISSED rc={rc}', (x or [''])[0][:150], flush=True)
    shutil.rmtree(base, ignore_errors=True)
q = queue.Queue()
for i in sys.argv[2:] or sorted(os.listdir('/verif/seeded')): q.put(i)
ts = [threading.Thread(target=work, args=(k, q)) for k in range(int(sys.argv[1]))]
[t.start() for t in ts]; [t.join() for t in ts]
