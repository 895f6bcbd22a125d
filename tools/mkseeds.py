#!/usr/bin/env python3
"""Writes /verif/seeded/<id> for every planted bug in seeds.py, after having confirmed it in a
scratch copy of /repo: it builds, passes the 87 tests, and its demonstration tells the two apart.
    mkseeds.py [ID...]        (nothing here is read by a check)"""
import json, os, shutil, subprocess, sys, tempfile
sys.path.insert(0, os.path.dirname(__file__))
from seeds import SEEDS
OUT = '/verif/seeded'
BASE = 'e53bb30'

LIB = r'''#!/bin/bash
# Compiles the library of the current directory and runs demo.rs with it.
here=$(cd "$(dirname "$0")" && pwd)
tmp=$(mktemp -d) || exit 2
trap 'rm -rf "$tmp"' EXIT
rustc --edition 2021 @OPT@--crate-name minifier --crate-type rlib -o "$tmp/libminifier.rlib" src/lib.rs 2> "$tmp/log" || { cat "$tmp/log"; exit 2; }
rustc --edition 2021 -o "$tmp/demo" --extern minifier="$tmp/libminifier.rlib" "$here/demo.rs" 2> "$tmp/log" || { cat "$tmp/log"; exit 2; }
timeout 200 "$tmp/demo"
'''
HTML = r'''#!/bin/bash
# Builds the library of the current directory with its html feature and runs demo.rs with it.
here=$(cd "$(dirname "$0")" && pwd)
tmp=$(mktemp -d) || exit 2
trap 'rm -rf "$tmp"' EXIT
cargo build --offline --lib --no-default-features --features html --target-dir "$tmp/t" 2> "$tmp/log" || { cat "$tmp/log"; exit 2; }
rustc --edition 2021 -o "$tmp/demo" -L dependency="$tmp/t/debug/deps" --extern minifier="$tmp/t/debug/libminifier.rlib" "$here/demo.rs" 2> "$tmp/log" || { cat "$tmp/log"; exit 2; }
timeout 200 "$tmp/demo"
'''
CLI = r'''#!/bin/bash
# Builds the command-line tool of the current directory and runs it on files of a scratch directory.
tmp=$(mktemp -d) || exit 2
trap 'rm -rf "$tmp"' EXIT
cargo build --offline --bin minifier --target-dir "$tmp/t" 2> "$tmp/log" || { cat "$tmp/log"; exit 2; }
bin=$tmp/t/debug/minifier
mkdir "$tmp/w" && cd "$tmp/w" || exit 2
'''
PRE = '''#![allow(dead_code)]
fn same(what: &str, got: &str, expected: &str) {
    if got != expected {
        println!("{what}\\n     got: {got:?}\\nexpected: {expected:?}");
        std::process::exit(1);
    }
}
'''

def run(cmd, cwd, **kw):
    return subprocess.run(cmd, cwd=cwd, shell=isinstance(cmd, str), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **kw)

def main():
    want = sys.argv[1:]
    ids = [s['id'] for s in SEEDS]
    assert len(set(ids)) == len(ids)
    scratch = tempfile.mkdtemp(prefix='seed.', dir='/tmp')
    copy = scratch + '/repo'
    run(['cp', '-a', '/repo', copy], '/')
    # a target directory in which nothing is newer than the sources
    failed = []
    for s in SEEDS:
        if want and s['id'] not in want:
            continue
        d = f"{OUT}/{s['id']}"
        run('git checkout -q -- .', copy)
        stage = scratch + '/stage'
        shutil.rmtree(stage, ignore_errors=True)
        os.mkdir(stage)
        kind = s.get('kind', 'lib')
        sh = {'lib': LIB.replace('@OPT@', s.get('opt', '')), 'html': HTML, 'cli': CLI}[kind]
        if kind == 'cli':
            sh += s['demo'].strip('\n') + '\n'
        else:
            body = s['demo'].strip('\n')
            open(stage + '/demo.rs', 'w').write(PRE + (body if 'fn main' in body else 'fn main() {\n' + '\n'.join('    ' + l for l in body.split('\n')) + '\n}') + '\n')
        open(stage + '/demo.sh', 'w').write(sh)
        os.chmod(stage + '/demo.sh', 0o755)
        r0 = run(['bash', stage + '/demo.sh'], copy, timeout=280)
        for f, old, new in s['edits']:
            p = f'{copy}/{f}'
            t = open(p).read()
            if t.count(old) != 1:
                print(s['id'], 'EDIT matches', t.count(old)); failed.append(s['id']); break
            open(p, 'w').write(t.replace(old, new))
        else:
            # original lines only
            diff = run('git diff', copy).stdout
            # every removed line must be original; one at least
            blamed = {}
            bad = n = 0
            cur = None; ln = 0
            for l in diff.split('\n'):
                if l.startswith('--- a/'): cur = l[6:]
                elif l.startswith('@@'): ln = int(l.split()[1].split(',')[0][1:])
                elif l.startswith('-'):
                    if cur not in blamed:
                        blamed[cur] = run(['git', 'blame', '-s', 'HEAD', '--', cur], copy).stdout.split('\n')
                    n += 1
                    if BASE not in blamed[cur][ln - 1][:10]: bad += 1
                    ln += 1
                elif l.startswith(' '): ln += 1
            b = run('cargo build --offline --all-features --target-dir target', copy)
            t = run('VP= cargo test --workspace --all-features --no-fail-fast --offline -- --test-threads 8 2>&1 | grep -E "^test result|FAILED|panicked|^error" ', copy)
            ok = b.returncode == 0 and 'FAILED' not in t.stdout and 'error' not in t.stdout
            r1 = run(['bash', stage + '/demo.sh'], copy, timeout=280)
            good = ok and r0.returncode == 0 and r1.returncode not in (0, 2) and n > 0 and bad == 0
            print(s['id'], 'OK' if good else 'BAD', f'demo {r0.returncode}->{r1.returncode} original {n} added {bad}', flush=True)
            if not good:
                failed.append(s['id'])
                print(r0.stdout[-600:], '\n--\n', r1.stdout[-600:], '\n--\n', b.stdout[-800:] if b.returncode else '', t.stdout[-800:] if not ok else '')
                continue
            os.makedirs(OUT, exist_ok=True)
            shutil.rmtree(d, ignore_errors=True)
            shutil.copytree(stage, d)
            open(d + '/patch.diff', 'w').write(diff)
            json.dump({'property': s['prop'], 'needs': s['needs'], 'what_it_breaks': s['breaks']}, open(d + '/meta.json', 'w'), indent=1)
            continue
    shutil.rmtree(scratch)
    print('failed:', failed)

main()
