#!/usr/bin/env python3
"""Mutation campaign (a development aid, no check uses it): small changes of /repo/src which pass the
tests are given to the checks of the properties they may touch; what no check reports is listed.
    mutate.py list                       prints the mutants
    mutate.py run WORKERS OUT [FILTER]   runs them in scratch copies"""
import os, re, subprocess, sys, shutil, threading, queue, random, time
FILES = {'src/js/token.rs': 'C08 C07 C10 C09 C14 C11 C12 C13 C15 C01 C02 C23 C24', 'src/js/utils.rs': 'C13 C15 C10 C07 C11 C12 C14 C01', 'src/js/tools.rs': 'C11 C12 C24 C01 C07 C23 C02',
  'src/css/token.rs': 'C16 C17 C18 C19 C20 C01 C02 C23', 'src/css/mod.rs': 'C16 C23', 'src/html.rs': 'C21 C22 C27 C01 C24', 'src/cli.rs': 'C25 C26',
  'src/json/json_minifier.rs': 'C03 C04 C05', 'src/json/string.rs': 'C03 C04 C23 C05', 'src/json/mod.rs': 'C03 C05', 'src/json/read/byte_to_char.rs': 'C05 C06', 'src/json/read/internal_buffer.rs': 'C05 C06', 'src/json/read/internal_reader.rs': 'C05 C06', 'src/json/read/json_read.rs': 'C05 C06'}
def mutants():
    out = []
    for f in FILES:
        L = open('/repo/' + f).read().split('\n')
        skip = 0
        for i, l in enumerate(L):
            if l.startswith('#[test]') or l.startswith('#[cfg(test)]'): break
            was = skip
            skip += l.startswith('/*') - l.startswith('}*/')
            if skip or was: continue
            s = l.strip()
            if not s or s.startswith('//') or s.startswith('use ') or s.startswith('#') or s.startswith('.field(') or 'panic!' in s or (f.endswith('cli.rs') and s.startswith('"')): continue
            code = l.split(' // ')[0]
            if re.match(r'^\d, ', s) and i % 9: continue
            def put(new, kind):
                if new != l: out.append((f, i, new, kind))
            for a, b in [('&&', '||'), ('||', '&&'), ('==', '!='), ('!=', '=='), (' < ', ' <= '), (' > ', ' >= '), (' <= ', ' < '), (' >= ', ' > '), ('+ 1', '+ 0'), ('+ 1', '+ 2'), ('- 1', '- 0'), ('+= 1', '+= 2'), ('-= 1', '-= 2'), ('true', 'false'), ('false', 'true'), ('break', 'continue'), ('continue', 'break'), ('Some(', 'None.or(Some)('), ('> 0', '> 1'), ('== 0', '== 1'), ('<', '<='), ('is_empty()', 'len() > 1'), ('starts_with', 'ends_with'), ('ends_with', 'starts_with'), ('all(', 'any('), ('any(', 'all('), ('.len_utf8()', '.len_utf8().min(1)'), ('return None', ''), ('rev()', 'rev().skip(1)'), ('.eq_ignore_ascii_case(', '.eq('), ('is_alphanumeric', 'is_ascii_alphanumeric'), ('is_ascii_hexdigit', 'is_ascii_digit'), ('is_ascii_digit', 'is_ascii_hexdigit'), ('!', '')]:
                p = -1
                while True:
                    p = code.find(a, p + 1)
                    if p < 0: break
                    if a == '!' and not re.match(r'![a-z(]', code[p:]) : continue
                    if a == '!' and p > 0 and (code[p-1].isalnum() or code[p-1] == '_'): continue
                    if a == '<' and not code[p-1:p+2] in (' < ',): continue
                    put(l[:p] + b + l[p + len(a):], f'{a} -> {b}')
            m = re.match(r'^(\s*)(\} else )?if (?!let )(.*) \{$', l)
            if m:
                put(f'{m[1]}{m[2] or ""}if !({m[3]}) {{', 'negated')
                put(f'{m[1]}{m[2] or ""}if true || ({m[3]}) {{', 'always')
                put(f'{m[1]}{m[2] or ""}if false && ({m[3]}) {{', 'never')
            # statements
            if s.endswith(';') and not re.match(r'(let|return|break|continue|const|static|pub|mod|type|\})', s) and s.count('(') == s.count(')'):
                put('', 'deleted')
            # a match alternative on a line of its own
            if re.match(r"^\| [\w:()'\\.,| ]+$", s): put('', 'alternative deleted')
            m = re.match(r"^(\s*)[\w:()]+(\s*=>.*)?$", l)
            if s.startswith('ReservedChar::') and not s.endswith((',', '{')) and i + 1 < len(L) and L[i+1].strip().startswith('| '):
                pass
            # conditions on a line of their own
            m = re.match(r'^(\s*)(&&|\|\|) (.*[^{,])$', l)
            if m and m[3].count('(') == m[3].count(')'): put('', 'condition deleted')
            # alternatives within a line
            for m in re.finditer(r" \| ('(?:\\.|[^'])+'|[\w:]+(?:\([\w:]*\))?)", code): put(l[:m.start()] + l[m.end():], 'alternative deleted')
            for m in re.finditer(r"('(?:\\.|[^'])+'|[\w:]+(?:\([\w:]*\))?) \| ", code): put(l[:m.start()] + l[m.end():], 'alternative deleted')
            # single-line arms
            if re.match(r"^[\w:'\\\"().&| {}=]+ => .*,$", s) and not s.startswith('_'): put('', 'arm deleted')
            # string literals
            for m in re.finditer(r'r?#*"((?:\\.|[^"\\])*)"#*', code):
                body = m[1]
                if len(body) < 1 or 'write!' in l or 'expect' in l or 'debug_struct' in l or 'Err(' in l or 'help' in l or 'println' in l: continue
                pos = [0, len(body) - 1] + list(range(1, len(body) - 1)) if len(body) < 40 else random.Random(i).sample(range(len(body)), 25)
                for p in random.Random(i).sample(sorted(set(pos)), min(len(set(pos)), 2 if len(body) > 3 else 3)):
                    if p > 0 and body[p-1] == '\\' or body[p] == '\\': continue
                    a = m.start(1)
                    put(l[:a + p] + l[a + p + 1:], f'character {body[p]!r} of a literal dropped')
            for m in re.finditer(r'(?<![\w.\'])(\d+)(?![\w.\'])', code):
                n = int(m[1])
                if 'capacity' in l: continue
                for k in {n + 1, max(n - 1, 0), n // 2}: put(l[:m.start()] + str(k) + l[m.end():], f'{n} -> {k}')
    seen = set(); r = []
    for x in out:
        if x[:3] not in seen: seen.add(x[:3]); r.append(x)
    return r
def sh(cmd, cwd, timeout, env=None):
    try:
        p = subprocess.run(cmd, cwd=cwd, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors='replace', timeout=timeout, env=env, start_new_session=True)
        return p.returncode, p.stdout
    except subprocess.TimeoutExpired: return 124, ''
def worker(k, q, out, lock):
    base = f'/tmp/mut/{k}'
    os.makedirs(base, exist_ok=True)
    sh(f'rm -rf {base}/repo {base}/v && cp -a /repo {base}/repo && mkdir {base}/v && cp -a /verif/harness /verif/sutapi /verif/tools /verif/known_findings.txt {base}/v/ && rm -rf {base}/v/harness/target', '/', 100)
    for f in ('harness/Cargo.toml', 'sutapi/Cargo.toml', 'harness/src/main.rs'):
        p = f'{base}/v/{f}'; t = open(p).read().replace('"/repo"', f'"{base}/repo"').replace('"/repo/src"', f'"{base}/repo/src"'); open(p, 'w').write(t)
    env = dict(os.environ, VMON_ROOT=base + '/v', VMON_SECS=os.environ.get('MUT_SECS', '12'), VMON_WORKERS='2')
    cargo = f'RUSTC_WRAPPER={base}/v/tools/rustc-cov.sh CARGO_TARGET_DIR={base}/v/target/vmon cargo build -j2 --release --offline --manifest-path {base}/v/harness/Cargo.toml'
    while True:
        try: f, i, new, kind = q.get_nowait()
        except queue.Empty: break
        p = f'{base}/repo/{f}'
        orig = open('/repo/' + f).read()
        L = orig.split('\n'); old = L[i]; L[i] = new
        open(p, 'w').write('\n'.join(L))
        rc, t = sh('cargo test -j2 --lib --bins --tests --all-features --offline -- --test-threads 2', base + '/repo', 120)
        res = None
        if rc == 124: res = 'TESTHANG'
        elif rc != 0: res = 'NOBUILD' if 'could not compile' in t else 'TESTS'
        else:
            rc, t = sh(cargo, base, 300)
            if rc != 0: res = 'HARNESS-NOBUILD'
            if 'cli' in f: sh(f'CARGO_TARGET_DIR={base}/v/target/cli cargo build -j2 --offline --manifest-path {base}/repo/Cargo.toml --bin minifier', base, 300)
            for c in FILES[f].split() if not res else []:
                rc, t = sh(f'{base}/v/target/vmon/release/vmon run {c} quick', base, 300, env)
                if rc == 1 and 'VIOLATION' in t: res = 'CAUGHT ' + c; break
                if rc != 0: res = f'BROKEN {c} rc={rc}'; break
            res = res or 'SURVIVED'
        open(p, 'w').write(orig)
        with lock:
            open(out, 'a').write(f'{res}\t{f}:{i+1}\t{kind}\t{old.strip()}\t=>\t{new.strip()}\n')
    shutil.rmtree(base, ignore_errors=True)
if __name__ == '__main__':
    M = mutants()
    if sys.argv[1] == 'list':
        for m in M: print(f'{m[0]}:{m[1]+1}\t{m[3]}\t{m[2].strip()}')
        print(len(M))
    else:
        n, out = int(sys.argv[2]), sys.argv[3]
        done = set()
        if os.path.exists(out):
            for l in open(out): x = l.rstrip('\n').split('\t'); done.add((x[1], x[2], x[5]))
        q = queue.Queue(); lock = threading.Lock()
        M = [m for m in M if (len(sys.argv) < 5 or sys.argv[4] in m[0]) and (f'{m[0]}:{m[1]+1}', m[3], m[2].strip()) not in done]
        random.Random(int(os.environ.get("MUT_SEED", "5"))).shuffle(M)
        for m in M: q.put(m)
        ts = [threading.Thread(target=worker, args=(k, q, out, lock)) for k in range(n)]
        [t.start() for t in ts]; [t.join() for t in ts]
