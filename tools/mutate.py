#!/usr/bin/env python3
"""mutate.py list                      writes /tmp/mut/mutants.json: every small edit of /repo/src
mutate.py run <worker> <nworkers>    for each mutant of this worker: build, test, then the quick checks
                                     (cheapest first) until one reports it; results in /tmp/mut/res.<worker>.jsonl
Development aid only: finds behaviour no check looks at. Works on scratch copies in /tmp/mut."""
import sys, os, re, json, subprocess, shutil, random, signal
D = '/tmp/mut'
FILES = ['ast', 'simplify', 'deriv', 'relevance', 'nextbyte', 'bytecompress', 'regex', 'regexbuilder', 'syntax', 'hashcons', 'mapper']
# the checks tried per file, most telling first; a mutant that passes them all is looked at by hand
BY_FILE = {
    'simplify': 'C29 C28 C25 C03 C19 C13 C05 C16 C01 C18b C17',
    'ast': 'C29 C28 C24 C25 C26 C12 C15 C23 C27 C01',
    'deriv': 'C03 C28 C25 C27 C16 C01 C21',
    'relevance': 'C05 C25 C16 C04 C21 C14 C17',
    'nextbyte': 'C24 C06 C27',
    'bytecompress': 'C24 C25 C13 C14 C09 C01',
    'regex': 'C24 C25 C27 C13 C14 C05 C03 C07 C09',
    'regexbuilder': 'C25 C20 C14 C10 C23 C08',
    'syntax': 'C25 C20 C03 C11 C02 C27 C08',
    'hashcons': 'C12 C29',
    'mapper': 'C22 C25',
    'pp': 'C23 C14',
}
RAW = 'C12 C15 C19 C21 C23 C26 C28 C29'.split()

OPS = [
    (r' == ', [' != ']), (r' != ', [' == ']), (r' < ', [' <= ', ' > ']), (r' <= ', [' < ']), (r' > ', [' >= ', ' < ']), (r' >= ', [' > ']),
    (r' && ', [' || ']), (r' \|\| ', [' && ']), (r' \+ ', [' - ']), (r' - ', [' + ']), (r' \+= ', [' -= ', ' = ']), (r' \* ', [' + ']),
    (r'\btrue\b', ['false']), (r'\bfalse\b', ['true']), (r'\bcontinue\b', ['break']), (r'\bbreak\b', ['continue']),
    (r'\.min\(', ['.max(']), (r'\.max\(', ['.min(']), (r'is_nullable\(', ['is_positive(']), (r'is_positive\(', ['is_nullable(']),
    (r'\bNO_MATCH\b', ['EMPTY_STRING']), (r'\bEMPTY_STRING\b', ['NO_MATCH']), (r'ANY_BYTE_STRING', ['NO_MATCH', 'NON_EMPTY_BYTE_STRING']),
    (r'\.saturating_sub\(1\)', ['', '.saturating_sub(2)']), (r'\bu32::MAX\b', ['u16::MAX as u32', '(u32::MAX-1)']), (r'\bu64::MAX\b', ['1000']),
    (r'\.\.=', ['..']), (r'(?<=[\w\)])\.\.(?=[\w\(])', ['..=']), (r'\bif ([^{}]+?) \{$', ['if !(\\1) {', 'if true || (\\1) {', 'if false && (\\1) {']),
    (r'mk_or\(', ['mk_and(']), (r'mk_and\(', ['mk_or(']), (r'\.rev\(\)', ['']), (r'\bSome\((\w+)\)$', ['None']),
    (r'\bDEAD\b', ['MISSING']), (r'\bSomeBytes\b', ['Dead', 'ForcedEOI']), (r'\bForcedEOI\b', ['SomeBytes']), (r'\bDead\b', ['SomeBytes']),
]
def mutants():
    out = []
    for f in FILES:
        p = f'/repo/src/{f}.rs'
        lines = open(p).read().split('\n')
        for n, l in enumerate(lines):
            s = l.strip()
            if s.startswith('//') or s.startswith('use ') or 'debug!' in s or 'println' in s or 'size_of' in s or 'Debug' in s or 'assert' in s or 'panic!' in s or s.startswith('#['):
                continue
            if f != 'pp' and ('write!' in s): pass
            def add(new, what):
                if new != l: out.append({'file': f, 'line': n + 1, 'old': l, 'new': new, 'what': what})
            code = l.split('//')[0]
            for pat, subs in OPS:
                for m in re.finditer(pat, code):
                    for sub in subs:
                        add(l[:m.start()] + m.expand(sub) + l[m.end():], f'{m.group(0).strip()} -> {sub.strip()}')
            for m in re.finditer(r'(?<![\w.\[])(\d+)(?![\w.])', code):
                v = int(m.group(1))
                for w in {v + 1, max(v - 1, 0), v * 2} - {v}:
                    add(l[:m.start()] + str(w) + l[m.end():], f'{v} -> {w}')
            for m in re.finditer(r'0x[0-9a-fA-F_]+', code):
                v = int(m.group(0).replace('_', ''), 16)
                for w in {v + 1, v - 1}:
                    add(l[:m.start()] + hex(w) + l[m.end():], f'{hex(v)} -> {hex(w)}')
            if s.endswith(';') and not s.startswith('let ') and not s.startswith('pub ') and s != '});' and not s.startswith('}') and not s.startswith(')'):
                add(re.match(r'\s*', l).group(0) + '{}', 'delete statement')
    return out

def sh(cmd, t, cwd=None, env=None):
    p = subprocess.Popen(cmd, shell=True, cwd=cwd, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, start_new_session=True)
    try:
        o, _ = p.communicate(timeout=t)
        return p.returncode, o
    except subprocess.TimeoutExpired:
        os.killpg(p.pid, signal.SIGKILL)
        p.communicate()
        return 124, ''

def run(w, nw):
    base = f'{D}/w{w}'
    shutil.rmtree(base, ignore_errors=True)
    os.makedirs(base + '/verif/evidence')
    sh(f'cp -a /repo {base}/repo; git -C {base}/repo checkout -q -- .; cp -a /verif/known_findings.txt {base}/verif/; mkdir {base}/verif/mc; cp -a /verif/mc/src /verif/mc/Cargo.toml /verif/mc/Cargo.lock {base}/verif/mc/; [ -d /verif/mc/.cargo ] && cp -a /verif/mc/.cargo {base}/verif/mc/', 100)
    sh(f'sed -i "s#/repo#{base}/repo#g" {base}/verif/mc/Cargo.toml; find {base}/verif/mc/src -name "*.rs" -exec grep -l \'"/repo\' {{}} + | xargs -r sed -i "s#\\"/repo#\\"{base}/repo#g"', 100)
    env = dict(os.environ, CARGO_NET_OFFLINE='true', VERIF_DIR=base + '/verif', VERIF_SEED='1')
    ms = json.load(open(D + '/mutants.json'))
    resf = f'{D}/res.{w}.jsonl'
    done = sum(1 for _ in open(resf)) if os.path.exists(resf) else 0
    todo = ms[w::nw]
    for m in todo[done:]:
        p = f'{base}/repo/src/{m["file"]}.rs'
        src = open(f'/repo/src/{m["file"]}.rs').read().split('\n')
        assert src[m['line'] - 1] == m['old']
        src[m['line'] - 1] = m['new']
        open(p, 'w').write('\n'.join(src))
        r = dict(m)
        rc, o = sh('cargo build --offline 2>&1', 200, base + '/repo', env)
        if rc:
            r['res'] = 'nocompile'
        else:
            rc, o = sh('cargo test --workspace --offline -- --test-threads 4 2>&1', 120, base + '/repo', env)
            if rc:
                r['res'] = 'tests' if rc != 124 else 'tests-timeout'
            else:
                rc, o = sh('cargo build --offline --release 2>&1', 600, base + '/verif/mc', env)
                if rc:
                    r['res'] = 'mcbuild'
                else:
                    r['res'] = 'SURVIVED'
                    r['odd'] = []
                    for c in BY_FILE[m['file']].replace('C18b ', '').split():
                        b = 'mcraw' if c in RAW else 'mc'
                        rc, o = sh(f'ulimit -v 9000000; ./target/release/{b} {c} run quick', 600, base + '/verif/mc', env)
                        if rc == 1 and 'VIOLATION' in o:
                            r['res'] = c
                            break
                        if rc:
                            r['odd'].append((c, rc, o[-300:]))
        open(p, 'w').write(open(f'/repo/src/{m["file"]}.rs').read())
        with open(resf, 'a') as f: f.write(json.dumps(r) + '\n')

if sys.argv[1] == 'list':
    os.makedirs(D, exist_ok=True)
    ms = mutants()
    random.Random(7).shuffle(ms)
    json.dump(ms, open(D + '/mutants.json', 'w'))
    from collections import Counter
    print(len(ms), Counter(m['file'] for m in ms))
else:
    run(int(sys.argv[2]), int(sys.argv[3]))
