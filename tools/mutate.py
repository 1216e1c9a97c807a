#!/usr/bin/env python3
"""Systematic mutation of /repo in scratch copies under /tmp/mut: which one-token changes survive the repository's tests
and which of those survive the checks.
usage: mutate.py gen                 list the mutants (mutants.json)
       mutate.py tests [JOBS]        build each and run the tests -> survivors.json
       mutate.py checks [SKIP STEP]  run the checks of the file on the survivors -> results.jsonl
       mutate.py full I...           run the complete quick checks on single mutants
       mutate.py report"""
import json, os, re, subprocess, sys, shutil
from concurrent.futures import ThreadPoolExecutor
W = '/tmp/mut'
SRC = ['src/macros.rs', 'src/util.rs', 'src/internalutil.rs', 'src/approxeq.rs', 'src/matrix.rs', 'src/decomp/lu.rs', 'src/decomp/cholesky.rs', 'src/decomp/qr.rs', 'src/decomp/svd.rs', 'src/decomp/eigen.rs']
CHECKS = {
 'macros.rs': ['c01'], 'util.rs': ['c21', 'c23'], 'internalutil.rs': ['c13', 'c16', 'c24'], 'approxeq.rs': ['c18'],
 'matrix.rs': ['c03', 'c05', 'c04', 'c06', 'c02', 'c01', 'c18', 'c22', 'c08', 'c09', 'c27', 'c23', 'c21'],
 'lu.rs': ['c07', 'c09', 'c08', 'c24', 'c23'], 'cholesky.rs': ['c10', 'c24', 'c23'], 'qr.rs': ['c11', 'c12', 'c24', 'c27', 'c17'],
 'svd.rs': ['c26', 'c14', 'c13', 'c24', 'c25', 'c17'], 'eigen.rs': ['c15', 'c16', 'c24', 'c25', 'c17'],
}
BIN = [('+', '-'), ('-', '+'), ('*', '/'), ('/', '*'), ('<', '<='), ('<=', '<'), ('>', '>='), ('>=', '>'), ('==', '!='), ('!=', '=='), ('&&', '||'), ('||', '&&'), ('<', '>'), ('>', '<')]
def mutants(path, text):
    out = []
    lines = text.split('\n')
    for ln, l in enumerate(lines):
        if re.match(r'\s*#\[(cfg\(test|test)', l) and ln > 20 and 'use' not in lines[ln + 1]:
            break
        code = l.split('//')[0]
        if not code.strip() or re.match(r'\s*(use|impl|pub struct|#|pub trait|pub mod|///)', code) or re.match(r'\s*(pub )?fn .*\{\s*$', code):
            continue
        def put(a, b, new, what):
            out.append((path, ln, code[:a] + new + code[b:], what))
        for o, n in BIN:
            for m in re.finditer(r'(?<= )' + re.escape(o) + r'(?= )', code):
                put(m.start(), m.end(), n, f'{o} -> {n}')
        for m in re.finditer(r'\b0\.\.', code): put(m.start(), m.end(), '1..', '0.. -> 1..')
        for m in re.finditer(r'\((\w+) \+ 1\)\.\.', code): put(m.start(), m.end(), f'{m[1]}..', 'from one earlier')
        for m in re.finditer(r'\.\.(\w+)( \{|\))', code): put(m.start(), m.end(), f'..({m[1]} - 1){m[2]}', 'one less')
        for m in re.finditer(r'\.rev\(\)', code): put(m.start(), m.end(), '', 'no rev')
        for m in re.finditer(r'(?<=[+-]) 1\b(?!\.)', code):
            put(m.start(), m.end(), ' 0', '1 -> 0'); put(m.start(), m.end(), ' 2', '1 -> 2')
        for a, b in [('zero()', 'one()'), ('one()', 'zero()'), ('true', 'false'), ('false', 'true'), ('rows()', 'cols()'), ('cols()', 'rows()'), ('cmp::min', 'cmp::max'), ('cmp::max', 'cmp::min'), ('.max(', '.min('), ('.min(', '.max('), ('num::abs(', '('), ('.sqrt()', ''), ('epsilon()', 'max_value()'), ('.all(', '.any(')]:
            for m in re.finditer(r'(?<![A-Za-z_])' + re.escape(a) if a[0].isalpha() else re.escape(a), code): put(m.start(), m.end(), b, f'{a} -> {b}')
        for a, b in [('m', 'n'), ('n', 'm'), ('i', 'j'), ('j', 'i'), ('k', 'i'), ('i', 'k'), ('k', 'j'), ('p', 'k'), ('low', 'l'), ('row', 'col'), ('col', 'row')]:
            for m in re.finditer(r'(?<![\w.:])' + a + r'(?![\w:(])', code): put(m.start(), m.end(), b, f'{a} -> {b}')
        for m in re.finditer(r'(?<=[=(,] )- ', code): put(m.start(), m.end(), '', 'no negation')
        for m in re.finditer(r'(?<![\w])!(?=[\w(])', code):
            if code[m.start() - 1:m.start()] != '!': put(m.start(), m.end(), '', 'no not')
        for m in re.finditer(r'\b(\d+\.\d+)\b', code): put(m.start(), m.end(), str(float(m[1]) * 2), 'constant doubled')
        if code.rstrip().endswith(';') and not code.strip().startswith(('let', 'return', '}')) and code.count('(') == code.count(')') and code.count('{') == code.count('}'):
            out.append((path, ln, re.match(r'\s*', code)[0] + '();', 'statement removed'))
        m = re.match(r'(\s*)(\} else )?if (.*) \{\s*$', code)
        if m:
            for c in ('true', 'false'): out.append((path, ln, f'{m[1]}{m[2] or ""}if {c} {{', f'if {c}'))
    seen, r = set(), []
    for x in out:
        if (x[1], x[2]) not in seen and x[2] != lines[x[1]].split('//')[0]:
            seen.add((x[1], x[2])); r.append(x)
    return r
def gen():
    al = []
    for p in SRC:
        al += mutants(p, open('/repo/' + p).read())
    json.dump(al, open(W + '/mutants.json', 'w'))
    from collections import Counter
    copy(W + '/orig')
    print(len(al), Counter(x[0] for x in al))
def write(root, m):
    t = open(W + '/orig/' + m[0]).read().split('\n')
    t[m[1]] = m[2]
    open(os.path.join(root, m[0]), 'w').write('\n'.join(t))
def restore(root, m):
    shutil.copyfile(W + '/orig/' + m[0], os.path.join(root, m[0]))
ENV = dict(os.environ, CARGO_NET_OFFLINE='true', RUSTFLAGS='-Awarnings', CARGO_INCREMENTAL='0', RUSTUP_TOOLCHAIN='stable', RUST_BACKTRACE='0')
def copy(root):
    os.makedirs(root, exist_ok=True)
    subprocess.run(f'cp -a /repo/Cargo.toml /repo/src {root}/ && cp -a /repo/Cargo.lock {root}/ 2>/dev/null; true', shell=True)
def test(job):
    w, ms = job
    root = f'{W}/t{w}'
    copy(root)
    surv = []
    for i, m in ms:
        write(root, m)
        b = subprocess.run(['cargo', 'test', '--offline', '--lib', '--no-run', '-q'], cwd=root, env=ENV, capture_output=True)
        if b.returncode == 0:
            try:
                r = subprocess.run('ulimit -v 8000000; timeout 20 cargo test --offline --lib -q', shell=True, cwd=root, env=ENV, capture_output=True)
                if r.returncode == 0: surv.append(i)
            except Exception: pass
        restore(root, m)
        if len(surv) % 20 == 0: json.dump(surv, open(f'{W}/s{w}.json', 'w'))
    json.dump(surv, open(f'{W}/s{w}.json', 'w'))
    return surv
def tests(jobs):
    ms = list(enumerate(json.load(open(W + '/mutants.json'))))
    with ThreadPoolExecutor(jobs) as ex:
        res = list(ex.map(test, [(w, ms[w::jobs]) for w in range(jobs)]))
    s = sorted(x for r in res for x in r)
    json.dump(s, open(W + '/survivors.json', 'w'))
    print(len(s), 'of', len(ms), 'survive the tests (or do not change what is compiled)')
def checks(skip, step):
    al = json.load(open(W + '/mutants.json')); sv = json.load(open(W + '/survivors.json'))
    root, mc = f'{W}/r{skip}/repo', f'{W}/r{skip}/mc'
    copy(root)
    os.sched_setaffinity(0, {2 * skip % 8, (2 * skip + 1) % 8})
    os.makedirs(mc, exist_ok=True)
    subprocess.run(f"cp -a /verif/mc/src /verif/mc/Cargo.toml /verif/mc/Cargo.lock /verif/known_findings.txt {mc}/; sed -i 's#path = \"/repo\"#path = \"{root}\"#' {mc}/Cargo.toml; mv {mc}/known_findings.txt {W}/r{skip}/", shell=True)
    # a shortened run: no huge enumerations
    e = open(mc + '/src/engine.rs').read()
    open(mc + '/src/engine.rs', 'w').write(e.replace('let mut fams = build(tier);', 'let mut fams = build(tier); fams.retain(|f| f.total <= 70_000 && !["large", "every size", "fresh"].iter().any(|w| f.name.contains(w)));').replace('let secs = ft.elapsed()', 'if fail.lock().unwrap().is_some() { std::process::exit(1); }\n let secs = ft.elapsed()'))
    done = set()
    if os.path.exists(W + '/results.jsonl'):
        done = {json.loads(l)['i'] for l in open(W + '/results.jsonl')}
    for i in sv[skip::step]:
        if i in done: continue
        m = al[i]
        write(root, m)
        hit = None
        for c in CHECKS[os.path.basename(m[0])]:
            b = subprocess.run(['cargo', 'build', '--offline', '-q', '--release', '--bin', c], cwd=mc, env=ENV, capture_output=True)
            if b.returncode: hit = 'no build'; break
            e = dict(ENV, MC_BUILD='release', MC_CASE_TIMEOUT_MS='20000')
            try: r = subprocess.run(f'ulimit -v 24000000; timeout 300 {mc}/target/release/{c}', shell=True, cwd=mc, env=e, capture_output=True, text=True, errors='replace')
            except Exception as x: hit = 'error ' + str(x); break
            if r.returncode: hit = f'{c} rc {r.returncode}'; break
        restore(root, m)
        open(W + '/results.jsonl', 'a').write(json.dumps(dict(i=i, file=m[0], line=m[1] + 1, what=m[3], new=m[2].strip(), hit=hit)) + '\n')
def full(ids):
    """the complete quick checks (main build) on single mutants"""
    al = json.load(open(W + '/mutants.json'))
    root, mc = f'{W}/r9/repo', f'{W}/r9/mc'
    if not os.path.exists(root): copy(root)
    os.makedirs(mc, exist_ok=True)
    subprocess.run(f"cp -a /verif/mc/src /verif/mc/Cargo.toml /verif/mc/Cargo.lock /verif/known_findings.txt {mc}/; sed -i 's#path = \"/repo\"#path = \"{root}\"#' {mc}/Cargo.toml; mv {mc}/known_findings.txt {W}/r9/", shell=True)
    for i in ids:
        m = al[i]
        write(root, m)
        hits = []
        for c in CHECKS[os.path.basename(m[0])]:
            b = subprocess.run(['cargo', 'build', '--offline', '-q', '--release', '--bin', c], cwd=mc, env=ENV, capture_output=True)
            if b.returncode: hits.append('no build'); break
            r = subprocess.run(f'timeout 600 {mc}/target/release/{c}', shell=True, cwd=mc, env=dict(ENV, MC_BUILD='release'), capture_output=True, text=True, errors='replace')
            if r.returncode: hits.append(f'{c} rc {r.returncode}'); break
        restore(root, m)
        print(i, m[0], m[1] + 1, m[3], '|', m[2].strip(), '->', hits or 'NOT NOTICED', flush=True)
def report():
    al = [json.loads(l) for l in open(W + '/results.jsonl')]
    for x in al:
        if x['hit'] is None: print(x['i'], x['file'], x['line'], x['what'], '|', x['new'][:150])
    print(len(al), 'judged,', sum(x['hit'] is None for x in al), 'not noticed')
a = sys.argv[1:]
{'gen': gen, 'tests': lambda j='8': tests(int(j)), 'checks': lambda s='0', t='1': checks(int(s), int(t)), 'report': report, 'full': lambda *i: full([int(x) for x in i])}[a[0]](*a[1:])
