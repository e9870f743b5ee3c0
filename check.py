#!/usr/bin/env python3
"""Decides one property of the nrbf crate by symbolic execution of its compiled code.

  check.py P07 [--thorough]     one property
  check.py --setup              builds everything once
  check.py --record             rewrites expected_covers.json (on a tree that is known to be good)

Everything is rebuilt from /repo's working tree: the harness and the crate are compiled to one
LLVM module, engine/ (symex) executes the entries of the harness on it with symbolic messages,
and z3 decides every branch and assertion. See DESIGN.md.
"""
import concurrent.futures as cf
import glob, json, os, re, resource, shutil, subprocess, sys, time

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
from plan import PLAN, GROUP  # noqa: E402

T0 = time.time()
H = os.path.join(HERE, 'harness')
BUILD = os.path.join(HERE, 'build')
EV = os.path.join(HERE, 'evidence')
SYMEX = os.path.join(HERE, 'engine/target/release/symex')
JOBS = os.cpu_count() or 4
SEED = int(os.environ.get('VERIF_SEED', '1') or 1)
IR_FLAGS = '-C no-vectorize-loops -C no-vectorize-slp'


class Broken(Exception):
    """The check itself cannot give an answer."""


def env(**k):
    e = dict(os.environ, CARGO_NET_OFFLINE='true', **k)
    e.pop('RUSTFLAGS', None) if 'RUSTFLAGS' not in k else None
    return e


def run(cmd, what, cwd=None, timeout=1500, **k):
    r = subprocess.run(cmd, cwd=cwd, env=env(**k), capture_output=True, text=True, timeout=timeout)
    if r.returncode != 0:
        raise Broken(f'{what} failed:\n{r.stdout[-2000:]}{r.stderr[-6000:]}')
    return r.stdout


def build_engine():
    run(['cargo', 'build', '--release', '--offline', '-q'], 'building the engine', cwd=os.path.join(HERE, 'engine'))


def prepare():
    os.makedirs(BUILD, exist_ok=True)
    os.makedirs(EV, exist_ok=True)
    # The dependencies are those the repository is built with.
    lock = '/repo/Cargo.lock' if os.path.exists('/repo/Cargo.lock') else H + '/Cargo.lock.base'
    shutil.copyfile(lock, H + '/Cargo.lock')


def ir_path(group):
    return os.path.join(BUILD, f'ir-{group}/release/deps/harness.ll')


def build_ir(group):
    for f in glob.glob(ir_path(group)):
        os.remove(f)
    # without an output file of its own, cargo would consider the crate fresh
    for f in glob.glob(os.path.join(BUILD, f'ir-{group}/release/.fingerprint/harness-*')):
        shutil.rmtree(f)
    run(['cargo', 'rustc', '--lib', '--release', '--offline', '-q', '--no-default-features', '--features', group,
         '--target-dir', os.path.join(BUILD, f'ir-{group}'), '--', '--emit=llvm-ir'],
        'compiling the crate with the harness', cwd=H, RUSTFLAGS=IR_FLAGS)
    if not os.path.exists(ir_path(group)):
        raise Broken('no IR was written')


def build_native(groups, profile):
    run(['cargo', 'build', '--profile', profile, '--bin', 'replay', '--offline', '-q', '--no-default-features',
         '--features', ','.join(sorted(groups)), '--target-dir', os.path.join(BUILD, 'replay')],
        'building the native replay', cwd=H)
    return os.path.join(BUILD, f'replay/{profile}/replay')


# ------------------------------------------------------------------ one entry

def explore(group, entry, secs, thorough):
    out = os.path.join(BUILD, f'{entry}.json')
    if os.path.exists(out):
        os.remove(out)
    cmd = [SYMEX, '--ir', ir_path(group), '--entry', entry, '--time', str(int(secs)), '--jobs', str(JOBS),
           '--seed', str(SEED), '--sample-mod', '3', '--max-samples', '6', '--dump-every', '199', '--out', out]
    if thorough:
        cmd += ['--solver-ms', '120000']
    try:
        r = subprocess.run(cmd, capture_output=True, text=True, timeout=secs * 2 + 120)
    except subprocess.TimeoutExpired:
        raise Broken(f'{entry}: the executor did not stop')
    if r.returncode != 0 or not os.path.exists(out):
        raise Broken(f'{entry}: the executor failed: {r.stderr[-1500:]}')
    return json.load(open(out))


def limits():
    resource.setrlimit(resource.RLIMIT_AS, (8 << 30, 8 << 30))
    resource.setrlimit(resource.RLIMIT_CORE, (0, 0))


def native(binary, entry, model, timeout=30):
    """None if the run is fine, else what went wrong."""
    try:
        r = subprocess.run([binary, entry, model], capture_output=True, text=True, timeout=timeout, preexec_fn=limits,
                           env=dict(os.environ, RUST_BACKTRACE='0'))
    except subprocess.TimeoutExpired:
        return 'does not return'
    a = [l[7:] for l in r.stdout.splitlines() if l.startswith('ASSERT ')]
    if a:
        return a[0]
    if r.returncode == 0 or r.returncode == 4:
        return None
    err = [l for l in r.stderr.splitlines() if l.strip()]
    return f'crash (status {r.returncode}): ' + ' '.join(err[:2])[:300]


def message_of(binary, entry, model):
    try:
        r = subprocess.run([binary, entry, model], capture_output=True, text=True, timeout=30, preexec_fn=limits,
                           env=dict(os.environ, SHOW='1'))
        return [l[8:] for l in r.stdout.splitlines() if l.startswith('MESSAGE ')]
    except subprocess.TimeoutExpired:
        return []


def confirm(prop, entry, v, binaries):
    """Replays a counterexample against the crate as compiled natively."""
    for name, binary in binaries:
        what = native(binary(), entry, v['model'])
        if what is not None:
            d = os.path.join(EV, 'replay')
            os.makedirs(d, exist_ok=True)
            path = os.path.join(d, f'{prop}-{entry}.txt')
            msgs = message_of(binary(), entry, v['model'])
            with open(path, 'w') as f:
                f.write(f'property: {prop}\nentry: {entry}\nmodel: {v["model"]}\n')
                f.write(f'found by the solver: {v["kind"]}: {v["id"]}\nnative run ({name} profile): {what}\n')
                for m in msgs:
                    f.write(f'message: {m}\n')
                f.write(f'replay: {binary()} {entry} {v["model"]}\ntrace: {v["trace"]}\n')
            return path, what
    return None


# ------------------------------------------------------------------ second solver

def second_solver(dumps, thorough):
    """Asks other solvers the same questions."""
    def ask(d):
        text, sat = d
        f = os.path.join(BUILD, f'q{abs(hash(text))}.smt2')
        open(f, 'w').write(text if '(check-sat)' in text else text + '\n(check-sat)\n')
        res = []
        for cmd in [['z3-new', '-T:20', f], ['cvc5', '--tlimit=20000', f]]:
            try:
                r = subprocess.run(cmd, capture_output=True, text=True, timeout=40)
                a = r.stdout.strip().splitlines()
                res.append(a[0] if a and a[0] in ('sat', 'unsat') else 'unknown')
            except subprocess.TimeoutExpired:
                res.append('unknown')
        os.remove(f)
        return [(x == ('sat' if sat else 'unsat')) if x != 'unknown' else None for x in res], text
    dumps = dumps[:400 if thorough else 24]
    with cf.ThreadPoolExecutor(JOBS) as ex:
        got = list(ex.map(ask, dumps))
    agree = sum(a is True for g, _ in got for a in g)
    wrong = [t for g, t in got if False in g]
    return agree, wrong


# ------------------------------------------------------------------ known findings

def findings():
    """Lines `known: property=P id=X what` of the file. (Lines `fixed: ...` suppress nothing.)"""
    r = {}
    for l in open(os.path.join(HERE, 'known_findings.txt')):
        m = re.match(r'known: property=(\w+) id=(\w+) (.*)', l)
        if m:
            r[(m[1], m[2])] = m[3].strip()
    return r


def demonstrate(name, binary):
    """Known findings that are demonstrated by one concrete input."""
    r = subprocess.run([binary, '--demo', name], capture_output=True, text=True, timeout=120, preexec_fn=limits)
    return r.returncode != 0


# ------------------------------------------------------------------ the check

def check(prop, thorough):
    plan = PLAN[prop]
    tier = 'thorough' if thorough else 'quick'
    budget = 6 * 3600 if thorough else 780
    entries = list(plan['quick'])
    if thorough:
        entries += plan.get('thorough', [])
    groups = sorted({GROUP(e.split(':')[0].rstrip('?')) for e in entries})
    prepare()
    ex = cf.ThreadPoolExecutor(8)
    fe = ex.submit(build_engine)
    fi = [ex.submit(build_ir, g) for g in groups]
    fn = ex.submit(build_native, groups, 'native')
    fe.result()
    fs = ex.submit(run, [SYMEX, 'selftest', str(SEED), '4000' if thorough else '150'], 'the self test of the solver layer')
    for f in fi:
        f.result()
    built = time.time() - T0

    expected = json.load(open(os.path.join(HERE, 'expected_covers.json')))
    known = findings()
    tot = {k: 0 for k in ['done', 'pruned', 'bad', 'left', 'asserts', 'forks', 'steps', 'queries', 'sat', 'unsat', 'unknown',
                          'cache_hits', 'table_decisions', 'solver_us']}
    funcs, per, viols, problems, incomplete, samples, dumps, seen_known = set(), [], [], [], [], [], [], set()
    z3 = ''
    for item in entries:
        optional = '?' in item
        name, _, cap = item.partition(':')
        name = name.rstrip('?')
        left = budget - (time.time() - T0)
        cap = min(float(cap) if cap else (4 * 3600 if thorough else 600), max(left, 5))
        if optional and left < 60:
            incomplete.append(name)
            continue
        d = explore(GROUP(name), name, cap, thorough)
        z3 = d['z3']
        for k in tot:
            tot[k] += d.get(k, 0)
        funcs |= set(d['functions'])
        whole = d.get('left', 0) == 0 and not d['errors'] and d.get('unknown', 0) == 0
        per.append({'entry': name, 'complete': whole, 'bound': BOUNDS.get(name, ''), 'paths': d['done'] + d['bad'],
                    'queries': d['queries'], 'solver_s': round(d['solver_us'] / 1e6, 2), 'wall_s': d['wall_s'],
                    'max_steps': d['max_steps'], 'max_heap': d['max_heap'], 'covers': d['covers']})
        if d['violations']:
            viols += [(name, v) for v in d['violations']]
        elif not whole:
            if d.get('left', 0) and not d['errors'] and not d.get('unknown', 0) and optional:
                incomplete.append(name)
            elif optional:
                incomplete.append(name)
            else:
                problems.append(f"{name}: not decided: {d.get('left', 0)} states left, errors {d['errors']}, unknown {d.get('unknown', 0)}")
        if whole and not d['violations']:
            for c in expected.get(name, []):
                if c not in d['covers'] and not c.startswith('KNOWN'):
                    problems.append(f'{name}: vacuous: no path reaches "{c}"')
        seen_known |= {c[6:] for c in d['covers'] if c.startswith('KNOWN ')}
        samples += [(name, m, o) for m, o in d['samples']]
        dumps += d['dumps']
        if viols and not thorough and time.time() - T0 > 500:
            break
    binary = fn.result()
    try:
        selftest = fs.result().strip()
    except Broken as e:
        selftest = ''
        problems.append(str(e))

    # Counterexamples count when the real code shows them.
    confirmed, unconfirmed = [], []
    if viols:
        checked = []

        def checked_binary():
            if not checked:
                checked.append(build_native(groups, 'checked'))
            return checked[0]
        done = set()
        for profile in ([('native', lambda: binary)], [('checked', checked_binary)]):
            for name, v in viols:
                if len(confirmed) >= 5 or (name, v['kind'], v['id']) in done:
                    continue
                c = confirm(prop, name, v, profile)
                if c:
                    done.add((name, v['kind'], v['id']))
                    confirmed.append((c[0], name, c[1], v))
            if confirmed:
                break
        if not confirmed:
            unconfirmed = [f'{n}: {v["kind"]}: {v["id"]} (model {v["model"]})' for n, v in viols[:5]]

    # Samples of the explored paths, run natively: same outputs?
    validated, mismatch = 0, []
    if samples and not viols:
        f = os.path.join(BUILD, 'batch.txt')
        open(f, 'w').write(''.join(f'{n} {m} {o}\n' for n, m, o in samples if m))
        r = subprocess.run([binary, '--batch', f], capture_output=True, text=True, timeout=300)
        m = re.search(r'BATCH (\d+) (\d+)', r.stdout)
        if not m:
            mismatch = [f'the native batch failed: {r.stdout[-300:]} {r.stderr[-300:]}']
        else:
            validated = int(m[1]) - int(m[2])
            mismatch = [l for l in r.stdout.splitlines() if l.startswith('MISMATCH')]
    agree, wrong = (0, []) if viols else second_solver(dumps, thorough)
    problems += [f'executor and native code differ: {x}' for x in mismatch[:3]]
    problems += [f'solvers disagree on a query:\n{x[:400]}' for x in wrong[:1]]
    problems += [f'a counterexample does not reproduce natively: {x}' for x in unconfirmed]

    # Known findings
    for k in sorted(seen_known):
        if (prop, k) in known:
            print(f'KNOWN-FINDING: property={prop} {known[(prop, k)]}')
    for (p, k), what in known.items():
        if p == prop and k not in seen_known and k.startswith('demo_') and demonstrate(k[5:], binary):
            print(f'KNOWN-FINDING: property={prop} {what}')

    show = []
    for n, m, o in sorted(samples, key=lambda x: sum(y[0] == x[0] for y in samples[:samples.index(x)]))[:16]:
        show.append({'entry': n, 'symbolic bytes': m, 'outputs': o, 'messages': message_of(binary, n, m)[:2]})
    ev = {
        'property': prop, 'tier': tier, 'seed': SEED, 'level': 'model_checking',
        'coverage': {
            'states': tot['done'] + tot['bad'] + tot['pruned'] + tot['left'],
            'transitions': tot['steps'],
            'traces_validated_against_impl': validated,
            'samples': show or [{'entry': n, 'counterexample': v} for n, v in viols[:4]],
            'exhaustive': not incomplete and not problems and not viols,
            'explanation': 'states: symbolic paths (each a class of messages, decided by the solver); transitions: instructions executed symbolically; '
                           'the bound of every entry is beside it',
            'entries': per, 'paths_completed': tot['done'], 'forks': tot['forks'], 'assertions_decided': tot['asserts'],
            'queries': {k: tot[k] for k in ['queries', 'sat', 'unsat', 'unknown', 'cache_hits', 'table_decisions']},
            'solver': z3, 'solver_s': round(tot['solver_us'] / 1e6, 2), 'build_s': round(built, 1),
            'functions_encoded': len(funcs), 'functions_of_the_crate': demangle(funcs),
            'queries_confirmed_by_z3_new_and_cvc5': agree, 'self_test': selftest,
            'incomplete_optional_entries': incomplete, 'problems': problems,
        },
        'assumptions': ASSUMPTIONS, 'wall_s': round(time.time() - T0, 1), 'violations': len(confirmed),
    }
    json.dump(ev, open(os.path.join(EV, f'{prop}.json'), 'w'), indent=1)

    for path, name, what, v in confirmed:
        print(f'{name}: {what}')
    if confirmed:
        print(f'VIOLATION property={prop} replay={confirmed[0][0]}')
        return 1
    if problems:
        for p in problems:
            print('NO ANSWER:', p)
        return 2
    print(f'{prop}: held on {tot["done"]} paths of {len(per)} entries, {tot["queries"]} queries, '
          f'{tot["solver_us"] / 1e6:.1f} s solver, {time.time() - T0:.0f} s' + (f'; not finished: {incomplete}' if incomplete else ''))
    return 0


def demangle(funcs):
    """The functions of the crate among the executed ones, readable."""
    funcs = sorted(f for f in funcs if '4nrbf' in f)
    try:
        r = subprocess.run(['c++filt', '-s', 'rust'], input='\n'.join(funcs), capture_output=True, text=True, timeout=60)
        names = r.stdout.splitlines() if r.returncode == 0 else funcs
    except (OSError, subprocess.TimeoutExpired):
        names = funcs
    names = {re.sub(r'\[[0-9a-f]{16}\]', '', n) for n in names}
    return sorted({n[:200] for n in names if re.match(r'(<+&?)?(nrbf::|.* as nrbf::|_R)', n)})


ASSUMPTIONS = [
    'the LLVM IR of rustc (release, overflow checks and debug assertions on) means what the executor implements; '
    'sampled paths are compared with the native code on every run',
    'z3 is right (a sample of its verdicts is compared with z3-new and cvc5)',
    'core::fmt::write has no effect in the parser checks; str::from_utf8 is replaced by a summary which the entry u_utf8 checks',
    'the allocator does not fail',
]


def bounds():
    """What every entry covers: the comment on its function, and the number of unconstrained bytes."""
    doc = {}
    for f in glob.glob(H + '/src/t_*.rs'):
        for m in re.finditer(r'((?:^///.*\n)+)(?:#\[.*\n)*pub fn (\w+)', open(f).read(), re.M):
            doc[os.path.basename(f)[:-3] + '::' + m[2]] = ' '.join(x[3:].strip() for x in m[1].splitlines())
    r = {}
    for l in open(H + '/src/entries.rs'):
        m = re.match(r'  (\w+) = (.*);', l)
        if m:
            t = re.findall(r'(t_\w+::\w+)(?:::<(\d+)>)?', m[2])
            if t:
                r[m[1]] = doc.get(t[-1][0], '') + (f' ({t[-1][1]} unconstrained bytes)' if t[-1][1] else '')
    return r


BOUNDS = bounds()


def record():
    prepare()
    build_engine()
    names = sorted({e.split(':')[0].rstrip('?') for p in PLAN.values() for e in p['quick'] + p.get('thorough', [])})
    for g in sorted({GROUP(n) for n in names}):
        build_ir(g)
    f = os.path.join(HERE, 'expected_covers.json')
    old = json.load(open(f)) if os.path.exists(f) else {}
    out = {}
    for n in names:
        d = explore(GROUP(n), n, 60, False)
        c = sorted(c for c in d['covers'] if not c.startswith('KNOWN'))
        if d.get('left', 0):
            c = sorted(set(c) | set(old.get(n, [])))
        out[n] = c
        print(n, d['wall_s'], d.get('left', 0), c, [v['id'] for v in d['violations']])
    json.dump(out, open(f, 'w'), indent=1, sort_keys=True)


def main():
    a = sys.argv[1:]
    try:
        if a == ['--setup']:
            prepare()
            build_engine()
            print(run([SYMEX, 'selftest', '1', '100'], 'the self test').strip())
            build_ir('parse')
            build_native(['parse'], 'native')
            return 0
        if a == ['--record']:
            record()
            return 0
        return check(a[0], '--thorough' in a or os.environ.get('VERIF_TIER') == 'thorough')
    except Broken as e:
        print('NO ANSWER:', e)
        return 2


sys.exit(main())
