#!/usr/bin/env python3
"""Decides one property: check.py <property> [--tier quick|thorough] | check.py --replay FILE | check.py --setup

1. builds, from /repo's current working tree: the LLVM IR of the harness crate linked with
   actiondb, its dependencies and std (fat LTO), and a native build of the same harnesses;
2. runs the symbolic executor (engine/) on the IR, entry by entry: all paths, Z3 decides every
   branch and every assertion over all values of the symbolic bytes within the bounds;
3. replays every explored path's solver model in the native build and compares what was observed;
4. replays counterexamples natively and reports those which reproduce.
Exit 0: held; 1: violated (VIOLATION line); 2: the check itself failed.
"""
import json, os, re, shutil, subprocess, sys, time
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.abspath(__file__))
WORK = os.environ.get('VERIF_WORK', os.path.join(VERIF, '.build'))
EVID = os.path.join(VERIF, 'evidence')
sys.path.insert(0, VERIF)
from props import PROPS  # noqa: E402

CORES = os.cpu_count() or 4


def fail(msg):
    print('CHECK-ERROR: ' + msg, flush=True)
    sys.exit(2)


def env():
    e = dict(os.environ)
    # the toolchain the repository is built with
    for line in subprocess.run(['bash', '-c', '. /opt/vp/env.sh 2>/dev/null; env -0'], stdout=subprocess.PIPE).stdout.split(b'\0'):
        if b'=' in line:
            k, v = line.decode('utf-8', 'replace').split('=', 1)
            e[k] = v
    e['CARGO_NET_OFFLINE'] = 'true'
    e['CARGO_INCREMENTAL'] = '0'
    e.pop('RUSTFLAGS', None)
    for k in list(e):
        if k.startswith('CARGO_PROFILE_'):
            del e[k]
    return e


def run_build(name, cmd, cwd, target):
    e = env()
    e['CARGO_TARGET_DIR'] = target
    log = os.path.join(WORK, name + '.log')
    with open(log, 'wb') as f:
        r = subprocess.run(cmd, cwd=cwd, env=e, stdout=f, stderr=subprocess.STDOUT)
    if r.returncode != 0:
        text = open(log, errors='replace').read()
        errs = re.findall(r'^error.*?(?=^\S|\Z)', text, re.S | re.M)
        fail('%s does not build:\n%s' % (name, '\n'.join(errs)[:3000] or text[-3000:]))


def build():
    os.makedirs(WORK, exist_ok=True)
    os.makedirs(EVID, exist_ok=True)
    t = time.time()
    eng, ir, nat = (os.path.join(WORK, d) for d in ('engine', 'ir', 'native'))
    hc = os.path.join(VERIF, 'harness')
    deps = os.path.join(ir, 'release', 'deps')
    # never read an IR file of an earlier tree
    if os.path.isdir(deps):
        for f in os.listdir(deps):
            if f.startswith('harness-') and (f.endswith('.ll') or f.endswith('.d')):
                os.remove(os.path.join(deps, f))
    fp = os.path.join(ir, 'release', '.fingerprint')
    if os.path.isdir(fp):
        for f in os.listdir(fp):
            if f.startswith('harness-'):
                shutil.rmtree(os.path.join(fp, f))
    jobs = [
        ('engine', ['cargo', 'build', '--release', '--offline', '--locked'], os.path.join(VERIF, 'engine'), eng),
        ('ir', ['cargo', 'rustc', '--offline', '--release', '--locked', '--', '--emit=llvm-ir', '-C', 'no-vectorize-loops', '-C', 'no-vectorize-slp',
                '-C', 'link-args=-Wl,--unresolved-symbols=ignore-all'], hc, ir),
        ('native', ['cargo', 'build', '--offline', '--locked', '--features', 'native'], hc, nat),
    ]
    with ThreadPoolExecutor(3) as ex:
        for f in [ex.submit(run_build, *j) for j in jobs]:
            f.result()
    lls = [os.path.join(deps, f) for f in os.listdir(deps) if f.startswith('harness-') and f.endswith('.ll')]
    if len(lls) != 1:
        fail('expected one IR file, found %r' % lls)
    return os.path.join(eng, 'release', 'symx'), lls[0], os.path.join(nat, 'debug', 'harness'), time.time() - t


def native(binary, lines, timeout=600):
    """runs the harness natively on recorded inputs; one answer per line"""
    if not lines:
        return []
    n = min(CORES, 1 + len(lines) // 200)
    chunks = [lines[i::n] for i in range(n)]

    def one(chunk):
        try:
            r = subprocess.run([binary], input='\n'.join(chunk) + '\n', stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, text=True, timeout=timeout)
        except subprocess.TimeoutExpired:
            return None
        out = [l.split('\t') for l in r.stdout.split('\n') if l]
        return out if r.returncode == 0 and len(out) == len(chunk) else None
    with ThreadPoolExecutor(n) as ex:
        res = list(ex.map(one, chunks))
    if any(r is None for r in res):
        return None
    out = [None] * len(lines)
    for i, r in enumerate(res):
        out[i::n] = r
    return out


def native_one(binary, line, timeout=20):
    """the outcome of one input, in a process of its own: OK, ASSERT, PANIC, HANG, CRASH"""
    try:
        r = subprocess.run([binary], input=line + '\n', stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, text=True, timeout=timeout)
    except subprocess.TimeoutExpired:
        return ['HANG', '', '']
    out = [l.split('\t') for l in r.stdout.split('\n') if l]
    if r.returncode != 0 or len(out) != 1:
        return ['CRASH', str(r.returncode), '']
    return out[0]


def printable(h):
    return bytes.fromhex(h).decode('latin-1').encode('unicode_escape').decode()


def main():
    if '--setup' in sys.argv:
        build()
        print('built')
        return 0
    if '--replay' in sys.argv:
        d = json.load(open(sys.argv[sys.argv.index('--replay') + 1]))
        _, _, nb, _ = build()
        r = native_one(nb, d['line'])
        print('%s: %s (expected %s)' % (d['line'], r, d['outcome']))
        return 1 if r[0] in ('ASSERT', 'PANIC', 'HANG', 'CRASH') else 0
    pid = sys.argv[1]
    tier = sys.argv[sys.argv.index('--tier') + 1] if '--tier' in sys.argv else os.environ.get('VERIF_TIER', 'quick')
    if tier not in ('quick', 'thorough'):
        tier = 'quick'
    P = PROPS[pid]
    t0 = time.time()
    budget = 640 if tier == 'quick' else 5 * 3600
    symx, ll, nb, build_s = build()
    out_dir = os.path.join(WORK, 'out-' + pid)
    shutil.rmtree(out_dir, ignore_errors=True)
    os.makedirs(out_dir)
    runs = P['runs'] if tier == 'quick' else P.get('thorough', P['runs'])
    tot = {}
    funcs, exts = {}, {}
    per_run, samples, violations, errors, undecided = [], [], [], [], []
    validated = paths = nontrivial = 0
    for i, r in enumerate(runs):
        left = budget - (time.time() - t0)
        if left < 10:
            undecided.append('out of time before %s' % r['entry'])
            break
        o = os.path.join(out_dir, '%d-%s' % (i, r['entry']))
        ps = ','.join(map(str, r['params']))
        cmd = [symx, ll, r['entry'], o, '--param', ps, '--workers', str(CORES), '--time', str(int(left)), '--maxviol', '6']
        if tier == 'thorough' and i == 0:
            cmd += ['--dump', o + '.smt2']
        e = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        if e.returncode != 0 or not os.path.exists(o):
            errors.append('%s(%s): %s' % (r['entry'], ps, e.stdout.strip()[-800:]))
            continue
        d = json.load(open(o))
        if d['timeout']:
            undecided.append('%s(%s): time limit, not all paths were explored' % (r['entry'], ps))
        if d['stats'].get('queries_undecided'):
            undecided.append('%s(%s): %d queries without an answer in time' % (r['entry'], ps, d['stats']['queries_undecided']))
        at = {p['key']: p['at'] for p in d['panics']}
        recs = []
        with open(o + '.paths') as f:
            for l in f:
                recs.append(l.rstrip('\n').split('\t'))
        ok = [p for p in recs if p[1] == 'OK']
        bad = [p for p in recs if p[1] not in ('OK', 'UNDECIDED')]
        und = [p for p in recs if p[1] == 'UNDECIDED']
        if und:
            undecided.append('%s(%s): %d paths the engine cannot follow (%s)' % (r['entry'], ps, len(und), und[0][2][:300]))
        # every path which ended well: the native build has to observe the same on its model
        res = native(nb, ['%s\t%s\t%s' % (r['entry'], ps, p[3]) for p in ok])
        if res is None:
            # something crashed or hung natively: find it
            for p in ok[:20000]:
                one = native_one(nb, '%s\t%s\t%s' % (r['entry'], ps, p[3]))
                if one[0] in ('HANG', 'CRASH'):
                    bad.append(['P', one[0], one[1], p[3], '', '', ''])
                    break
            else:
                errors.append('%s(%s): the native replay failed' % (r['entry'], ps))
            res = []
        again = 0
        for p, q in zip(ok, res):
            q = q + [''] * (3 - len(q))
            if (q[0] != 'OK' or q[2] != p[4]) and again < 200:
                # many paths share a process: state the library keeps between them would show here
                again += 1
                q = native_one(nb, '%s\t%s\t%s' % (r['entry'], ps, p[3]))
                q = q + [''] * (3 - len(q))
            if q[0] in ('ASSERT', 'PANIC'):
                bad.append(['P', q[0], q[1], p[3], '', '', ''])
            elif q[0] != 'OK' or q[2] != p[4]:
                errors.append('%s(%s) input %s: the symbolic run observed %s, the native one %s %s' % (r['entry'], ps, p[3], p[4], q[0], q[2]))
            else:
                validated += 1
        for p in und[:500]:
            # the engine stopped, but the input which led here is one of the solver's: see what the real code does on it
            q = native_one(nb, '%s\t%s\t%s' % (r['entry'], ps, p[3]))
            if q[0] in ('ASSERT', 'PANIC', 'HANG', 'CRASH'):
                bad.append(['P', q[0], (q + [''])[1], p[3], '', '', ''])
                break
        for p in bad:
            line = '%s\t%s\t%s' % (r['entry'], ps, p[3])
            q = native_one(nb, line)
            if q[0] in ('ASSERT', 'PANIC', 'HANG', 'CRASH'):
                violations.append({'line': line, 'outcome': q, 'symbolic': p[1:3], 'at': at.get(p[2], ''), 'input': printable(p[3]), 'entry': r['entry'], 'meaning': r['bounds']})
            elif p[1] == 'LIMIT':
                undecided.append('%s: longer than the step limit' % line)
            else:
                errors.append('%s: %s %s does not reproduce natively (%s)' % (line, p[1], p[2], q))
        if not bad and not d['timeout'] and not und:
            for c in r.get('covers', [1, 2]):
                if d['covers'].get(str(c), 0) == 0:
                    errors.append('%s(%s): case %d was never reached, the check would be vacuous' % (r['entry'], ps, c))
        if not ok and not bad:
            errors.append('%s(%s): no path was explored to its end' % (r['entry'], ps))
        for k, v in d['stats'].items():
            tot[k] = max(tot.get(k, 0), v) if k.startswith('max') else tot.get(k, 0) + v
        for k, v in d['functions'].items():
            funcs[k] = max(funcs.get(k, 0), v)
        for k, v in d['externals'].items():
            exts[k] = exts.get(k, 0) + v
        paths += len(recs)
        nontrivial += sum(1 for p in recs if '1' in p[5].split(','))
        per_run.append({'entry': r['entry'], 'params': r['params'], 'bounds': r['bounds'], 'paths': len(recs), 'ends': d['ends'], 'covers': d['covers'],
                        'queries': d['stats']['queries'], 'queries_unsat': d['stats']['queries_unsat'], 'solver_s': round(d['stats']['solver_us'] / 1e6, 2), 'wall_s': d['wall_s']})
        for p in ok[:: max(1, len(ok) // 2)][:2]:
            samples.append({'entry': r['entry'], 'input_model': printable(p[3]), 'observed': p[4]})
        for f in (o + '.paths',):
            os.remove(f)
        if violations:
            break
    second = cross_check(out_dir) if tier == 'thorough' else None
    if second and second.get('disagree'):
        errors.append('the second solver disagrees: %r' % second)
    ev = {
        'property': pid, 'tier': tier, 'seed': int(os.environ.get('VERIF_SEED', '1') or 1), 'level': 'model_checking',
        'coverage': {
            'states': paths, 'transitions': tot.get('steps', 0), 'traces_validated_against_impl': validated, 'samples': samples[:12],
            'explanation': 'states: symbolic paths, each standing for every input which satisfies its path condition; transitions: LLVM IR instructions executed symbolically; '
                           'each path\'s model was replayed in a native build and its observations compared',
            'paths_in_the_main_case': nontrivial,
            'queries_discharged': tot.get('queries', 0), 'queries_unsat': tot.get('queries_unsat', 0), 'queries_sat': tot.get('queries_sat', 0), 'queries_answered_from_cache': tot.get('queries_cached', 0),
            'assertions_decided_by_solver': tot.get('asserts_symbolic', 0), 'assertions_decided_by_path_condition': tot.get('asserts_decided', 0),
            'solver': 'Z3 (libz3, in process)', 'solver_time_s': round(tot.get('solver_us', 0) / 1e6, 2), 'longest_query_s': round(tot.get('max_query_us', 0) / 1e6, 3),
            'second_solver': second,
            'functions_encoded': {k: '%d source lines' % v for k, v in sorted(funcs.items())},
            'environment_functions_modelled': exts,
            'runs': per_run, 'undecided': undecided, 'outside_the_bounds': P['outside'],
        },
        'assumptions': P.get('assumptions', []) + COMMON, 'wall_s': round(time.time() - t0, 1), 'violations': len(violations),
    }
    ev['coverage']['build_s'] = round(build_s, 1)
    with open(os.path.join(EVID, pid + '.json'), 'w') as f:
        json.dump(ev, f, indent=1)
    shutil.rmtree(out_dir, ignore_errors=True)
    if violations:
        v = violations[0]
        path = os.path.join(EVID, pid + '.replay.json')
        with open(path, 'w') as f:
            json.dump(v, f, indent=1)
        print('%s on input %s of %s %s %s' % (v['outcome'][:2], v['input'], v['line'].split('\t')[:2], 'in ' + v['at'] if v['at'] else '', v['meaning']))
        print('VIOLATION property=%s replay=%s' % (pid, path), flush=True)
        return 1
    if errors:
        fail('\n'.join(errors[:8]))
    for u in undecided[:8]:
        print('INCOMPLETE: ' + u)
    print('%s %s: held on %d paths, %d solver queries (%.1f s), %d replays agree; build %.0f s, total %.0f s' % (
        pid, tier, paths, tot.get('queries', 0), tot.get('solver_us', 0) / 1e6, validated, build_s, time.time() - t0))
    return 0


def cross_check(out_dir):
    """a sample of the queries, decided again by cvc5 and by the z3 binary"""
    files = [f for f in os.listdir(out_dir) if f.endswith('.smt2')]
    n = bad = 0
    for f in files:
        text = open(os.path.join(out_dir, f)).read()
        want = re.findall(r'expect (sat|unsat)', text)
        text = '(set-logic QF_BV)\n' + text
        for solver in (['cvc5', '--incremental', '--lang=smt2'], ['z3', '-in']):
            try:
                r = subprocess.run(solver, input=text, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=900)
            except (subprocess.TimeoutExpired, FileNotFoundError):
                continue
            if '(error' in r.stdout:
                return {'error': r.stdout[:300]}
            got = re.findall(r'^(sat|unsat)$', r.stdout, re.M)
            if len(got) != len(want):
                return {'error': '%s answered %d of %d queries' % (solver[0], len(got), len(want))}
            n += len(got)
            bad += sum(1 for a, b in zip(want, got) if a != b)
    return {'queries_compared': n, 'disagree': bad}


COMMON = [
    'the harness is compiled by the installed rustc/LLVM with opt-level 2, overflow checks, panic=abort; the executor interprets that IR (its correctness is checked by the native replay of every path)',
    'allocation never fails; one thread; the log level is the default (off)',
    'the message/pattern bytes are arbitrary within the stated sizes; everything longer is outside the claim',
]

if __name__ == '__main__':
    sys.exit(main())
