#!/usr/bin/env python3
"""check.py <property> [quick|thorough]: decides one property by deterministic simulation.

Builds the simulators from /repo's working tree, runs seeded simulations on all
cores, and for a violation: reproduces it in fresh processes, minimises its plan
(operations, faults, preemptions), writes the replay file and replays it.
Exit 0: held on everything explored. 1: VIOLATION. 2: the check itself failed.
"""
import collections, concurrent.futures, json, os, re, signal, subprocess, sys, time

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(HERE, 'sim'))
import build as B          # noqa: E402
from props import PROPS    # noqa: E402

REAL = {
    'lib': 'all of libhmac/*.c (every digest, HMAC, context and wrapper function), compiled from the working tree in each configuration',
    'tool': 'all of hmactools/*.c (option parsing, input handle, sum handle, signal handling, output, main) and all of libhmac/*.c',
    'py': 'all of pyhmac/*.c and libhmac/*.c, running in a real CPython 3.12 interpreter',
}
STUB = {
    'lib': 'malloc/free (tracked arena), memcpy/memset results, OpenSSL EVP and low level entry points (real OpenSSL behind a fault seam; simulated pre-1.1 EVP for evpl), libcerror',
    'tool': 'as lib, and libcfile/libcsplit/libclocale/libcnotify/libuna, stdio output, signal/close, process exit',
    'py': 'as lib, and the PyMem/PyObject allocators of the operations under test, the GIL hand-over',
}


def known_findings(prop):
    out = []
    try:
        for line in open(os.path.join(HERE, 'known_findings.txt')):
            m = re.match(r'known: property=(\S+) key=(\S+) (.*)', line)
            if m and m.group(1) == prop:
                out.append((m.group(2), m.group(3).strip()))
    except OSError:
        pass
    return out


def spawn(cmd, timeout):
    p = subprocess.Popen(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, start_new_session=True)
    PROCS.add(p)
    try:
        o, e = p.communicate(timeout=timeout)
        return p.returncode, o, e
    except subprocess.TimeoutExpired:
        os.killpg(p.pid, signal.SIGKILL)
        p.communicate()
        return -9, '', 'timeout'
    finally:
        PROCS.discard(p)


PROCS = set()


def kill_all():
    for p in list(PROCS):
        try:
            os.killpg(p.pid, signal.SIGKILL)
        except OSError:
            pass


def resolve(binary, text):
    """Names the code addresses of a message."""
    def one(m):
        r = subprocess.run(['addr2line', '-f', '-s', '-e', binary, m.group(1)], stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, text=True)
        l = r.stdout.split('\n')
        return m.group(0) + (f' <{l[0]} {l[1]}>' if len(l) > 1 and not l[0].startswith('??') else '')
    return re.sub(r'pc (0x[0-9a-f]+)', one, text)


def replay(binary, plan):
    rc, o, e = spawn([binary, 'replay', plan], 900)
    try:
        return json.loads(o.strip().split('\n')[-1])
    except Exception:
        return {'hash': None, 'violations': [], 'error': f'rc={rc} {o[-300:]} {e[-300:]}'}


def main():
    prop = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get('VERIF_TIER', 'quick')
    seed = int(os.environ.get('VERIF_SEED', '1'))
    spec = PROPS[prop]
    deep = tier == 'thorough'
    cap = float(os.environ.get('VERIF_BUDGET', '780' if deep else '150'))
    ncpu = os.cpu_count() or 4
    t0 = time.time()
    # ---- what to run
    tasks = []  # (target, lane, first, stride, count)
    for j in spec['jobs']:
        for tg in j['targets'] + (j['thorough'] if deep else []):
            n = j['n'] * (j['deep'] if deep else 1)
            if not n:
                continue
            parts = max(1, min(ncpu, n // 40))
            for k in range(parts):
                tasks.append((tg, j['lane'], k, parts, (n - k + parts - 1) // parts))
    giants = []
    for tg, idx, *lane in spec.get('giant_deep' if deep else 'giant', []):
        for i in idx:
            giants.append((tg, lane[0] if lane else 'giant', i, 1, 1))
    # interleave so that a budget cut, if any, hits every lane alike
    tasks.sort(key=lambda t: t[2])
    tasks = giants + tasks
    targets = sorted({t[0] for t in tasks})
    try:
        built = B.build_all([tuple(t.split('-')) for t in targets])
    except B.BuildError as e:
        print('error: cannot build the simulators from the working tree:\n' + str(e))
        return 2
    paths = {'-'.join(k): v for k, v in built.items()}
    tb = time.time()
    work = os.path.join(HERE, 'build', 'run', '%s-%d' % (prop, os.getpid()))
    os.makedirs(work, exist_ok=True)
    classes = ','.join(spec['classes'] + ['harness'])
    known = known_findings(prop)
    results, errors = [], []
    stop = False

    def run_task(i, t):
        tg, lane, first, stride, count = t
        left = cap - (time.time() - tb)
        if stop or left < 1:
            return None
        cmd = [paths[tg], 'run', '--lane', lane, '--seed', str(seed), '--first', str(first), '--stride', str(stride), '--count', str(count),
               '--classes', classes, '--budget', '%.1f' % left, '--out', work, '--sigs', os.path.join(work, 'sigs-%d' % i)]
        if known:
            cmd += ['--known', ','.join(k for k, _ in known)]
        rc, o, e = spawn(cmd, max(60, left + 300))
        if stop:
            return None
        try:
            r = json.loads(o.strip().split('\n')[-1])
        except Exception:
            errors.append(f'{tg} {lane}: rc={rc} {o[-500:]} {e[-1500:]}')
            return None
        r['target'], r['lane'] = tg, lane
        return r

    with concurrent.futures.ThreadPoolExecutor(max_workers=ncpu) as ex:
        futs = [ex.submit(run_task, i, t) for i, t in enumerate(tasks)]
        for f in concurrent.futures.as_completed(futs):
            if f.cancelled():
                continue
            r = f.result()
            if r is None:
                continue
            results.append(r)
            if r['found'] and not stop:
                stop = True
                for g in futs:
                    g.cancel()
                kill_all()
    # ---- determinism of what was run: the first runs of every lane, again, in two fresh processes
    det = 0
    if not stop and not errors:
        seen, dj = set(), []
        for t in tasks:
            if (t[0], t[1]) not in seen and t[1] not in ('giant', 'big', 'hollow', 'pygiant'):
                seen.add((t[0], t[1]))
                dj.append(t)

        def rerun(i, t, k):
            h = os.path.join(work, f'det-{i}-{k}')
            spawn([paths[t[0]], 'run', '--lane', t[1], '--seed', str(seed), '--first', '0', '--count', '2', '--classes', classes, '--out', work, '--hashes', h, '--known', '*'], 300)
            try:
                return open(h).read()
            except OSError:
                return None
        with concurrent.futures.ThreadPoolExecutor(max_workers=ncpu) as ex:
            pairs = [(t, ex.submit(rerun, i, t, 0), ex.submit(rerun, i, t, 1)) for i, t in enumerate(dj)]
            for t, a, b in pairs:
                if not a.result() or a.result() != b.result():
                    errors.append(f'not deterministic: {t[0]} {t[1]}')
                else:
                    det += len(a.result().split())
    # ---- violations
    verdict = None
    for r in results:
        for f in r['found']:
            b = paths[r['target']]
            runs = [replay(b, f['plan']) for _ in range(2)]
            keys = [[(v['class'], v['sig']) for v in x['violations']] for x in runs]
            if not all((f['class'], f['sig']) in k for k in keys):
                errors.append('violation not reproduced in a fresh process: %s (replays: %s)' % (f, runs))
                continue
            if f['class'] == 'harness':
                errors.append('harness error: ' + f['msg'])
                continue
            os.makedirs(os.path.join(HERE, 'replays'), exist_ok=True)
            out = os.path.join(HERE, 'replays', '%s-%s-%s.plan' % (prop, r['target'], f['hash']))
            if r['lane'] in ('giant', 'big', 'hollow', 'pygiant'):
                text = open(f['plan']).read()
            else:
                rc, o, e = spawn([b, 'minimise', f['plan'], '--class', f['class'], '--sig', f['sig'], '--out', out, '--limit', '40'], 200)
                text = open(out).read() if rc == 0 and os.path.exists(out) else open(f['plan']).read()
            with open(out, 'w') as fh:
                fh.write(text)
            rep = replay(b, out)
            vs = [v for v in rep['violations'] if v['class'] == f['class'] and v['sig'] == f['sig']]
            if not vs:
                with open(out, 'w') as fh:
                    fh.write(open(f['plan']).read())
                rep = replay(b, out)
                vs = [v for v in rep['violations'] if v['class'] == f['class'] and v['sig'] == f['sig']]
            msg = resolve(b, vs[0]['msg'] if vs else f['msg'])
            with open(out, 'a') as fh:
                fh.write('# property %s, build %s, VERIF_SEED=%d\n# %s/%s: %s\n# trace hash %s\n# replay: python3 %s/replay.py %s\n' % (
                    prop, r['target'], seed, f['class'], f['sig'], msg, rep.get('hash'), HERE, out))
            verdict = (f, out, msg, r)
            break
        if verdict:
            break
    # ---- evidence
    wall = time.time() - t0
    tot = collections.Counter()
    fired, probes, knownhits, other = collections.Counter(), collections.Counter(), collections.Counter(), collections.Counter()
    seenk = collections.Counter()
    per = collections.defaultdict(lambda: [0, 0])
    samples, sims = [], set()
    for r in results:
        for k in ('runs', 'bases', 'steps', 'ops', 'switches', 'switches_into_running_op', 'signals', 'bytes', 'reads', 'writes', 'faulty_runs', 'checks', 'nontrivial'):
            tot[k] += r.get(k, 0)
        for k, (a, b) in r['fired'].items():
            fired[k] += a
            seenk[k] += b
        probes.update(r['probes'])
        knownhits.update(r['known'])
        other.update(r['other'])
        per[f"{r['lane']} on {r['target']}"][0] += r['runs']
        sims.add(r['target'].split('-')[0])
        if r['samples'] and len(samples) < 6 and not any(s['lane'] == r['lane'] for s in samples):
            samples.append({'lane': r['lane'], 'target': r['target'], 'plan': r['samples'][-1].split('\n')})
    sigs = set()
    for f in os.listdir(work):
        if f.startswith('sigs-'):
            d = open(os.path.join(work, f), 'rb').read()
            sigs.update(d[i:i + 8] for i in range(0, len(d), 8))
    distinct = len(sigs)
    run_s = max(0.001, time.time() - tb)
    cov = {
        'evaluations': tot['runs'],
        'distinct_nontrivial': distinct,
        'rule': 'A run executes one seeded plan (operations with arguments and data, faults at chosen occurrences of a fault point, preemptions and signals at chosen execution steps). It is non-trivial when a fault fired, '
                'a preemption or signal took effect inside an operation, or at least two results were compared with the reference; runs are distinct by a hash over operations, their outcomes, fired faults and preemption points.',
        'samples': samples,
        'nontrivial_runs': tot['nontrivial'],
        'base_plans_without_faults': tot['bases'],
        'runs_per_hour': int(tot['runs'] / run_s * 3600),
        'seeds': {'VERIF_SEED': seed, 'plan_seeds': tot['bases'], 'per_hour': int(tot['bases'] / run_s * 3600)},
        'simulated_time': {'unit': 'execution steps (memory accesses and calls through the seams); the code under test has no clock or timer', 'steps': tot['steps'], 'operations': tot['ops'], 'bytes_processed': tot['bytes']},
        'faults_injected': dict(fired), 'fault_points_reached': dict(seenk), 'runs_with_faults': tot['faulty_runs'],
        'results_compared': tot['checks'],
        'preemptions': tot['switches'], 'preemptions_into_a_running_operation': tot['switches_into_running_op'], 'signals_delivered': tot['signals'],
        'reads': tot['reads'], 'writes': tot['writes'],
        'rare_situations_reached_in_runs': {k: v for k, v in probes.items()},
        'runs_by_lane_and_build': {k: v[0] for k, v in sorted(per.items())},
        'real_code': [REAL[s] for s in sorted(sims)], 'stubbed': [STUB[s] for s in sorted(sims)],
        'determinism_recheck': {'runs_repeated_in_two_fresh_processes_with_identical_traces': det},
        'known_findings_hit': dict(knownhits),
        'observations_outside_this_property': dict(other),
        'truncated_by_wall_cap': any(r['timeout'] for r in results) or (len(results) < len(tasks) and not verdict and not errors),
        'build_s': round(tb - t0, 2),
    }
    ev = {'property': prop, 'tier': tier if tier in ('quick', 'thorough') else 'quick', 'seed': seed, 'level': 'exploration', 'coverage': cov,
          'assumptions': spec.get('assumptions', ['the reference digests (checked against published vectors at start up) are right', 'the seams behave like the libraries they stand for']),
          'wall_s': round(wall, 2), 'violations': 1 if verdict else 0}
    os.makedirs(os.path.join(HERE, 'evidence'), exist_ok=True)
    tmp = os.path.join(HERE, 'evidence', prop + '.json.tmp')
    with open(tmp, 'w') as f:
        json.dump(ev, f, indent=1)
    os.rename(tmp, os.path.join(HERE, 'evidence', prop + '.json'))
    if not os.environ.get('VERIF_KEEP'):
        subprocess.run(['rm', '-rf', work])
    # ---- verdict
    if verdict:
        f, out, msg, r = verdict
        print('%s: %s on %s: %s/%s' % (prop, r['lane'], r['target'], f['class'], f['sig']))
        print('  ' + msg)
        print('VIOLATION property=%s replay=%s' % (prop, out))
        return 1
    if errors:
        for e in errors[:5]:
            print('error: ' + e)
        return 2
    for key, what in known:
        print('KNOWN-FINDING: property=%s %s' % (prop, what))
    print('%s held: %d runs (%d distinct), %d results compared, faults %s, preemptions %d, signals %d, %.1f s' % (
        prop, tot['runs'], distinct, tot['checks'], dict(fired), tot['switches'], tot['signals'], wall))
    return 0


if __name__ == '__main__':
    try:
        rc = main()
    except KeyboardInterrupt:
        kill_all()
        rc = 2
    sys.stdout.flush()
    os._exit(rc)
