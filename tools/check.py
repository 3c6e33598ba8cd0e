#!/usr/bin/env python3
"""Check one property by deterministic simulation.
usage: check.py <PROPERTY> [--tier quick|thorough] [--secs N]
exit 0: held on everything explored (or only listed known findings); exit 1: VIOLATION line printed; 2: error of the check"""
import json, os, subprocess, sys, time, shutil
HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
sys.path.insert(0, HERE)
import gen_build

QUICK_SECS, THOROUGH_SECS = 28, 420

def known_findings(prop):
    out = []
    try:
        for l in open(f'{VERIF}/known_findings.txt'):
            l = l.strip()
            if l.startswith(f'finding: property={prop} '):
                f = dict(x.split('=', 1) for x in l.split(' :: ')[0].split()[1:] if '=' in x)
                out.append((f.get('class', '').replace('%20', ' '), l.split(' :: ', 1)[1] if ' :: ' in l else ''))
    except OSError:
        pass
    return out

def main():
    prop = sys.argv[1]
    tier = 'quick'
    secs = None
    a = sys.argv[2:]
    for i, x in enumerate(a):
        if x == '--tier': tier = a[i + 1]
        if x == '--secs': secs = float(a[i + 1])
    seed = int(os.environ.get('VERIF_SEED', '1') or '1')
    if secs is None:
        secs = QUICK_SECS if tier == 'quick' else THOROUGH_SECS
    t0 = time.time()
    if gen_build.build():
        print(f'ERROR property={prop} the simulator could not be built from the current tree')
        return 2
    sim = f'{gen_build.BUILD}/mstdsim'
    out = f'{VERIF}/build/out/{prop}'
    shutil.rmtree(out, ignore_errors=True)
    os.makedirs(out)
    kn = known_findings(prop)
    open(f'{out}/known.txt', 'w').write(''.join(c + '\n' for c, _ in kn))
    bt = time.time() - t0
    ncpu = os.cpu_count() or 8
    cmd = [sim, 'search', '--prop', prop, '--seed', str(seed), '--secs', str(secs), '--workers', str(min(16, max(2, ncpu))), '--out', out, '--known', f'{out}/known.txt']
    if tier == 'thorough':
        cmd += ['--detsample', '200', '--minsecs', '60']
    r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    try:
        s = json.load(open(f'{out}/search.json'))
    except Exception as e:
        print(r.stdout[-2000:])
        print(f'ERROR property={prop} search produced no result: {e}')
        return 2
    seen = {v['class'] for v in s['violations']}
    for c, d in kn:
        print(f'KNOWN-FINDING: property={prop} {d} [class {c}; {"observed in this run" if c in seen else "not sampled in this run"}]')
    unknown = [v for v in s['violations'] if not v['known']]
    reported, errors = [], []
    for v in unknown:
        if v['gate'] != [1, 1, 1] or not v['replay']:
            errors.append(f'{v["class"]} (world {v["world"]} seed {v["seed"]}) did not pass the determinism gate {v["gate"]}')
            continue
        ok = True
        for _ in range(2):          # fresh processes
            q = subprocess.run([sim, 'replay', v['replay']], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
            if q.returncode != 0:
                ok = False
                errors.append(f'{v["class"]} (world {v["world"]} seed {v["seed"]}) did not replay: {q.stdout.strip()[:300]}')
                break
        if ok:
            reported.append(v)
    wall = time.time() - t0
    rate = s['runs'] / s['secs'] * 3600 if s['secs'] else 0
    ev = {
        'property': prop, 'tier': tier, 'seed': seed, 'level': 'exploration',
        'coverage': {
            'evaluations': s['runs'], 'distinct_nontrivial': s['distinct_runs'],
            'rule': 'one evaluation is one simulated run decided by one seed (workload, configuration swarm, schedule, faults); two runs are distinct when the hash of their full event log (every context switch position, system call result, fault and oracle event) differs; runs that end inconclusive are not counted as held',
            'samples': s['samples'],
            'runs_held': s['ok'], 'runs_inconclusive': s['inconclusive'], 'inconclusive_example': s['incon_msg'], 'real_time_limit_hits': s['real_timeouts'],
            'search_seconds': s['secs'], 'seeds_per_hour': int(rate), 'workers': s['workers'],
            'simulated_seconds': s['sim_seconds'], 'scheduling_points': s['steps'], 'instrumented_accesses': s['accesses'], 'context_switches': s['switches'], 'preemptions': s['preemptions'],
            'runs_with_faults_enabled': s['faulty_runs'], 'crash_restarts': s['restarts'], 'faults_injected': s['faults'],
            'probes': s['probes'], 'distinct_oracle_states': s['distinct_states'], 'code_edges_reached': s['edges'],
            'worlds': [{'name': w['name'], 'runs': w['runs'], 'real_code': w['real'], 'stubbed': w['stub']} for w in s['worlds']],
            'determinism_sample': {'seeds_run_three_times_and_replayed': s['det_checked'], 'mismatches': s['det_bad'], 'first_mismatch': s['det_msg']},
            'known_finding_hits': s['known_hits'],
            'violations_detail': [{k: v[k] for k in ('world', 'seed', 'class', 'message', 'replay', 'choices', 'minimised', 'min_runs', 'known')} for v in s['violations']],
        },
        'assumptions': ['sequentially consistent memory: preemption at every instrumented load, store and branch, no weak-memory reordering',
                        'the simulated kernel (threads, clocks, sockets, pipes, files, processes) behaves as POSIX/Linux documents',
                        'sampling, not enumeration: a clean batch is evidence, not proof'],
        'wall_s': round(wall, 2), 'violations': len(reported),
    }
    os.makedirs(f'{VERIF}/evidence', exist_ok=True)
    json.dump(ev, open(f'{VERIF}/evidence/{prop}.json', 'w'), indent=1)
    print(f'{prop}: {s["runs"]} runs ({s["distinct_runs"]} distinct, {s["inconclusive"]} inconclusive) in {s["secs"]:.1f}s, {s["sim_seconds"]:.0f} simulated seconds, {s["edges"]} edges, build {bt:.1f}s, determinism {s["det_checked"]}/{s["det_bad"]} bad')
    if s['det_bad']:
        print(f'WARNING {s["det_msg"]}')
    for e in errors:
        print('ERROR ' + e)
    if reported:
        for v in reported:
            print(f'  {v["class"]}: {v["message"][:600]} (world {v["world"]}, seed {v["seed"]}, {v["choices"]} -> {v["minimised"]} choices)')
            print(f'VIOLATION property={prop} replay={v["replay"]}')
        return 1
    if errors:
        return 2
    if s['runs'] == 0 or s['ok'] + s['known_hits'] == 0:
        print(f'ERROR property={prop} no run reached a verdict: {s["incon_msg"]}')
        return 2
    return 0

sys.exit(main())
