"""The command line: check <ID> [--tier quick|thorough] [--replay FILE] [--selftest N]"""
import argparse
import json
import os
import subprocess
import sys
import time

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(HERE, 'sim'))
sys.path.insert(0, os.path.join(HERE, 'checks'))
import core            # noqa: E402
import engine          # noqa: E402


def known(prop):
    """The violations that are listed findings: (kind, key) -> description."""
    path = os.path.join(HERE, 'known_findings.json')
    out = {}
    if os.path.exists(path):
        for f in json.load(open(path)).get('known', []):
            if f['property'] == prop:
                out[(f['kind'], f['key'])] = f['what']
    return out


def main():
    if sys.argv[1:2] == ['--node']:
        engine.serve_node(sys.argv[2])
        return 0
    sys.stdout.reconfigure(errors='backslashreplace')
    ap = argparse.ArgumentParser()
    ap.add_argument('id')
    ap.add_argument('--tier', default=os.environ.get('VERIF_TIER') or 'quick',
                    choices=['quick', 'thorough'])
    ap.add_argument('--replay')
    ap.add_argument('--seeds', type=int, help='number of seeds (instead of the tier\'s)')
    ap.add_argument('--start', type=int, default=0, help='first seed, relative to VERIF_SEED')
    ap.add_argument('--keep-going', action='store_true')
    ap.add_argument('--dump', action='store_true', help='write digests of all runs to stdout')
    ap.add_argument('--no-minimise', action='store_true')
    a = ap.parse_args()
    mod = engine.prepare(a.id)
    if a.replay:
        return replay(mod, a)
    return explore(mod, a)


def replay(mod, a):
    rec = json.load(open(a.replay))
    nodes = engine.open_nodes(mod)
    try:
        res = engine.run_one(mod, rec['scenario'], nodes)
    finally:
        for n in nodes:
            n.close()
    for line in res['trace']:
        print('  ' + line)
    if res['v']:
        print(f'replayed: {res["v"]["kind"]}: {res["v"]["msg"]}')
        print(f'VIOLATION property={mod.ID} replay={os.path.abspath(a.replay)}')
        return 1
    print('replayed: no violation')
    return 0


def explore(mod, a):
    t0 = time.time()
    m0 = time.monotonic()
    vseed = int(os.environ.get('VERIF_SEED') or 1)
    n = a.seeds or mod.COUNTS[a.tier]
    base = vseed * 1_000_000 + a.start
    seeds = list(range(base, base + n))
    print(f'property={mod.ID} tier={a.tier} VERIF_SEED={vseed} seeds={base}..{base + n - 1} jobs={engine.JOBS}',
          flush=True)
    agg = {'runs': 0, 'steps': 0, 'switches': 0, 'simtime': 0.0, 'tasks': 0, 'nontrivial': 0}
    faults, sites, probes, sigs, samples = {}, {}, {}, set(), []
    found, errors, digests = [], [], {}
    listed = known(mod.ID)
    seen_known = {}

    def on_result(r):
        if r.get('error'):
            errors.append(r)
            return
        st = r['stats']
        agg['runs'] += 1
        for k in ('steps', 'switches', 'simtime', 'tasks'):
            agg[k] += st[k]
        if st['nontrivial']:
            agg['nontrivial'] += 1
            sigs.add(st['sig'])
        for src, dst in ((st['faults'], faults), (st['sites'], sites), (st['probes'], probes)):
            for k, v in src.items():
                dst[k] = dst.get(k, 0) + v
        if r.get('sample') and len(samples) < 3:
            samples.append({'scenario': r['sample'], 'steps': st['steps'], 'switches': st['switches'],
                            'faults': st['faults']})
        if a.dump:
            digests[r['seed']] = r['digest']
        v = r['v']
        if v:
            if (v['kind'], v['key']) in listed:
                seen_known[(v['kind'], v['key'])] = listed[(v['kind'], v['key'])]
                r['v'] = None
                return
            found.append(r)

    engine.batch(mod, seeds, a.tier, on_result=on_result, stop_on_violation=not a.keep_going)
    explored_s = time.monotonic() - m0
    if a.dump:
        for s in sorted(digests):
            print(f'digest {s} {digests[s]}')
    status = 0
    for what in sorted(set(seen_known.values())):
        print(f'KNOWN-FINDING: property={mod.ID} {what}')
    if found:
        found.sort(key=lambda r: r['seed'])
        status = 1
        kinds = {}
        for r in found:
            kinds.setdefault(r['v']['kind'], r)
        if a.keep_going:
            cnt = {}
            for r in found:
                cnt[r['v']['kind']] = cnt.get(r['v']['kind'], 0) + 1
            for k, r in kinds.items():
                print(f'  {cnt[k]}x {k}: seed {r["seed"]}: {r["v"]["msg"][:600]}')
        status = report(mod, a, found[0])
    if errors and not found:
        print(f'HARNESS ERROR ({len(errors)} runs), seed {errors[0]["seed"]}:\n{errors[0]["error"][-3000:]}',
              file=sys.stderr)
        status = 2
    evidence(mod, a, vseed, agg, faults, sites, probes, sigs, samples, len(found), explored_s, t0)
    rate = agg['runs'] / max(explored_s, 1e-6) * 3600
    print(f'{agg["runs"]} runs ({agg["nontrivial"]} with preemptions or faults, {len(sigs)} distinct), '
          f'{agg["steps"]} steps, {agg["switches"]} context switches, faults {faults}, '
          f'{explored_s:.1f}s, {rate:,.0f} runs/hour: ' + ('ok' if status == 0 else 'NOT ok'))
    return status


def report(mod, a, r):
    """Minimise, write the replay file, confirm it in a fresh process, and report."""
    seed = r['seed']
    sc = engine.scenario(mod, seed, a.tier)
    print(f'seed {seed}: {r["v"]["kind"]}: {r["v"]["msg"]}', flush=True)
    nodes = engine.open_nodes(mod)
    try:
        best, last = (None, None) if a.no_minimise else engine.minimise(mod, sc, r, nodes)
    finally:
        for n in nodes:
            n.close()
    if best is None:
        best, last = dict(sc, decisions=r['decisions']), r
    out = os.path.join(HERE, 'replays')
    os.makedirs(out, exist_ok=True)
    path = os.path.join(out, f'{mod.ID}-{seed}.json')
    with open(path, 'w') as f:
        json.dump({'property': mod.ID, 'seed': seed, 'violation': last['v'], 'trace': last['trace'],
                   'scenario': best, 'original_scenario': sc,
                   'context_switches': [len(d) - 1 for d in best['decisions']]}, f, indent=1)
    print(f'minimised: {last["v"]["kind"]}: {last["v"]["msg"]}')
    for line in last['trace'][:40]:
        print('  ' + line)
    p = subprocess.run([os.path.join(HERE, 'check'), mod.ID, '--replay', path], capture_output=True, text=True)
    if p.returncode != 1 or last['v']['kind'] not in p.stdout:
        print(f'the replay does not reproduce the violation:\n{p.stdout[-2000:]}{p.stderr[-2000:]}', file=sys.stderr)
        with open(path, 'w') as f:
            json.dump({'property': mod.ID, 'seed': seed, 'violation': r['v'], 'trace': r['trace'],
                       'scenario': dict(sc, decisions=r['decisions'])}, f, indent=1)
        p = subprocess.run([os.path.join(HERE, 'check'), mod.ID, '--replay', path], capture_output=True, text=True)
        if p.returncode != 1:
            print('HARNESS ERROR: the unminimised replay does not reproduce the violation either', file=sys.stderr)
            return 2
    print(f'VIOLATION property={mod.ID} replay={path}', flush=True)
    return 1


def evidence(mod, a, vseed, agg, faults, sites, probes, sigs, samples, violations, secs, t0):
    hours = max(secs, 1e-6) / 3600
    top = sorted(sites.items(), key=lambda kv: -kv[1])
    cov = {'evaluations': agg['runs'], 'distinct_nontrivial': len(sigs),
           'rule': mod.RULE + ' Non-trivial: at least one context switch between simulated tasks or one '
                   'fault that fired. Distinct: different hash of the sequence of (task, code site, next task) '
                   'switches, interrupt sites and faults.',
           'samples': samples,
           'runs_per_hour': round(agg['runs'] / hours), 'seeds_per_hour': round(agg['runs'] / hours),
           'simulated_events': agg['steps'], 'simulated_seconds': round(agg['simtime'], 3),
           'context_switches': agg['switches'], 'simulated_tasks': agg['tasks'],
           'faults_fired': dict(sorted(faults.items())), 'probes': dict(sorted(probes.items())),
           'distinct_preemption_sites': len(sites),
           'top_preemption_sites': dict(top[:8]),
           'real_components': mod.REAL, 'stubbed_components': mod.STUB}
    os.makedirs(os.path.join(HERE, 'evidence'), exist_ok=True)
    with open(os.path.join(HERE, 'evidence', f'{mod.ID}.json'), 'w') as f:
        json.dump({'property': mod.ID, 'tier': a.tier, 'seed': vseed, 'level': mod.LEVEL, 'coverage': cov,
                   'assumptions': mod.ASSUMPTIONS, 'wall_s': round(time.time() - t0, 2),
                   'violations': violations}, f, indent=1, default=str)


if __name__ == '__main__':
    try:
        code = main()
    except core.HarnessError as e:
        print(f'HARNESS ERROR: {e}', file=sys.stderr)
        code = 2
    sys.stdout.flush()
    sys.stderr.flush()
    os._exit(code)
