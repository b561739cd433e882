#!/usr/bin/env python3
"""Check driver.

    run.py C01                 search (tier and seed from VERIF_TIER/VERIF_SEED)
    run.py --replay FILE       replay a failure file
Exit 0: held on everything explored; 1: VIOLATION printed; 2: harness error.
"""
import argparse
import json
import os
import shutil
import subprocess
import sys
import tempfile
import time

VERIF = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, VERIF)
PY = '/opt/venv/bin/python'
if not os.path.exists(PY):
    PY = sys.executable
KNOWN = os.path.join(VERIF, 'KNOWN_FINDINGS.txt')


def env(scratch, hashseed='0'):
    e = dict(os.environ)
    e.update(PYTHONDONTWRITEBYTECODE='1', PYTHONUTF8='1', PYTHONHASHSEED=hashseed,
             VERIF_SCRATCH=scratch, OMP_NUM_THREADS='1', OPENBLAS_NUM_THREADS='1',
             MPLBACKEND='Agg', TZ='UTC', LC_ALL='C.UTF-8')
    e.pop('PYTHONPATH', None)
    return e


def scratch_dir():
    base = '/dev/shm' if os.path.isdir('/dev/shm') and os.access('/dev/shm', os.W_OK) else None
    try:
        d = tempfile.mkdtemp(prefix='verif-', dir=base)
    except OSError:
        d = tempfile.mkdtemp(prefix='verif-')
    return d


def known_findings(prop):
    """Lines 'known: property=<id> kind=<kind> match=<text> :: <what>'."""
    out = []
    if os.path.exists(KNOWN):
        for ln in open(KNOWN):
            if ln.startswith('known: property=%s ' % prop):
                d = {}
                head, _, what = ln[7:].partition(' :: ')
                for tok in head.split(' ', 2):
                    k, _, v = tok.partition('=')
                    d[k] = v.strip()
                d['what'] = what.strip()
                out.append(d)
    return out


def matches(kf, kind, detail):
    return kf.get('kind') == kind and kf.get('match', '') in (detail or '')


def replay_file(path, scratch, hashseed='0'):
    rp = json.load(open(path))
    out = os.path.join(scratch, 'replay.out')
    if os.path.exists(out):
        os.remove(out)
    r = subprocess.run([PY, os.path.join(VERIF, 'sim', 'worker.py'), rp['property'],
                        'replay', path, '--out', out], env=env(scratch, hashseed), cwd=VERIF,
                       stdout=subprocess.DEVNULL, stderr=subprocess.PIPE, timeout=400)
    res = {}
    if os.path.exists(out):
        try:
            res = json.load(open(out))
        except ValueError:
            pass
    return rp, res


def check(prop, tier, seed, a):
    from scen import registry
    conf = json.load(open(os.path.join(VERIF, 'scen', 'budget.json')))
    c = dict(conf['default'], **conf.get(prop, {}))
    runs = a.runs or c[tier]
    workers = a.workers or c.get('workers', min(8, os.cpu_count() or 1))
    budget = a.budget or c['budget_' + tier]
    scratch = scratch_dir()
    t0 = time.time()
    try:
        procs = []
        per = (runs + workers - 1) // workers
        for w in range(workers):
            out = os.path.join(scratch, f'out{w}.jsonl')
            procs.append((out, subprocess.Popen(
                [PY, os.path.join(VERIF, 'sim', 'worker.py'), prop, 'search',
                 '--seed', str(seed), '--first', str(w), '--step', str(workers),
                 '--count', str(per), '--budget', str(budget), '--out', out],
                env=env(scratch, a.hashseed), cwd=VERIF,
                stdout=subprocess.DEVNULL, stderr=subprocess.PIPE)))
        hard = t0 + budget + 300
        errs = []
        failed = False
        pending = list(range(workers))
        stop_at = None
        while pending:
            for i in list(pending):
                out, p = procs[i]
                if p.poll() is not None:
                    pending.remove(i)
                    if p.returncode != 0:
                        errs.append(f'worker {i} exited {p.returncode}: '
                                    + p.stderr.read().decode(errors='replace')[-1500:])
                    if has_viol(out) and stop_at is None:
                        stop_at = time.time() + 2
            if stop_at is None and any(has_viol(procs[i][0]) for i in pending):
                stop_at = time.time() + 90     # let it minimise
            if stop_at is not None and time.time() > stop_at:
                if any('"replay":' in tail(procs[i][0]) for i in range(workers)):
                    for i in pending:
                        procs[i][1].kill()
                    break
            if time.time() > hard:
                for i in pending:
                    procs[i][1].kill()
                errs.append('hard wall limit reached')
                break
            time.sleep(0.1)
        return summarise(prop, tier, seed, procs, errs, t0, scratch, workers, runs, a)
    finally:
        shutil.rmtree(scratch, ignore_errors=True)


def tail(p, n=400000):
    try:
        with open(p, 'rb') as f:
            f.seek(0, 2)
            f.seek(max(0, f.tell() - n))
            return f.read().decode(errors='replace')
    except OSError:
        return ''


def has_viol(p):
    t = tail(p, 60000)
    return '"viol": [' in t


def summarise(prop, tier, seed, procs, errs, t0, scratch, workers, runs, a):
    agg = dict(evals=0, nontrivial=set(), hashes=set(), scheds=set(), states=set(), fired={}, probes={},
               simtime=0.0, steps=0, faultfree=0, switches=0, fault_runs=0)
    samples, replays, viols, stopped = [], [], [], 0
    hl = []
    for out, p in procs:
        if not os.path.exists(out):
            errs.append('no output from a worker')
            continue
        for ln in open(out):
            try:
                o = json.loads(ln)
            except ValueError:
                continue
            if 'setup_error' in o:
                errs.append('setup: ' + o['setup_error'])
            elif 'replay' in o:
                replays.append(o['replay'])
            elif o.get('stopped'):
                stopped += 1
            elif 'idx' in o:
                if o.get('error'):
                    errs.append(f"run {o['idx']}: {o['error']}")
                    continue
                if o.get('viol'):
                    viols.append(o)
                    if o.get('wallrun'):
                        continue
                agg['evals'] += 1
                hl.append((o['idx'], o['hash']))
                agg['hashes'].add(o['hash'])
                if o['nontrivial']:
                    agg['nontrivial'].add(o['hash'])
                if o['nsw']:
                    agg['scheds'].add(o['sched'])
                if o.get('state'):
                    agg['states'].add(json.dumps(o['state']))
                agg['switches'] += o['nsw']
                agg['simtime'] += o['simtime']
                agg['steps'] += o['steps']
                agg['faultfree'] += bool(o['faultfree'])
                agg['fault_runs'] += not o['faultfree']
                for k, v in o['fired'].items():
                    agg['fired'][k] = agg['fired'].get(k, 0) + v
                for k, v in o['probes'].items():
                    agg['probes'][k] = agg['probes'].get(k, 0) + v
                if o.get('sample') and len(samples) < 3 and o.get('trace') is not None:
                    samples.append({'run': o['idx'], 'scenario': o['sample'],
                                    'log': o['trace'][:60]})
    wall = time.time() - t0
    if a.hashes:
        with open(a.hashes, 'w') as f:
            for i, h in sorted(hl):
                f.write(f'{i} {h}\n')
    kfs = known_findings(prop)
    confirmed, known_hit = [], []
    evdir = os.path.join(VERIF, 'evidence')
    rdir = os.path.join(evdir, 'replay')
    # wall hangs: replay the seed is impossible to finish, confirm by rerun
    for v in viols:
        if v.get('wallrun'):
            replays.append(None)
    for n, rp in enumerate(replays):
        if rp is None:
            continue
        os.makedirs(rdir, exist_ok=True)
        path = os.path.join(rdir, f'{prop}-{rp["run_seed"]:016x}.json')
        with open(path, 'w') as f:
            json.dump(rp, f, indent=1, default=repr)
        try:
            _, res = replay_file(path, scratch)
        except subprocess.TimeoutExpired:
            res = {}
        if res.get('viol') and res['viol'][0] == rp['kind']:
            exact = res.get('hash') == rp.get('log_hash')
            hit = [k for k in kfs if matches(k, rp['kind'], res['viol'][1])]
            if hit:
                known_hit.append(hit[0])
            else:
                confirmed.append((path, rp, exact))
                break
        else:
            errs.append(f'violation of run {rp["run_index"]} did not replay: {rp["kind"]}: {rp["detail"]}')
    for v in viols:
        if v.get('wallrun') and not confirmed:
            path = confirm_wall(prop, seed, v, scratch)
            if path:
                confirmed.append((path, dict(kind='hang-wall', detail=v['viol'][1], run_index=v['idx']), True))
            else:
                errs.append('a run stopped making progress but the hang did not repeat')
    from scen import registry
    meta = json.load(open(os.path.join(VERIF, 'scen', 'components.json'))).get(registry.MODULES[prop], {})
    cov = dict(
        evaluations=agg['evals'],
        distinct_nontrivial=len(agg['nontrivial']),
        rule=('One evaluation is one simulated run: a workload, schedule and fault plan drawn from one seed, executed '
              'against the real code with the oracle evaluated during and after it. A run is non-trivial if the '
              'operation under test reached its first externally visible effect; distinct means the hash of its '
              'complete event log (operations, virtual times, faults, results) differs from every other run of this check.'),
        samples=samples,
        runs_requested=runs, workers=workers, workers_stopped_at_time_budget=stopped,
        seeds_per_hour=int(agg['evals'] / max(wall, 1e-6) * 3600),
        simulated_seconds=round(agg['simtime'], 1),
        simulator_steps=agg['steps'],
        fault_free_runs=agg['faultfree'], runs_with_faults=agg['fault_runs'],
        faults_injected=dict(sorted(agg['fired'].items())),
        rare_conditions_hit=dict(sorted(agg['probes'].items())),
        distinct_event_logs=len(agg['hashes']),
        distinct_interleavings=len(agg['scheds']), context_switches=agg['switches'],
        distinct_final_states=len(agg['states']),
        real_components=meta.get('real', []), stubbed_components=meta.get('stub', []),
        determinism='one seed = one run; see selftest.py for the cross-process, cross-hashseed log comparison')
    ev = dict(property=prop, tier=tier, seed=seed, level='exploration', coverage=cov,
              assumptions=meta.get('assumptions', []), wall_s=round(wall, 2), violations=len(confirmed))
    os.makedirs(evdir, exist_ok=True)
    with open(os.path.join(evdir, prop + '.json'), 'w') as f:
        json.dump(ev, f, indent=1, default=repr)
    for k in known_hit:
        print(f'KNOWN-FINDING: property={prop} {k["what"]}')
    if confirmed:
        path, rp, exact = confirmed[0]
        print(f'{prop}: {rp["kind"]}: {str(rp["detail"])[:1500]}')
        print(f'run index {rp["run_index"]}, replay exact={exact}')
        print(f'VIOLATION property={prop} replay={path}')
        return 1
    if errs:
        print(f'{prop}: harness error: ' + ' | '.join(errs)[:4000])
        return 2
    if agg['evals'] == 0:
        print(f'{prop}: no run completed')
        return 2
    print(f'{prop}: held on {agg["evals"]} simulated runs ({len(agg["nontrivial"])} distinct non-trivial, '
          f'{agg["fault_runs"]} with faults) in {wall:.1f} s')
    return 0


def confirm_wall(prop, seed, v, scratch):
    out = os.path.join(scratch, 'wall.jsonl')
    e = env(scratch)
    e['VERIF_RUN_WALL'] = '45'
    subprocess.run([PY, os.path.join(VERIF, 'sim', 'worker.py'), prop, 'search', '--seed', str(seed),
                    '--first', str(v['idx']), '--count', '1', '--out', out], env=e, cwd=VERIF,
                   stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL)
    if '"hang-wall"' in tail(out):
        rdir = os.path.join(VERIF, 'evidence', 'replay')
        os.makedirs(rdir, exist_ok=True)
        path = os.path.join(rdir, f'{prop}-wall-{v["idx"]}.json')
        with open(path, 'w') as f:
            json.dump(dict(property=prop, kind='hang-wall', verif_seed=seed, run_index=v['idx'],
                           detail='the call under test never returns'), f)
        return path
    return None


def main():
    p = argparse.ArgumentParser()
    p.add_argument('prop', nargs='?')
    p.add_argument('--replay')
    p.add_argument('--runs', type=int)
    p.add_argument('--workers', type=int)
    p.add_argument('--budget', type=float)
    p.add_argument('--hashes')
    p.add_argument('--hashseed', default='0')
    p.add_argument('--tier', default=os.environ.get('VERIF_TIER', 'quick'))
    p.add_argument('--seed', type=int, default=int(os.environ.get('VERIF_SEED', '1') or 1))
    a = p.parse_args()
    if a.tier not in ('quick', 'thorough'):
        a.tier = 'quick'
    if a.replay:
        scratch = scratch_dir()
        try:
            rp = json.load(open(a.replay))
            if rp['kind'] == 'hang-wall':
                ok = confirm_wall(rp['property'], rp['verif_seed'], dict(idx=rp['run_index']), scratch)
                print('reproduced' if ok else 'not reproduced')
                return 1 if ok else 0
            rp, res = replay_file(a.replay, scratch, a.hashseed)
            for ln in (res.get('trace') or []):
                print(ln)
            if res.get('viol'):
                print(f'{rp["property"]}: {res["viol"][0]}: {res["viol"][1]}')
                print('event log identical:', res.get('hash') == rp.get('log_hash'))
                print(f'VIOLATION property={rp["property"]} replay={a.replay}')
                return 1
            print('no violation on this tree', res.get('error') or '')
            return 2 if res.get('error') or not res else 0
        finally:
            shutil.rmtree(scratch, ignore_errors=True)
    return check(a.prop, a.tier, a.seed, a)


if __name__ == '__main__':
    sys.exit(main())
