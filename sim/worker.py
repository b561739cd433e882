"""Runs simulated executions of one property in this process.

    worker.py PROP search  --seed S --first A --step N --count K --out FILE
    worker.py PROP replay  FILE
"""
import argparse
import gc
import hashlib
import importlib
import json
import os
import random
import select
import signal
import sys
import tempfile
import time
import traceback

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, VERIF)
from sim import core, fs, lines, clock          # noqa: E402
from scen import registry                       # noqa: E402

REPO = os.environ.get('VERIF_REPO', '/repo')
REPO_PKG = os.path.join(os.path.realpath(REPO), 'impactutils') + os.sep
REAL_TIME = time.time
BATCH = 16
RUN_WALL = float(os.environ.get('VERIF_RUN_WALL', '60'))


def derive(seed, prop, idx):
    h = hashlib.blake2b(f'{seed}/{prop}/{idx}'.encode(), digest_size=8).digest()
    return int.from_bytes(h, 'big')


class Result(dict):
    pass


def in_repo(e):
    tb = e.__traceback__
    while tb is not None:
        if tb.tb_frame.f_code.co_filename.startswith((REPO_PKG, REPO + '/impactutils/')):
            return True
        tb = tb.tb_next
    return False


def execute(scn, seed=None, replay=None, want_trace=False):
    """One simulated run. Returns a dict."""
    ch = core.Chooser(seed=seed, replay=replay)
    sim = core.Sim(ch)
    gc.disable()
    lines.reset(False)
    # one fixed seed for the pseudo-random streams that are not choices
    fs.reset(12345)
    for n in ('sim.net', 'sim.ssh', 'sim.proc', 'sim.h5'):
        m = sys.modules.get(n)
        if m is not None and hasattr(m, 'reset'):
            m.reset()
    top = os.path.join(fs.ROOT, 'w')
    if os.path.isdir(top):
        fs.rmtree(top)
    fs.makedirs(os.path.join(top, 'tmp'))
    fs.makedirs(os.path.join(top, 'cwd'))
    os.chdir(os.path.join(top, 'cwd'))
    tempfile.tempdir = os.path.join(top, 'tmp')
    sim.top = top
    sim.root = fs.ROOT
    core.set_current(sim)
    viol = None
    info = {}
    error = None
    try:
        info = scn.run(sim) or {}
    except core.Violation as v:
        viol = (v.kind, v.detail)
    except core.SimHang as h:
        viol = ('hang', str(h))
    except core.SimUnsupported as u:
        error = 'unsupported: ' + str(u)
    except core.SimCrash as c:
        error = 'stray crash ' + str(c)
    except RecursionError as e:
        error = 'recursion: ' + traceback.format_exc()[-1500:]
    except Exception as e:
        if in_repo(e):
            # the code under test raised where a direct call had to succeed
            viol = ('unexpected-exception', f'{type(e).__name__}: {str(e)[:200]}')
            sim.log_lines.append('RAISED ' + traceback.format_exc()[-1500:])
        else:
            error = traceback.format_exc()[-3000:]
    if viol is None and error is None and sim.pending is not None:
        p = sim.pending
        if isinstance(p, core.Violation):
            viol = (p.kind, p.detail)
        elif isinstance(p, core.SimHang):
            viol = ('hang', str(p))
        else:
            error = 'unsupported: ' + str(p)
    sim.active = False
    sim.log('END', viol[0] if viol else 'ok')
    out = dict(viol=viol, error=error, hash=sim.hash.hexdigest(),
               sched=sim.sched_hash.hexdigest(), nsw=sim.switches,
               fired=sim.fired, probes=sim.probes, steps=sim.steps,
               simtime=sim.now - sim.start, nontrivial=bool(info.get('nontrivial', True)),
               nchoices=len(ch.rec), faultfree=not sim.fired,
               state=info.get('state'))
    if viol or error or want_trace:
        out['choices'] = list(ch.rec)
        out['trace'] = sim.log_lines[-400:]
        out['sample'] = info.get('sample')
    elif info.get('sample'):
        out['sample'] = info.get('sample')
    core.set_current(None)
    os.chdir(fs.ROOT)
    scn_cleanup = getattr(scn, 'cleanup', None)
    if scn_cleanup:
        scn_cleanup()
    gc.collect()
    return out


def setup(prop):
    root = os.environ.get('VERIF_SCRATCH')
    os.makedirs(root, exist_ok=True)
    fs.ROOT = os.path.realpath(tempfile.mkdtemp(prefix='w', dir=root))
    os.environ['HOME'] = fs.ROOT
    for v in list(os.environ):
        if v.lower().endswith('_proxy'):
            del os.environ[v]
    sys.path.insert(0, REPO)
    scn = registry.get(prop)
    sys.unraisablehook = lambda *a: None
    import warnings
    warnings.simplefilter('ignore')
    scn.setup()
    if getattr(scn, 'lines', True):
        lines.install(os.path.join(REPO, 'impactutils'))
    gc.collect()
    gc.freeze()
    # quiet: the code under test prints
    dn = os.open(os.devnull, os.O_WRONLY)
    sys.stdout.flush()
    os.dup2(dn, 1)
    if not os.environ.get('VERIF_DEBUG'):
        os.dup2(dn, 2)
    return scn


def fork_call(fn, wall):
    """Run fn(write) in a forked child, streaming JSON lines back.
    Returns (list of objects, clean)."""
    r, w = os.pipe()
    pid = os.fork()
    if pid == 0:
        code = 0
        try:
            os.close(r)
            f = fs.O.open(w, 'w') if hasattr(fs.O, 'open') else open(w, 'w')

            def emit(o):
                f.write(json.dumps(o, default=repr) + '\n')
                f.flush()
            fn(emit)
            emit({'done': True})
            f.close()
        except BaseException:
            code = 70
            try:
                emit({'childerror': traceback.format_exc()[-3000:]})
            except BaseException:
                pass
        os._exit(code)
    os.close(w)
    buf = b''
    objs = []
    last = REAL_TIME()
    clean = False
    while True:
        rd, _, _ = select.select([r], [], [], 1.0)
        if rd:
            d = os.read(r, 1 << 16)
            if not d:
                break
            last = REAL_TIME()
            buf += d
            while b'\n' in buf:
                ln, buf = buf.split(b'\n', 1)
                objs.append(json.loads(ln))
        elif REAL_TIME() - last > wall:
            try:
                os.kill(pid, signal.SIGKILL)
            except ProcessLookupError:
                pass
            objs.append({'wall': True})
            break
    os.close(r)
    os.waitpid(pid, 0)
    if objs and objs[-1].get('done'):
        objs.pop()
        clean = True
    return objs, clean


def search(scn, prop, a):
    deadline = REAL_TIME() + a.budget
    out = open(a.out, 'w')

    def put(o):
        out.write(json.dumps(o, default=repr) + '\n')
        out.flush()

    idxs = [a.first + i * a.step for i in range(a.count)]
    pos = 0
    while pos < len(idxs):
        if REAL_TIME() > deadline:
            put({'stopped': True, 'done_runs': pos})
            break
        batch = idxs[pos:pos + getattr(scn, 'batch', BATCH)]

        def go(emit, batch=batch):
            for i in batch:
                emit({'begin': i})
                r = execute(scn, seed=derive(a.seed, prop, i), want_trace=(i < 3))
                r['idx'] = i
                emit(r)
                if r['viol'] or r['error']:
                    break
        objs, clean = fork_call(go, RUN_WALL)
        begun = None
        nres = 0
        bad = None
        for o in objs:
            if 'begin' in o:
                begun = o['begin']
            elif 'idx' in o:
                nres += 1
                put(o)
                if o['viol'] or o['error']:
                    bad = o
            elif o.get('wall'):
                put({'idx': begun, 'viol': ['hang-wall', f'run made no progress for {RUN_WALL} s'],
                     'error': None, 'wallrun': True})
                bad = o
            elif 'childerror' in o:
                put({'idx': begun, 'error': o['childerror'], 'viol': None})
                bad = o
        if not clean and bad is None:
            put({'idx': begun, 'error': 'child process died', 'viol': None})
            bad = {'died': True}
        if bad is not None:
            if bad.get('viol'):
                handle_violation(scn, prop, a, batch, bad, put)
            break
        pos += len(batch)
    put({'finished': True})
    out.close()


def handle_violation(scn, prop, a, batch, bad, put):
    """Reproduce alone, minimise, and describe the replay."""
    kind = bad['viol'][0]
    idx = bad['idx']
    prior = []
    alone = True

    def one(choices, emit):
        emit(execute(scn, replay=choices))

    objs, _ = fork_call(lambda e: one(bad['choices'], e), RUN_WALL)
    if not (objs and objs[-1].get('viol') and objs[-1]['viol'][0] == kind):
        alone = False
    if alone:
        fresh = hasattr(scn, 'batch')

        def mini(emit):
            def run(c):
                if fresh:
                    o, _ = fork_call(lambda e: one(c, e), RUN_WALL)
                    r = o[-1] if o and 'viol' in o[-1] else {'viol': None}
                else:
                    r = execute(scn, replay=c)
                return r['viol'][0] if r['viol'] else None
            best = core.shrink(run, bad['choices'], kind, a.shrink, REAL_TIME)
            emit({'best': best})

        def shrunk():
            objs, _ = fork_call(mini, a.shrink + RUN_WALL)
            for o in objs:
                if 'best' in o:
                    return o['best']
            return bad['choices']

        def holds(c):
            o, _ = fork_call(lambda e: one(c, e), RUN_WALL)
            return bool(o and o[-1].get('viol') and o[-1]['viol'][0] == kind)

        best = shrunk()
        if not holds(best):
            # the code under test keeps something from run to run: every
            # attempt needs a process of its own
            fresh = True
            best = shrunk()
            if not holds(best):
                best = bad['choices']
        seqs = [best]
    else:
        # depends on state left in the process by earlier runs of the batch
        def seqrun(emit):
            for i in batch:
                r = execute(scn, seed=derive(a.seed, prop, i), want_trace=True)
                emit({'choices': r['choices'], 'viol': r['viol']})
                if i == idx:
                    break
        objs, _ = fork_call(seqrun, RUN_WALL)
        seqs = [o['choices'] for o in objs if 'choices' in o]

        def ok(ss):
            def go(emit):
                for c in ss:
                    r = execute(scn, replay=c)
                    emit({'viol': r['viol']})
            o, _ = fork_call(go, RUN_WALL)
            return bool(o and o[-1].get('viol') and o[-1]['viol'][0] == kind)
        if ok(seqs):
            i = 0
            while i < len(seqs) - 1:
                c = seqs[:i] + seqs[i + 1:]
                if ok(c):
                    seqs = c
                else:
                    i += 1
    # final run for the trace
    final = {}

    def fin(emit):
        for c in seqs:
            r = execute(scn, replay=c, want_trace=True)
        emit(r)
    objs, _ = fork_call(fin, RUN_WALL)
    if objs:
        final = objs[-1]
    put({'replay': dict(property=prop, kind=kind, verif_seed=a.seed, run_index=idx,
                        run_seed=derive(a.seed, prop, idx),
                        original_choices=len(bad['choices']),
                        runs=seqs, detail=(final.get('viol') or bad['viol'])[1],
                        log_hash=final.get('hash'), faults=final.get('fired'),
                        trace=final.get('trace'), scenario=final.get('sample'))})


def main():
    p = argparse.ArgumentParser()
    p.add_argument('prop')
    p.add_argument('mode')
    p.add_argument('file', nargs='?')
    p.add_argument('--seed', type=int, default=1)
    p.add_argument('--first', type=int, default=0)
    p.add_argument('--step', type=int, default=1)
    p.add_argument('--count', type=int, default=10)
    p.add_argument('--budget', type=float, default=600)
    p.add_argument('--shrink', type=float, default=20)
    p.add_argument('--out')
    a = p.parse_args()
    err = None
    try:
        scn = setup(a.prop)
    except Exception:
        err = traceback.format_exc()
    if err:
        with (fs.O.open if hasattr(fs.O, 'open') else open)(a.out, 'w') as f:
            f.write(json.dumps({'setup_error': err[-3000:]}) + '\n')
        sys.stderr.write(err)
        sys.exit(3)
    try:
        if a.mode == 'search':
            search(scn, a.prop, a)
        elif a.mode == 'replay':
            with open(a.file) as f:
                rp = json.load(f)

            def go(emit):
                for c in rp['runs']:
                    emit(execute(scn, replay=c, want_trace=True))
            objs, clean = fork_call(go, RUN_WALL)
            with open(a.out, 'w') as f:
                f.write(json.dumps(objs[-1] if objs else {}, default=repr))
        elif a.mode == 'one':     # debugging: one run index, print the trace
            r = execute(scn, seed=derive(a.seed, a.prop, a.first), want_trace=True)
            with open(a.out, 'w') as f:
                f.write(json.dumps(r, default=repr, indent=1))
        elif a.mode == 'cover':   # which repository lines the runs reach
            lines.TRACK[0] = True
            for i in range(a.count):
                execute(scn, seed=derive(a.seed, a.prop, a.first + i))
            with open(a.out, 'w') as f:
                f.write(json.dumps(sorted(lines.LINES)))
    finally:
        os.chdir('/')
        fs.rmtree(fs.ROOT)
        fs.O.rmdir(fs.ROOT)


if __name__ == '__main__':
    main()
