"""C01, C02: the copy sender."""
import os

from sim import core, fs
from sim.core import Violation
from . import work
from .base import Scenario, describe

FAULTS = {k: fs.CATS[k] for k in fs.CATS}


class CopyBase(Scenario):
    def setup(self):
        self.seams()
        import shutil    # noqa
        from impactutils.transfer.copysender import CopySender
        self.CopySender = CopySender


def knobs(sim):
    import shutil
    ch = sim.ch
    sim.short_io = ch.pick([0, 0, 0, 0.2])
    shutil.COPY_BUFSIZE = ch.pick([65536, 65536, 1000, 7])if ch.chance(0.3) else 65536
    sim.same_pid = ch.chance(0.5)
    sim.clock_res = ch.pick([0, 0, 0, 0.015625, 1])
    sim.utc_offset = ch.pick([0, -28800, 19800])


class C01(CopyBase):
    def run(self, sim):
        work.TAG[0] = 0
        ch = sim.ch
        knobs(sim)
        cwd = os.getcwd()
        remote = os.path.join(sim.top, ch.pick(['remote', 'cwd/out', 'remote/a/b', 'cwd/out/event', 'rem ote',
                                                'cwd/remote/src', 'cwd/~/in', 'cwd/$HOME']))
        if ch.chance(0.5):
            fs.makedirs(remote)
        elif ch.chance(0.1):
            real = os.path.join(sim.top, 'real')
            fs.makedirs(real)
            fs.makedirs(os.path.dirname(remote))
            fs.O.symlink(real, remote)
        cancelfile = ch.pick(['.cancel', 'CANCEL', 'cancel me.txt'])
        nsend = ch.weighted([(4, 1), (3, 2), (1, 3)])
        sim.plan_faults(FAULTS)
        rspell = work.spell(ch, remote, cwd)
        steps = []
        sender = None
        unrelated = {}
        for k in range(nsend):
            fresh = sender is None or ch.chance(0.5)
            if fresh:
                srcname = ch.pick(['event', 'src', 'ev 1', 'w'])
                src = os.path.join(cwd, f'd{k}', srcname)
                loc = os.path.join(cwd, f'f{k}')
                files, dirs, lfiles = {}, [], {}
                use_dir = ch.chance(0.75)
                if use_dir:
                    files, dirs = work.tree(ch, 6)
                if not use_dir or ch.chance(0.4):
                    used = set(p.split('/')[0] for p in list(files) + dirs)
                    for _ in range(1 + ch.draw(3)):
                        n = work.name(ch, True, used | set(lfiles))
                        lfiles[n] = work.content(ch)
                sp = work.vialink(ch, cwd, src, work.spell(ch, src, cwd), k)
                lsp = work.spell(ch, loc, cwd)
                both = work.twice(ch, files, dirs, lfiles) if ch.chance(0.2) else {}
            else:
                # the user edits the sources between two sends
                for p in list(files):
                    if ch.chance(0.4):
                        files[p] = work.content(ch)
                if use_dir and ch.chance(0.4):
                    np = work.name(ch, True, set(files) | set(dirs) | set(lfiles) | set(both))
                    if np not in [x.split('/')[0] for x in list(files) + dirs]:
                        files[np] = work.content(ch)
            for c in (cancelfile,) if fresh else ():
                files.pop(c, None)
                lfiles.pop(c, None)
                both.pop(c, None)
            if fresh and ch.chance(0.04) and cancelfile not in dirs:
                # a file to be sent that is called like the cancel file
                (files if use_dir else lfiles)[cancelfile] = work.content(ch)
            if use_dir:
                work.put_tree(src, files, dirs)
                work.linkify(ch, sim, src, files, k)
            fs.makedirs(loc)
            for n, d in lfiles.items():
                fs.writefile(os.path.join(loc, n), d)
            if use_dir and ch.chance(0.1) and files:
                # a symbolic link to a file outside the directory
                tgt = os.path.join(sim.top, f'linktarget{k}')
                if 'lnk.txt' not in files and 'lnk.txt' not in lfiles:
                    d = work.content(ch)
                    fs.writefile(tgt, d)
                    if not os.path.islink(os.path.join(src, 'lnk.txt')):
                        fs.O.symlink(tgt, os.path.join(src, 'lnk.txt'))
                        files['lnk.txt'] = d
            want = dict(files)
            want.update(lfiles)
            want.update({b: files[p] for b, p in both.items()})
            # what is already at the destination
            if os.path.isdir(remote):
                for _ in range(ch.draw(3)):
                    n = work.name(ch, True, set(p.split('/')[0] for p in want))
                    if not os.path.exists(os.path.join(remote, n)):
                        fs.writefile(os.path.join(remote, n), work.content(ch, False))
                for p in sorted(want):
                    if ch.chance(0.25) and not os.path.exists(os.path.join(remote, p)):
                        try:
                            full = os.path.join(remote, p)
                            fs.writefile(full, work.content(ch, False))
                            work.dress(ch, sim, full, os.path.join(src, p) if p in files else os.path.join(loc, p))
                        except OSError:
                            pass
                if ch.chance(0.4):
                    if not os.path.isdir(os.path.join(remote, cancelfile)):
                        fs.writefile(os.path.join(remote, cancelfile), b'cancelled')
            # obstacles: the destination cannot be written at all
            obstacle = use_dir and work.dangle(ch, src)
            if want and ch.chance(0.06):
                p = ch.pick(sorted(want))
                full = os.path.join(remote, p)
                if not os.path.lexists(full):
                    try:
                        fs.makedirs(full)
                        fs.writefile(os.path.join(full, 'keep'), b'keep')
                        obstacle = True
                    except OSError:
                        pass
            # conflicts left by earlier sends of this run (file where a directory is needed ...)
            for p in want:
                full = os.path.join(remote, p)
                if os.path.isdir(full):
                    obstacle = True
                parts = p.split('/')
                for i in range(1, len(parts)):
                    q = os.path.join(remote, *parts[:i])
                    if os.path.lexists(q) and not os.path.isdir(q):
                        obstacle = True
            before = fs.tree(remote) if os.path.isdir(remote) else {}
            src_before = fs.tree(src) if use_dir else {}
            loc_before = fs.tree(loc)
            fired0 = dict(sim.fired)
            lf = [(lsp.rstrip('/') + '/' + n) for n in lfiles] + [os.path.join(sp, p) for p in both.values()]

            def act():
                nonlocal sender
                if fresh:
                    sender = self.CopySender(
                        properties={'remote_directory': rspell},
                        local_files=lf if lf else None,
                        local_directory=sp if use_dir else None, cancelfile=cancelfile)
                return sender.send()
            steps.append(dict(remote=rspell, files=lf, directory=sp if use_dir else None,
                              tree={p: len(d) for p, d in files.items()}, obstacle=obstacle))
            sim.log('SEND', k, len(want))
            st, val = sim.run_one(act)
            sim.log('RESULT', st, val if st == 'ok' else type(val).__name__)
            after = fs.tree(remote) if os.path.isdir(remote) else {}
            got_fault = sim.fired != fired0 or getattr(sim, 'disk_full', False)
            if (fs.tree(src) if use_dir else {}) != src_before or fs.tree(loc) != loc_before:
                raise Violation('source-changed', 'a source file or directory was modified')
            for p, d in before.items():
                if p in want or p == cancelfile or d is None:
                    continue
                if after.get(p) != d:
                    raise Violation('unrelated-changed', f'{p!r} was {work.brief(d)} now {work.brief(after.get(p))}')
            if st == 'ok':
                if obstacle:
                    raise Violation('unsent-not-reported', 'send returned although a destination could not be written')
                try:
                    n, msg = val
                except Exception:
                    raise Violation('bad-return', repr(val))
                exp = {p: d for p, d in before.items() if d is not None and p != cancelfile}
                exp.update(want)
                df = work.diff_trees(exp, after)
                if df:
                    raise Violation('not-mirrored', df)
                if n != len(want):
                    raise Violation('wrong-count', f'{n} returned for {len(want)} files')
            else:
                if not got_fault and not obstacle:
                    raise Violation('unexpected-exception', describe(val))
                if fresh and sender is None:
                    sim.probe('ctor_failed')
                if ch.chance(0.5):
                    # faults stop: the same send must now work
                    sim.plan = {}
                    sim.disk_full = False
                    if obstacle or sender is None:
                        break
                    before = fs.tree(remote) if os.path.isdir(remote) else {}
                    st, val = sim.run_one(lambda: sender.send())
                    sim.log('RETRY', st)
                    if st != 'ok':
                        raise Violation('no-recovery', describe(val))
                    after = fs.tree(remote)
                    exp = {p: d for p, d in before.items() if d is not None and p != cancelfile}
                    exp.update(want)
                    df = work.diff_trees(exp, after)
                    if df:
                        raise Violation('not-mirrored', 'retry: ' + df)
                    sim.probe('recovered')
                if sender is None:
                    continue
        return dict(nontrivial=True, sample=steps,
                    state=[len(steps), sorted(sim.fired), st])


class C02(CopyBase):
    def run(self, sim):
        work.TAG[0] = 0
        ch = sim.ch
        knobs(sim)
        sim.switch_p = ch.pick([0.5, 0.15, 0.85])
        cwd = os.getcwd()
        remote = os.path.join(sim.top, 'remote')
        n = ch.weighted([(4, 2), (1, 1), (2, 3)])
        if ch.chance(0.8):
            fs.makedirs(remote)
        names = []
        for _ in range(1 + ch.draw(3)):
            names.append(work.name(ch, True, names))
        allowed = {}
        jobs = []
        for i in range(n):
            mine = [x for x in names if ch.chance(0.75)] or [names[0]]
            as_dir = ch.chance(0.6)
            src = os.path.join(cwd, f's{i}')
            sub = ch.pick(['', '', 'sub'])if as_dir else ''
            w = {}
            fs.makedirs(src)
            for x in mine:
                p = os.path.join(sub, x) if sub else x
                d = work.content(ch)
                fs.writefile(os.path.join(src, p), d)
                w[p] = d
                allowed.setdefault(p, set()).add(d)
            jobs.append((src, as_dir, w))
        pre = {}
        if os.path.isdir(remote):
            for p in sorted(allowed):
                if ch.chance(0.4):
                    d = work.content(ch)
                    full = os.path.join(remote, p)
                    fs.writefile(full, d)
                    like = [os.path.join(s, p) for s, _, w in jobs if p in w][0]
                    work.dress(ch, sim, full, like)
                    d = fs.readfile(full)
                    pre[p] = d
                    allowed[p].add(d)
            if ch.chance(0.3):
                fs.writefile(os.path.join(remote, '.cancel'), b'')
        sim.plan_faults(FAULTS, p_none=0.5)
        kills = {}
        if ch.chance(0.35):
            kills[f's{ch.draw(n)}'] = 1 + ch.int_log(6)
        watched = {os.path.join(remote, p): p for p in allowed}
        exists = {p: (p in pre) for p in allowed}
        before_other = {}

        def look(full):
            p = watched[full]
            d = fs.readfile(full)
            if d is None:
                if exists[p] and not os.path.isdir(full):
                    raise_(p, 'disappeared', 'the name vanished while being replaced')
                return
            exists[p] = True
            if d not in allowed[p]:
                raise_(p, 'partial-visible', f'{p!r} shows {work.brief(d)}, complete versions have sizes '
                       f'{sorted(len(x) for x in allowed[p])}')

        def raise_(p, kind, detail):
            sim.fail(kind, detail)

        def hook(op, path):
            if op == 'write' or op == 'open':
                ap = fs._abs(path)
                if ap in watched:
                    look(ap)
            else:
                for f in watched:
                    look(f)
        sim.inv_hooks.append(hook)

        def mk(i):
            src, as_dir, w = jobs[i]

            def fn():
                cs = self.CopySender(
                    properties={'remote_directory': remote},
                    local_files=None if as_dir else [os.path.join(src, x) for x in w],
                    local_directory=src if as_dir else None)
                return cs.send()
            return fn
        fired0 = bool(sim.fired)
        res = sim.run_many([(f's{i}', mk(i)) for i in range(n)], kills)
        sim.inv_hooks.clear()
        sim.log('RESULTS', [r[0] for r in res])
        for f in watched:
            look(f)
        for i, (st, val) in enumerate(res):
            if st == 'raised' and not sim.fired:
                raise Violation('unexpected-exception', f's{i}: ' + describe(val))
            if st == 'ok':
                for p, d in jobs[i][2].items():
                    got = fs.readfile(os.path.join(remote, p))
                    others = {d} | {jobs[j][2][p] for j in range(n) if j != i and p in jobs[j][2]}
                    if got not in others:
                        raise Violation('lost-file', f's{i} returned but {p!r} holds {work.brief(got)}')
        if sim.fired:
            # restart after the faults: a new sender must get everything through
            sim.plan = {}
            sim.disk_full = False
            sim.inv_hooks.append(hook)
            for i, (st, val) in enumerate(res):
                if st == 'ok':
                    continue
                st2, val2 = sim.run_one(mk(i), f'r{i}')
                if st2 != 'ok':
                    raise Violation('no-recovery', describe(val2))
                for p, d in jobs[i][2].items():
                    if fs.readfile(os.path.join(remote, p)) != d:
                        raise Violation('lost-file', f'restarted sender: {p!r}')
                sim.probe('recovered')
            sim.inv_hooks.clear()
        return dict(nontrivial=sim.switches > 0 or n == 1,
                    sample=dict(senders=[dict(dir=j[1], files={p: len(d) for p, d in j[2].items()}) for j in jobs],
                                existing={p: len(d) for p, d in pre.items()}, kills=kills),
                    state=[r[0] for r in res])


SCENARIOS = {'C01': C01, 'C02': C02}
