"""C12, C13: running external commands and the PDL sender."""
import datetime as _real_dt
import os
import shlex
from collections import Counter

from sim import fs, net, proc
from sim.core import Violation
from . import work
from .base import Scenario, describe

TEXTS = ['us', 'ci2015abcd', 'shakemap', 'a b', "it's", 'say "hi"', '$HOME', '$(touch x)', '`id`', 'a;b', 'a&b', 'a|b',
         'x>y', '(p)', 'back\\slash', '#h', '*', '~', 'na\u00efve', '[TYPE]', '[FILE]', '[CODE]', '%s %d', 'tab\there',
         'two\nlines', '!x', "a'b\"c", '{x}', '-opt', 'a=b', '\\1', '\\g<0>', 'x ', '$', "'", '?']
OUTS = [b'', b'ok\n', b'stuff sent', b'\xff\xfe\x00bin', 'na\u00efve \u6771\n'.encode(), b'x' * 70000, b'l1\r\nl2\r\n',
        b'a\n' * 3000]


def script(ch, marks=(b'', b'')):
    """Steps of a child, its exit code, and its two outputs."""
    out = marks[0] + (ch.pick(OUTS) if ch.chance(0.7) else ch.data(ch.int_log(18)))
    err = (ch.pick(OUTS) if ch.chance(0.5) else ch.data(ch.int_log(18)) if ch.chance(0.5) else b'') + marks[1]
    steps, i, j = [], 0, 0
    n = 1 + ch.draw(5)
    while i < len(out) or j < len(err):
        k = max(1, (len(out) + len(err)) // n)
        if ch.chance(0.5) and j < len(err) or i >= len(out):
            steps.append(('err', err[j:j + k]))
            j += k
        else:
            steps.append(('out', out[i:i + k]))
            i += k
        if ch.chance(0.3):
            steps.append(('sleep', ch.pick([0.01, 1.0, 40.0])))
    code = ch.weighted([(6, 0), (2, 1), (1, 2), (1, 127), (1, 137), (1, -9), (1, 255), (1, 128), (1, -15), (1, None)])
    if code is None:
        code = ch.draw(256) - ch.pick([0, 0, 64])
    if ch.chance(0.2):
        steps.append(('sleep', 5.0))
    steps.append(('exit', code))
    return steps, code, out, err


class ProcBase(Scenario):
    def setup(self):
        self.seams()
        proc.install()


class C13(ProcBase):
    def setup(self):
        super().setup()
        from impactutils.io.cmd import get_command_output
        self.fn = get_command_output

    @staticmethod
    def of(p, jobs):
        """Which job a started process belongs to."""
        for i, j in enumerate(jobs):
            if p.command == j[0] or isinstance(p.command, (list, tuple)) and j[0] in p.command:
                return i

    def run(self, sim):
        ch = sim.ch
        sim.switch_p = ch.pick([0.5, 0.15])
        sim.pipe_cap = ch.pick([65536, 4096, 512])
        n = ch.weighted([(4, 1), (3, 2), (1, 3)])
        jobs = []
        for i in range(n):
            a = ch.pick(TEXTS)
            cmd = f'prog{i} ' + ch.pick([shlex.quote(a), '-l *.py', '| wc -c', "> /dev/null", '2>&1; true', 'a   b'])
            jobs.append((cmd,) + script(ch))
        sim.plan_faults(proc.CATS, p_none=0.9)

        def program(p):
            i = self.of(p, jobs)
            if i is None:
                sim.fail('wrong-command', repr(p.command)[:200])
            return jobs[i][1]
        proc.PROGRAM[0] = program
        st = sim.run_many([(f'p{i}', (lambda c=jobs[i][0]: self.fn(c))) for i in range(n)])
        for i, (s, v) in enumerate(st):
            cmd, steps, code, out, err = jobs[i]
            if s != 'ok':
                if sim.fired:
                    continue
                raise Violation('unexpected-exception', describe(v))
            try:
                rc, o, e = v
            except Exception:
                raise Violation('bad-return', repr(v)[:200])
            if sim.fired and not any(self.of(p, jobs) == i for p in proc.STARTED):
                if rc:
                    raise Violation('wrong-status', 'success reported for a command that was not run')
                continue
            if bool(rc) != (code == 0):
                raise Violation('wrong-status', f'exit {code} gave {rc!r}')
            if o != out:
                raise Violation('wrong-output', f'stdout {work.brief(o)} want {work.brief(out)}')
            if e != err:
                raise Violation('wrong-output', f'stderr {work.brief(e)} want {work.brief(err)}')
        runs = Counter(str(p.command) for p in proc.STARTED)
        if not sim.fired and (sum(runs.values()) != n):
            raise Violation('not-run-once', str(runs)[:200])
        for p in proc.STARTED:
            if p._done is None:
                raise Violation('left-running', 'returned before the command ended')
        return dict(nontrivial=True, sample=[dict(command=j[0], exit=j[2], out=len(j[3]), err=len(j[4])) for j in jobs],
                    state=[[(j[2], len(j[3]) > sim.pipe_cap, len(j[4]) > sim.pipe_cap) for j in jobs]])


class C12(ProcBase):
    def setup(self):
        super().setup()
        import impactutils.transfer.pdlsender as m
        from impactutils.exceptions import PDLError
        self.m, self.PDLError = m, PDLError

    def run(self, sim):
        work.TAG[0] = 0
        ch = sim.ch
        sim.pipe_cap = ch.pick([65536, 4096])
        cwd = os.getcwd()
        vfs = net.Vfs(sim)
        vfs.makedirs('/home/u')

        def text():
            return ch.pick(TEXTS) if ch.chance(0.35) else ch.pick(TEXTS[:3])
        req = {k: text() for k in ('source', 'type', 'code', 'eventsource', 'eventsourcecode')}
        for k, plain in (('java', '/usr/bin/java'), ('jarfile', '/opt/pdl/Client.jar'), ('privatekey', '/keys/id'),
                         ('configfile', '/etc/config.ini')):
            req[k] = ch.pick([plain, plain, plain, plain.replace('/', '/x y/', 1), plain + text()])
        opt = {}
        if ch.chance(0.6):
            for k in ('latitude', 'longitude', 'depth', 'magnitude'):
                if ch.chance(0.7):
                    opt[k] = ch.pick([0.0, 34.123, -118.45678, 10.15, 5.449, -0.00004, 179.99999, 7])
            if ch.chance(0.6):
                opt['eventtime'] = self.time(ch)
        pp = None
        if ch.chance(0.7):
            pp = {}
            for _ in range(ch.draw(4)):
                k = ch.pick(['maxmmi', 'alert', 'time', 'note', 'n', 'flag', 'event-type', 'a b', 'k$x'])
                pp[k] = ch.pick([0, False, 0.0, -7, '', 2**53 + 1, -10**19 - 7, 123456.78125, 5.4, 1e-5, -3.14159, 5, True, 'yellow', text(), text(), self.time(ch), None, [1, 2]])
        nul = ch.chance(0.05)           # no argument can hold this character
        if nul and pp is not None and ch.chance(0.5):
            pp['nul'] = ch.pick(['a\0b', '\0', 'PRODUCT\0TYPE]'])
        elif nul:
            req[ch.pick(['source', 'code', 'privatekey'])] += '\0'
        files, ldir = [], None
        nf = ch.weighted([(3, 1), (3, 0), (1, 2)])
        for _ in range(nf):
            nm = work.name(ch, True, [os.path.basename(f) for f in files])
            p = os.path.join(cwd, 'f', nm)
            fs.writefile(p, b'x')
            files.append(p)
        ndir = 0
        if ch.chance(0.5):
            ldir = os.path.join(cwd, ch.pick(['ev', 'ev 1', "e'v", 'e$v', 'e;v']))
            t, dirs = work.tree(ch, 4)
            work.put_tree(ldir, t, dirs)
            ndir = len(t)
        sim.plan_faults(dict(proc.CATS, **{'fs.list': fs.CATS['fs.list']}), p_none=0.88)
        props = dict(req)
        props.update(opt)
        cur = {}

        def program(p):
            return cur['steps']
        proc.PROGRAM[0] = program
        sender = None
        hist = []
        for k in range(1 + ch.draw(3)):
            op = ch.pick(['send', 'cancel'])
            m1, m2 = b'MARKOUT%d ' % k, b' MARKERR%d' % k
            m1, m2 = ch.weighted([(6, (m1, m2)), (1, (m1, b'')), (1, (b'', m2)), (1, (b'', b''))])
            steps, code, out, err = script(ch, (m1, m2))
            if ch.chance(0.15) and not (m1 and m2):
                # nothing at all on one stream, or on both
                drop = [x for x, m in (('out', m1), ('err', m2)) if not m]
                steps = [x for x in steps if x[0] not in drop]
            cur['steps'] = steps
            fired0 = dict(sim.fired)
            n0 = len(proc.STARTED)

            def act():
                nonlocal sender
                if sender is None:
                    sender = self.m.PDLSender(properties=props, local_files=files or None, local_directory=ldir,
                                              product_properties=pp)
                return sender.send() if op == 'send' else sender.cancel()
            st, val = sim.run_one(act)
            hist.append((op, code, st))
            sim.log('RESULT', op, code, st)
            ran = proc.STARTED[n0:]
            if sim.fired != fired0:
                spawn = any(f.startswith('proc.') and n != fired0.get(f) for f, n in sim.fired.items())
                if spawn and st == 'ok':
                    raise Violation('failure-not-reported', 'the command could not be started')
                if spawn or st != 'ok':
                    if st != 'ok' and not isinstance(val, (self.PDLError, OSError)):
                        raise Violation('wrong-exception', describe(val))
                    continue
            if op == 'send' and len(files) > 1:
                if ran or st == 'ok':
                    raise Violation('several-files-accepted', repr(val))
                continue
            if nul:
                if ran or st == 'ok':
                    raise Violation('value-altered', f'a value with a null character: {st}, {len(ran)} commands run')
                if not isinstance(val, self.PDLError):
                    raise Violation('wrong-exception', describe(val))
                continue
            if len(ran) != 1:
                raise Violation('not-run-once', f'{len(ran)} commands for one {op}')
            self.argv(sim, vfs, ran[0], op, req, opt, pp, files, ldir)
            if code == 0:
                if st != 'ok':
                    raise Violation('success-reported-as-failure', describe(val))
                if op == 'send':
                    try:
                        n, msg = val
                    except Exception:
                        raise Violation('bad-return', repr(val)[:100])
                    if n != len(files) + ndir:
                        raise Violation('wrong-count', f'{n} for {len(files) + ndir}')
                    if m1.decode().strip() not in str(msg):
                        raise Violation('output-lost', 'message without the output')
                elif m1.strip() not in (val if isinstance(val, bytes) else str(val).encode()):
                    raise Violation('output-lost', 'cancel result without the output')
            else:
                if st == 'ok':
                    raise Violation('failure-not-reported', f'exit {code} and {op} returned')
                if not isinstance(val, self.PDLError):
                    raise Violation('wrong-exception', describe(val))
                s = str(val)
                if m1.decode().strip() not in s or m2.decode().strip() not in s:
                    raise Violation('output-lost', 'exception without the output')
        return dict(nontrivial=True, sample=dict(props=str(props)[:400], product=str(pp), files=files, dir=ldir,
                                                 history=hist), state=[hist, len(pp or ())])

    def time(self, ch):
        return _real_dt.datetime(1950 + ch.draw(100), 1 + ch.draw(12), 1 + ch.draw(28), ch.draw(24), ch.draw(60),
                                 ch.draw(60), ch.pick([0, 999999, 1, 123456, 500000, 999]))

    @staticmethod
    def iso(t):
        return f'{t:%Y-%m-%dT%H:%M:%S}.{t.microsecond // 1000:03d}'

    def argv(self, sim, vfs, popen, op, req, opt, pp, files, ldir):
        calls = proc.commands(sim, vfs, popen)
        if len(calls) != 1 or calls[0][1]:
            raise Violation('not-one-command', f'the shell would run {str(calls)[:300]}')
        av = list(calls[0][0])
        want = ['--send', '--status=' + ('UPDATE' if op == 'send' else 'DELETE'), '--privateKey=' + req['privatekey'],
                '--configFile=' + req['configfile']]
        for k in ('source', 'type', 'code', 'eventsource', 'eventsourcecode'):
            want.append(f'--{k}={req[k]}')
        for k, v in opt.items():
            if k == 'eventtime':
                want.append('--eventtime=' + self.iso(v) + 'Z')
            else:
                want.append(f'--{k}={v:.4f}' if k in ('latitude', 'longitude') else f'--{k}={v:.1f}')
        for k, v in (pp or {}).items():
            if isinstance(v, float):
                s = f'{v:.4f}'
            elif isinstance(v, int):
                s = str(int(v))
            elif isinstance(v, _real_dt.datetime):
                s = self.iso(v)
            else:
                s = str(v)
            want.append(f'--property-{k}={s}')
        if files:
            want.append('--file=' + files[0])
        if ldir:
            want.append('--directory=' + ldir)
        if av[:3] != [req['java'], '-jar', req['jarfile']]:
            raise Violation('argument-mangled', f'program {av[:3]}')
        a, b = Counter(av[3:]), Counter(want)
        if a != b:
            raise Violation('argument-mangled', f'missing {list((b - a))[:3]} instead {list((a - b))[:3]}')


SCENARIOS = {'C12': C12, 'C13': C13}
