"""C26: elapsed-time strings under a simulated clock."""
from sim import clock
from sim.core import Violation
from .base import Scenario, describe

UNITS = [('week', 604800), ('day', 86400), ('hour', 3600), ('minute', 60), ('second', 1)]


def oracle(secs):
    for i, (u, n) in enumerate(UNITS):
        if secs >= n and u != 'second':
            big, (su, sn) = secs // n, UNITS[i + 1]
            small = secs % n // sn
            return f'{big} {u}{"" if big == 1 else "s"}, {small} {su}{"" if small == 1 else "s"}'
    return f'{secs} second' + ('' if secs == 1 else 's')


class C26(Scenario):
    def setup(self):
        import os
        import time
        os.environ['TZ'] = 'MST7'
        time.tzset()
        self.seams()
        from impactutils.time import timeutils
        self.m = timeutils

    def run(self, sim):
        import datetime
        real = clock.O.datetime
        ch = sim.ch
        sim.utc_offset = ch.pick([0, -25200, 19800])
        sim.tick_cost = 0.0
        sim.now = sim.start = float(ch.pick([1.7e9, 86400 * 365, 4.1e9, 1583020799])) + ch.pick([0, 0.25, 0.999999])
        et = self.m.ElapsedTime()
        res = []
        epoch = real(1970, 1, 1)
        then = None
        for k in range(1 + ch.draw(8)):
            op = ch.weighted([(4, 'advance'), (2, 'new'), (1, 'jumpback'), (1, 'skew')]) if then is not None else 'new'
            if op == 'new':
                back = ch.weighted([(3, ch.int_log(7)), (3, ch.int_log(20)), (2, ch.int_log(30)),
                                    (2, ch.pick([1, 7, 24, 60, 3600, 86400, 604800]) * (1 + ch.draw(9)) + ch.draw(3) - 1)])
                us = ch.pick([0, 0, 1, 500000, 999999])
                then = epoch + datetime.timedelta(seconds=int(sim.now + sim.skew) - back, microseconds=us)
            elif op == 'advance':
                sim.now += ch.pick([0.0, 1.0, 0.4, 59.0, 60.0, 61.0, 3599.0, 3600.0, 86399.5, 604800.0]) + ch.int_log(22)
            elif op == 'jumpback':
                sim.skew -= ch.pick([1.0, 3600.0, 86400.0, 0.5]) + ch.int_log(20)
                sim.note_fault('clock:jump-back')
            else:
                sim.skew += ch.pick([0.1, 30.0, 3600.0])
                sim.note_fault('clock:jump-forward')
            wall_us = round((sim.now + sim.skew) * 1e6)
            given = ch.chance(0.25)
            now = epoch + datetime.timedelta(microseconds=wall_us)
            fn = (lambda: et.getElapsedString(then, now)) if given else (lambda: et.getElapsedString(then))
            st, val = sim.run_one(fn)
            sim.log('ELAPSED', op, then, now, st, val if st == 'ok' else '')
            d = now - then
            if abs(d.microseconds) in (0, 1, 999999) and not given and d.microseconds != 0:
                d_alt = {d.days * 86400 + d.seconds + x for x in (-1, 0, 1)}
            else:
                d_alt = {d.days * 86400 + d.seconds}
            res.append(str(d))
            if d < datetime.timedelta(0):
                if st == 'ok' and min(d_alt) < 0 and max(d_alt) < 0:
                    raise Violation('negative-reported', f'{val!r} for {then} .. {now}')
                continue
            if st != 'ok':
                if d < datetime.timedelta(microseconds=2) and not given:
                    continue
                raise Violation('unexpected-exception', describe(val))
            if val not in {oracle(s) for s in d_alt if s >= 0}:
                raise Violation('wrong-string', f'{val!r} for {d} (expected {oracle(max(0, d.days * 86400 + d.seconds))!r})')
        return dict(nontrivial=True, sample=res, state=None)


SCENARIOS = {'C26': C26}
