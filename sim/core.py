"""Deterministic simulation core.

* ``Chooser``: every decision of a run (workload, schedule, delay, fault) is an
  integer drawn here.  In search mode the integers come from one PRNG seeded
  from (VERIF_SEED, property, run index); in replay mode from a recorded list.
  0 is always the simplest alternative, so lists shrink generically.
* ``Sim``: virtual clock, event heap, actors (real threads parked and released
  one at a time; which one runs is drawn from the Chooser), planned faults,
  step cap, event log.
"""
import hashlib
import heapq
import random
import threading


class SimCrash(BaseException):
    """The actor's process was killed at this point."""


class SimHang(BaseException):
    """No progress is possible, or the step/line budget ran out."""


class SimUnsupported(BaseException):
    """Code under test used a part of a stub that is not modelled: an error
    of the harness, never a verdict."""


class Violation(BaseException):
    def __init__(self, kind, detail=''):
        super().__init__(f'{kind}: {detail}')
        self.kind = kind
        self.detail = detail


class Chooser:
    def __init__(self, seed=None, replay=None, limit=200000):
        self.rng = random.Random(seed) if replay is None else None
        self.replay = replay
        self.pos = 0
        self.rec = []
        self.limit = limit

    def draw(self, n):
        """Integer in [0, n)."""
        if n <= 1:
            return 0
        if self.rng is not None:
            v = self.rng.randrange(n)
        else:
            v = self.replay[self.pos] if self.pos < len(self.replay) else 0
            self.pos += 1
            if v >= n:
                v = v % n
        self.rec.append(v)
        if len(self.rec) > self.limit:
            raise SimHang('choice budget exhausted')
        return v

    def chance(self, p):
        """True with probability p; 0 (the simplest choice) is False."""
        if p <= 0:
            return False
        return self.draw(1000) >= 1000 - int(p * 1000)

    def pick(self, seq):
        return seq[self.draw(len(seq))]

    def weighted(self, pairs):
        """pairs: (weight, value); the first is the simplest."""
        tot = sum(w for w, _ in pairs)
        v = self.draw(tot)
        for w, x in pairs:
            if v < w:
                return x
            v -= w

    def subset(self, seq, p=0.5):
        return [x for x in seq if self.chance(p)]

    def shuffled(self, seq):
        rest, out = list(seq), []
        while rest:
            out.append(rest.pop(self.draw(len(rest))))
        return out

    def int_log(self, bits):
        """0..2**bits-1, log-uniform, small values first."""
        b = self.draw(bits + 1)
        if b == 0:
            return 0
        return (1 << (b - 1)) + self.draw(1 << (b - 1))

    def data(self, n):
        """n pseudo-random bytes from one draw."""
        s = self.draw(1 << 20)
        return random.Random(s * 7919 + n).randbytes(n)


class Actor:
    def __init__(self, sim, name, fn, idx):
        self.sim, self.name, self.fn, self.idx = sim, name, fn, idx
        self.done = False
        self.dead = False
        self.cond = None
        self.deadline = None
        self.timed_out = False
        self.result = None
        self.exc = None
        self.gate = threading.Semaphore(0)
        self.thread = None
        self.kill_at = None
        self.yields = 0


class Sim:
    MAX_STEPS = 60000

    def __init__(self, ch):
        self.ch = ch
        self.now = 1.7e9
        self.start = self.now
        self.skew = 0.0
        self.heap = []
        self.seq = 0
        self.actors = []
        self.cur = None
        self.multi = False
        self.steps = 0
        self.log_lines = []
        self.hash = hashlib.blake2b(digest_size=12)
        self.sched_hash = hashlib.blake2b(digest_size=8)
        self.fired = {}
        self.plan = {}
        self.counts = {}
        self.probes = {}
        self.violation = None
        self.in_event = False
        self.switches = 0
        self.active = True
        self.switch_p = 0.5
        self.main_gate = threading.Semaphore(0)
        self.abort = None
        self.tick_cost = 0.0001
        self.inv_hooks = []
        self.kill_hooks = []
        self.on_read = None
        self.fault_who = set()
        self.root = ''
        self.pending = None     # first fatal condition, even if code swallowed it

    # -- log ---------------------------------------------------------------
    def log(self, *parts):
        who = self.cur.name if self.cur is not None else '-'
        s = f'{self.now - self.start:.4f} {who} ' + ' '.join(map(str, parts))
        if self.root:
            s = s.replace(self.root, '$R')
        self.hash.update(s.encode('utf-8', 'backslashreplace') + b'\n')
        if len(self.log_lines) < 4000:
            self.log_lines.append(s)

    def probe(self, name, n=1):
        self.probes[name] = self.probes.get(name, 0) + n

    # -- faults ------------------------------------------------------------
    def plan_faults(self, cats, p_none=0.35, maxn=3):
        """cats: {category: [kinds]}. Plans up to maxn (category, nth, kind)."""
        ch = self.ch
        self.fault_free = not ch.chance(1 - p_none)
        if self.fault_free:
            return
        names = sorted(cats)
        n = 1 + (ch.draw(maxn) if ch.chance(0.4) else 0)
        self.cats = cats
        for _ in range(n):
            if ch.chance(0.6):
                # the n-th operation that can fail at all
                nth = ch.int_log(ch.weighted([(3, 3), (4, 5), (2, 6), (1, 8)]))
                self.plan.setdefault('*', {})[nth] = ch.draw(12)
                continue
            c = ch.pick(names)
            k = ch.pick(cats[c])
            nth = ch.int_log(ch.weighted([(5, 2), (3, 4), (2, 7)]))
            self.plan.setdefault(c, {})[nth] = k

    def fault(self, cat, who=None):
        """Called by a seam on each occurrence of cat: fault kind or None."""
        n = self.counts.get(cat, 0)
        self.counts[cat] = n + 1
        if not self.plan:
            return None
        k = self.plan.get(cat, {}).get(n)
        star = self.plan.get('*')
        if star is not None and cat in self.cats:
            m = self.counts.get('*', 0)
            self.counts['*'] = m + 1
            if k is None and m in star:
                kinds = self.cats[cat]
                k = kinds[star[m] % len(kinds)]
        if k is not None:
            key = f'{cat}:{k}'
            self.fired[key] = self.fired.get(key, 0) + 1
            self.log('FAULT', key, f'#{n}')
            if who is not None:
                self.fault_who.add(who)
        return k

    def note_fault(self, key):
        self.fired[key] = self.fired.get(key, 0) + 1
        self.log('FAULT', key)

    def any_fault(self):
        return bool(self.fired)

    # -- events ------------------------------------------------------------
    def at(self, delay, fn, label=''):
        self.seq += 1
        heapq.heappush(self.heap, (self.now + max(0.0, delay), self.seq, fn, label))

    def _run_event(self):
        t, _, fn, label = heapq.heappop(self.heap)
        if t > self.now:
            self.now = t
        prev = self.in_event
        self.in_event = True
        cur, self.cur = self.cur, None
        try:
            fn()
        finally:
            self.in_event = prev
            self.cur = cur

    def run_due(self):
        if self.in_event:
            return
        while self.heap and self.heap[0][0] <= self.now:
            self._step()
            self._run_event()

    def drain(self, max_time=3600.0):
        """Run all remaining events (after the actors are done)."""
        end = self.now + max_time
        n = 0
        while self.heap and self.heap[0][0] <= end:
            self._run_event()
            n += 1
            if n > self.MAX_STEPS:
                raise SimHang('events never drain')

    def _step(self):
        self.steps += 1
        if self.steps > self.MAX_STEPS:
            self.hang('step budget exhausted')

    def hang(self, what):
        h = SimHang(what)
        if self.pending is None:
            self.pending = h
        raise self.pending

    # -- actors ------------------------------------------------------------
    def fail(self, kind, detail=''):
        """Record a violation found while the run proceeds and stop it, even
        if the code under test swallows the exception."""
        v = Violation(kind, detail)
        if self.pending is None:
            self.pending = v
            self.log('VIOLATION', kind, detail)
        raise v

    def unsupported(self, what):
        v = SimUnsupported(what)
        if self.pending is None:
            self.pending = v
        raise v

    def alive(self):
        """Raise if the current actor's process is dead."""
        a = self.cur
        if self.pending is not None and not self.in_event:
            raise self.pending
        if self.abort is not None and not self.in_event:
            raise self.abort
        if a is not None and a.dead:
            raise SimCrash(a.name)

    def point(self, label='', force=False):
        """A yield point: one visible step of the current actor."""
        if self.in_event or self.cur is None or not self.active:
            return
        self.alive()
        a = self.cur
        self._step()
        self.now += self.tick_cost
        a.yields += 1
        if a.kill_at is not None and a.yields >= a.kill_at:
            a.kill_at = None
            a.dead = True
            self.note_fault('kill:process')
            for h in self.kill_hooks:
                h(a)
            raise SimCrash(a.name)
        self.run_due()
        if self.multi and len(self.actors) > 1:
            others = [b for b in self.actors if b is not a and self._ready(b)]
            if others and (force or self.ch.chance(self.switch_p)):
                b = self.ch.pick(others)
                self.sched_hash.update(b'%d>%d@%d;' % (a.idx, b.idx, a.yields))
                self.switches += 1
                self._switch(b)
        self.alive()

    def _ready(self, b):
        if b.done:
            return False
        if b.cond is None:
            return True
        if b.deadline is not None and b.deadline <= self.now:
            return True
        return bool(b.cond())

    def _switch(self, b):
        a = self.cur
        self.cur = b
        b.gate.release()
        a.gate.acquire()
        self.cur = a

    def block(self, cond, timeout=None, what=''):
        """Block the current actor until cond() or timeout; True if cond."""
        if self.in_event:
            raise SimUnsupported('block inside event: ' + what)
        self.alive()
        a = self.cur
        deadline = None if timeout is None else self.now + timeout
        while True:
            self._step()
            self.run_due()
            if cond():
                self.alive()
                return True
            if deadline is not None and self.now >= deadline:
                return False
            if self.multi:
                others = [b for b in self.actors if b is not a and self._ready(b)]
                if others:
                    b = self.ch.pick(others)
                    self.sched_hash.update(b'%d~%d;' % (a.idx, b.idx))
                    a.cond, a.deadline = cond, deadline
                    self._switch(b)
                    a.cond = a.deadline = None
                    self.alive()
                    continue
            dls = [d for d in [deadline] + [b.deadline for b in self.actors
                   if b is not a and not b.done and b.cond is not None]
                   if d is not None]
            nxt = self.heap[0][0] if self.heap else None
            if nxt is not None and (not dls or nxt <= min(dls)):
                self._run_event()
                continue
            if dls:
                m = min(dls)
                self.now = max(self.now, m)
                if deadline is not None and deadline <= self.now:
                    return False
                # another actor's deadline: let it wake
                for b in self.actors:
                    if b is not a and b.cond is not None and b.deadline is not None \
                            and b.deadline <= self.now:
                        a.cond, a.deadline = cond, deadline
                        self._switch(b)
                        a.cond = a.deadline = None
                        self.alive()
                        break
                continue
            self.hang('blocked forever: ' + what)

    def sleep(self, secs):
        if self.in_event or self.cur is None:
            return
        self.log('sleep', secs)
        self.block(lambda: False, timeout=max(0.0, secs), what='sleep')

    # -- running -----------------------------------------------------------
    def run_one(self, fn, name='main', kill_at=None):
        """Run fn inline as the only actor. Returns (status, value)."""
        a = Actor(self, name, fn, 0)
        a.kill_at = kill_at
        self.actors = [a]
        self.cur = a
        self.multi = False
        try:
            r = ('ok', fn())
        except SimCrash:
            r = ('killed', None)
        except (SimHang, SimUnsupported, Violation, KeyboardInterrupt):
            raise
        except BaseException as e:
            r = ('raised', e)
        finally:
            self.cur = None
            self.actors = []
        if self.pending is not None:
            raise self.pending
        return ('killed', None) if a.dead else r

    def run_many(self, fns, kills=None):
        """fns: list of (name, fn). Runs them as interleaved threads.
        Returns list of (status, value)."""
        kills = kills or {}
        acts = [Actor(self, n, f, i) for i, (n, f) in enumerate(fns)]
        for a in acts:
            a.kill_at = kills.get(a.name)
        self.actors = acts
        self.multi = True
        results = [None] * len(acts)
        fatal = []

        def body(a):
            a.gate.acquire()
            self.cur = a
            try:
                if self.abort is not None:
                    raise self.abort
                results[a.idx] = ('ok', a.fn())
                if a.dead:
                    results[a.idx] = ('killed', None)
            except SimCrash:
                results[a.idx] = ('killed', None)
            except (SimHang, SimUnsupported, Violation) as e:
                results[a.idx] = ('fatal', e)
                if self.abort is None:
                    self.abort = e
                fatal.append(e)
            except Exception as e:
                results[a.idx] = ('killed', None) if a.dead else ('raised', e)
            except BaseException as e:
                results[a.idx] = ('fatal', e)
                if self.abort is None:
                    self.abort = e
                fatal.append(e)
            a.done = True
            # pass the baton on
            try:
                while True:
                    rest = [b for b in acts if not b.done]
                    if not rest:
                        self.main_gate.release()
                        return
                    if self.abort is not None:
                        nxt = rest[0]
                        break
                    ready = [b for b in rest if self._ready(b)]
                    if ready:
                        nxt = ready[0] if len(ready) == 1 else self.ch.pick(ready)
                        break
                    dls = [b for b in rest if b.deadline is not None]
                    if self.heap and (not dls or self.heap[0][0] <= min(b.deadline for b in dls)):
                        self._run_event()
                        continue
                    if dls:
                        nxt = min(dls, key=lambda b: (b.deadline, b.idx))
                        self.now = max(self.now, nxt.deadline)
                        break
                    nxt = rest[0]   # it will find out it hangs
                    break
            except BaseException as e:
                if self.abort is None:
                    self.abort = e
                fatal.append(e)
                rest = [b for b in acts if not b.done]
                if not rest:
                    self.main_gate.release()
                    return
                nxt = rest[0]
            self.cur = nxt
            nxt.gate.release()

        for a in acts:
            a.thread = threading.Thread(target=body, args=(a,), daemon=True)
            a.thread.start()
        first = self.ch.pick(acts)
        self.cur = first
        first.gate.release()
        self.main_gate.acquire()
        for a in acts:
            a.thread.join()
        self.cur = None
        self.actors = []
        self.multi = False
        if self.pending is not None:
            raise self.pending
        if fatal:
            ab = self.abort
            self.abort = None
            raise ab if ab is not None else fatal[0]
        return results


CURRENT = None      # the active Sim, read by the seams


def set_current(sim):
    global CURRENT
    CURRENT = sim


def shrink(run, choices, kind, budget_s, clock, max_exec=600):
    """Generic choice-list minimiser.  run(list) -> violation kind or None.
    Returns the smallest list found that still fails with the same kind."""
    best = list(choices)
    t0 = clock()
    n = [0]

    def ok(c):
        if n[0] >= max_exec or clock() - t0 > budget_s:
            return False
        n[0] += 1
        return run(c) == kind

    def strip(c):
        while c and c[-1] == 0:
            c.pop()
        return c

    best = strip(best)
    improved = True
    while improved and n[0] < max_exec and clock() - t0 < budget_s:
        improved = False
        # truncate
        lo = len(best) // 2
        while lo >= 1 and len(best) > 1:
            c = best[:len(best) - lo]
            if ok(c):
                best = strip(list(c))
                improved = True
                lo = min(lo, max(1, len(best) // 2))
            else:
                lo //= 2
        # delete chunks
        size = max(1, len(best) // 4)
        while size >= 1:
            i = 0
            while i < len(best):
                c = best[:i] + best[i + size:]
                if len(c) < len(best) and ok(c):
                    best = strip(list(c))
                    improved = True
                else:
                    i += size
                if n[0] >= max_exec or clock() - t0 > budget_s:
                    return best
            size //= 2
        # zero / reduce
        for i in range(len(best)):
            if i >= len(best):
                break
            if best[i] == 0:
                continue
            c = best[:i] + [0] + best[i + 1:]
            if ok(c):
                best = c
                improved = True
                continue
            v = best[i]
            while v > 1:
                c = best[:i] + [v // 2] + best[i + 1:]
                if ok(c):
                    best = c
                    v //= 2
                    improved = True
                else:
                    break
        best = strip(best)
    return best
