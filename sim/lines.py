"""Source-line seam on the code under test (sys.monitoring LINE events).

* Line budget: a loop that never reaches another seam is reported as a hang.
* Optional preemption: in thread-interleaving scenarios each executed line of
  the repository is a yield point.
"""
import os
import sys

from . import core

TOOL = 3
PREFIX = None
BUDGET = 1500000
_count = [0]
PREEMPT = [0]         # 0: off; n: the running thread is preempted after 1..n lines
_left = [0]
LINES = set()
TRACK = [False]


def install(prefix):
    global PREFIX
    PREFIX = prefix.rstrip('/') + '/'
    mon = sys.monitoring
    mon.use_tool_id(TOOL, 'sim')

    def on_line(code, line):
        if not code.co_filename.startswith(PREFIX):
            return mon.DISABLE
        s = core.CURRENT
        if s is None or s.cur is None or s.in_event or not s.active:
            return None
        _count[0] += 1
        if TRACK[0]:
            LINES.add((code.co_filename, line))
        if _count[0] > BUDGET:
            s.hang(f'line budget exhausted in {os.path.basename(code.co_filename)}:{code.co_name}')
        if PREEMPT[0] and s.multi and s.steps < 30000:
            _left[0] -= 1
            if _left[0] < 0:
                _left[0] = s.ch.draw(PREEMPT[0])
                s.point('line', force=True)
        return None

    mon.register_callback(TOOL, mon.events.LINE, on_line)
    mon.set_events(TOOL, mon.events.LINE)


def reset(preempt=0):
    _count[0] = 0
    _left[0] = 0
    PREEMPT[0] = preempt
