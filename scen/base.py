"""Common scenario plumbing."""
import os
import sys

from sim import clock, core, fs, locks
from sim.core import Violation


class Scenario:
    datetime = True
    preload = ()        # third-party packages that want the real datetime at import

    def seams(self):
        for m in self.preload:
            __import__(m)
        locks.install(os.path.join(os.environ.get('VERIF_REPO', '/repo'), 'impactutils'))
        fs.install()
        clock.install(self.datetime)

    def setup(self):
        self.seams()

    def run(self, sim):
        raise NotImplementedError


def describe(e):
    return f'{type(e).__name__}: {str(e)[:300]}'
