"""Random delays between the lines of katcp code in every thread started while on (schedule fuzzing)."""
import random
import sys
import threading
import time

from kv.core import REPO


class Fuzz(object):
    def __init__(self, seed, rate, files, budget=300):
        self.files = tuple('%s/katcp/%s.py' % (REPO, f) for f in files)
        self.seed, self.rate, self.left = seed, rate, budget
        self.naps = 0
        self.n = 0
        self.on = rate > 0
        self.local = threading.local()

    def rng(self):
        r = getattr(self.local, 'r', None)
        if r is None:
            self.n += 1
            r = self.local.r = random.Random('%s/%s' % (self.seed, self.n))
        return r

    def line(self, frame, event, arg):
        if event == 'line' and self.left > 0:
            r = self.rng()
            if r.random() < self.rate:
                self.left -= 1
                self.naps += 1
                time.sleep(r.choice((0, 0.0002, 0.0005, 0.002)))
        return self.line

    def call(self, frame, event, arg):
        if frame.f_code.co_filename in self.files:
            return self.line
        return None

    def __enter__(self):
        if self.on:
            threading.settrace(self.call)
        return self

    def __exit__(self, *exc):
        self.left = 0
        if self.on:
            threading.settrace(None)
            sys.settrace(None)
        return False
