"""Lazily loaded analysis state shared by the rules of one check run."""
import time

from judge import Group
from program import AnalysisBroken, GROUPS, load, load_ref


class Finding:
    def __init__(self, key, where, text, detail=None):
        self.key, self.where, self.text, self.detail = key, where, text, detail


class Result:
    """what one rule, or the function obligations, covered"""

    def __init__(self, name, rule):
        self.name, self.rule = name, rule
        self.obligations = 0
        self.discharged = 0
        self.undecided = []
        self.violations = []
        self.notes = []
        self.samples = []

    def ok(self, text=None):
        self.obligations += 1
        self.discharged += 1
        if text and len(self.samples) < 4:
            self.samples.append(text)

    def bad(self, key, where, text, detail=None):
        self.obligations += 1
        self.violations.append(Finding(key, where, text, detail))

    def open(self, text):
        self.obligations += 1
        self.undecided.append(text)

    def need(self, n, what):
        if self.obligations < n:
            raise AnalysisBroken('rule %s examined only %d %s (expected at least %d): its anchors are gone' % (self.name, self.obligations, what, n))


class Ctx:
    def __init__(self, tier):
        self.tier = tier
        self.thorough = tier == 'thorough'
        self._g, self._p, self._r = {}, {}, {}

    def group(self, name):
        if name not in self._g:
            self._g[name] = Group(name, self.thorough)
        return self._g[name]

    def cur(self, name):
        if name in self._g:
            return self._g[name].cur
        if name not in self._p:
            self._p[name] = load(name)
        return self._p[name]

    def ref(self, name):
        if name in self._g:
            return self._g[name].ref
        if name not in self._r:
            self._r[name] = load_ref(name)
        return self._r[name]
