"""Sub-check registry, violations, labels: what a property module uses."""
import json

REGISTRY = {}


class Violation(Exception):
    """The code under test broke the property on this case."""


class Reject(Exception):
    """The case lies outside the property's domain (counted, never a violation)."""


class Sub:
    """One generated check: a strategy of JSON-able cases and an oracle."""

    def __init__(self, name, strategy, check, quick, thorough=None, weight=1.0):
        self.name = name
        self.strategy = strategy
        self.check = check
        self.quick = quick
        self.thorough = thorough if thorough is not None else quick * 12


class Prop:
    def __init__(self, pid, rule, assumptions=()):
        self.pid = pid
        self.rule = rule
        self.assumptions = list(assumptions)
        self.subs = []
        REGISTRY[pid] = self

    def sub(self, name, strategy, quick, thorough=None):
        def deco(fn):
            self.subs.append(Sub(name, strategy, fn, quick, thorough))
            return fn

        return deco


# ---- labels of the running case -------------------------------------------------
_labels = []
_nontrivial = [False]
_scratch = [None]


def start_case(scratch):
    _labels.clear()
    _nontrivial[0] = False
    _scratch[0] = scratch


def label(*names):
    _labels.extend(names)


def nontrivial(cond=True):
    if cond:
        _nontrivial[0] = True


def scratch():
    return _scratch[0]


def case_info():
    return list(_labels), _nontrivial[0]


def canon(case):
    return json.dumps(case, sort_keys=True, default=str)


def fail(msg):
    raise Violation(msg)


def require(cond, msg):
    if not cond:
        raise Violation(msg() if callable(msg) else msg)
