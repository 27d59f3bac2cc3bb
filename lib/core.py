"""Shared pieces of the checks."""
import json
import os

import numpy as np

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


class Violation(AssertionError):
    """The oracle disagrees with the code under test."""
    def __init__(self, what, key=None):
        super().__init__(what)
        self.key = key


class HarnessError(Exception):
    """The harness itself cannot go on."""


class Sub:
    """One generated-input search.

    strategy: () -> hypothesis strategy of JSON-able cases (called after hypothesis is importable)
    prop    : case -> facts
    quick / thorough: the number of generated cases of the two tiers
    rule    : what makes a case non-trivial
    """
    def __init__(self, name, strategy, prop, quick, thorough, rule, shards=None, shrink_s=40):
        self.name, self.strategy, self.prop = name, strategy, prop
        self.quick, self.thorough, self.rule = quick, thorough, rule
        self.shards, self.shrink_s = shards, shrink_s


def canon(case):
    return json.dumps(case, sort_keys=True, default=str)


def load_known(pid):
    path = os.path.join(ROOT, 'known_findings.jsonl')
    out = []
    if os.path.exists(path):
        for line in open(path):
            line = line.strip()
            if not line or line.startswith(('#', 'fixed:')):
                continue
            r = json.loads(line)
            if r.get('property') == pid and r.get('status') == 'finding':
                out.append(r)
    return out


def require(cond, what, key=None):
    if not cond:
        raise Violation(what, key)


def close(a, b, what, rtol=1e-9, atol=1e-11, scale=None, key=None):
    """|a - b| <= atol*scale + rtol*max(|b|): compare two arrays with a tolerance relative to their size."""
    a = np.asarray(a, dtype=float)
    b = np.asarray(b, dtype=float)
    if a.shape != b.shape:
        raise Violation(f'{what}: shapes {a.shape} and {b.shape} differ', key)
    if a.size == 0:
        return 0.
    if not np.all(np.isfinite(a)):
        raise Violation(f'{what}: a value is not finite', key)
    if not np.all(np.isfinite(b)):
        raise HarnessError(f'{what}: the oracle is not finite')
    m = np.max(np.abs(b))
    if scale is not None:
        m = max(m, scale)
    err = np.max(np.abs(a - b))
    if err > atol + rtol * m:
        i = np.unravel_index(np.argmax(np.abs(a - b)), a.shape)
        raise Violation(f'{what}: max deviation {err:.3e} (size {m:.3e}) at {tuple(int(_) for _ in i)}: '
                        f'got {a[i]!r}, expected {b[i]!r}', key)
    return err
