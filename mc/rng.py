"""
Controlled scheduler of the random draws.

numpy.random.choice is the only source of nondeterminism of the solver (the
other functions are seeded before each execution, which is checked by running
the same schedule twice). While an exploration is active, each call of choice()
is a choice point whose answers are enumerated: a scalar draw can answer any
element with a non-zero probability and a draw of k elements without
replacement any k-combination.
"""
import itertools
import random

import numpy as np

ACTIVE = None
_orig = {}


class Point:
    __slots__ = ("n", "pick")

    def __init__(self, n, pick):
        self.n = n
        self.pick = pick


class Controller:
    """One execution: replays a prefix of picks, then follows the default."""

    def __init__(self, prefix=(), fair_seed=12345, horizon=200000):
        self.prefix = list(prefix)
        self.points = []
        self.fair = random.Random(fair_seed)
        self.horizon = horizon
        self.diverged = False

    def decide(self, n):
        i = len(self.points)
        if i >= self.horizon:
            from .core import Hang

            raise Hang()
        if i < len(self.prefix):
            pick = self.prefix[i]
            if pick >= n:
                self.diverged = True
                pick = n - 1
        else:
            # beyond the prefix: the answers are fair, so that a loop which
            # waits for a certain answer ends
            pick = self.default(n, i)
        self.points.append(Point(n, pick))
        return pick

    def default(self, n, i):
        if i < self.depth:
            return 0
        return self.fair.randrange(n)

    depth = 0

    def choice(self, a, size=None, replace=True, p=None):
        # the original call validates the arguments
        _orig["choice"](a, size, replace, p)
        if isinstance(a, (int, np.integer)):
            pool = np.arange(a)
        else:
            pool = np.asarray(a)
        idx = list(range(len(pool)))
        if p is not None:
            idx = [i for i in idx if np.asarray(p)[i] > 0]
        if size is None:
            return pool[idx[self.decide(len(idx))]]
        k = int(np.prod(size))
        if replace:
            got = [idx[self.decide(len(idx))] for _ in range(k)]
        else:
            combos = list(itertools.combinations(idx, k))
            got = list(combos[self.decide(len(combos))])
        return pool[got].reshape(size)


class _Gen:
    """A seeded generator whose choice() is controlled."""

    def __init__(self, real):
        self._real = real

    def __getattr__(self, name):
        return getattr(self._real, name)

    def choice(self, a, size=None, replace=True, p=None, *args, **kwargs):
        if ACTIVE is not None:
            return ACTIVE.choice(a, size, replace, p)
        return self._real.choice(a, size, replace, p)


def install():
    if _orig:
        return
    _orig["choice"] = np.random.choice
    _orig["default_rng"] = np.random.default_rng

    def choice(a, size=None, replace=True, p=None):
        if ACTIVE is not None:
            return ACTIVE.choice(a, size, replace, p)
        return _orig["choice"](a, size, replace, p)

    def default_rng(seed=None):
        if ACTIVE is not None:
            return _Gen(_orig["default_rng"](7 if seed is None else seed))
        return _orig["default_rng"](seed)

    np.random.choice = choice
    np.random.default_rng = default_rng


class under:
    """with under(controller): the draws are answered by the controller."""

    def __init__(self, ctl):
        self.ctl = ctl

    def __enter__(self):
        global ACTIVE
        np.random.seed(12345)
        random.seed(12345)
        ACTIVE = self.ctl
        return self.ctl

    def __exit__(self, *a):
        global ACTIVE
        ACTIVE = None


def schedules(execute, depth, limit=None, first=None, budget=None,
              stats=None):
    """
    Depth first enumeration of all the schedules that differ within the first
    `depth` choice points; the rest of each execution takes the default.

    execute(controller) runs the system once. Yields after each execution
    (picks, result). `first` restricts the picks of the leading points, which
    splits the tree into work items. The enumeration ends early after `limit`
    executions or `budget` choice points; stats["complete"] tells.
    """
    first = list(first or [])
    stats = {} if stats is None else stats
    stats["complete"] = False
    prefix = list(first)
    n = used = 0
    while True:
        ctl = Controller(prefix)
        ctl.depth = depth
        with under(ctl):
            out = execute(ctl)
        if ctl.diverged or len(ctl.points) < len(prefix):
            if prefix == first:
                stats["complete"] = True
                return  # this branch does not exist
            raise RuntimeError("the replay of a schedule diverged")
        picks = [q.pick for q in ctl.points[:depth]]
        n += 1
        used += len(ctl.points)
        yield picks, out
        if limit is not None and n >= limit:
            return
        if budget is not None and used >= budget:
            return
        # backtrack
        i = min(depth, len(ctl.points)) - 1
        while i >= len(first):
            q = ctl.points[i]
            if q.pick + 1 < q.n:
                prefix = picks[:i] + [q.pick + 1]
                break
            i -= 1
        else:
            stats["complete"] = True
            return
