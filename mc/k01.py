"""K01: the messages follow the log level, each is told once."""
import io
import itertools
import logging
import sys

from . import core, fitlib

ID = "K01"
LEVEL = "model_checking"
RULE = (
    "two Calibrators that share a logger or do not: all the histories of "
    "setting the level and the name of the logger, and of calls that tell "
    "something (settings, transform, fits that succeed and fail, matches). "
    "Each history is run twice, with all the levels at debug and with the "
    "levels of the history: the second has to tell the messages of the first "
    "that are at or above the level, in their order, each printed once, and "
    "nothing through the root logger or a logger of another name. A state is "
    "the loggers of the two and the levels of the loggers."
)
BOUNDS = ("all histories of 2 of 16 calls, and of 2 changes of the levels "
          "and a call (thorough: of 3 of the calls)")
ASSUMPTIONS = ["numpy.random.seed() is called before each call"]

OPS = [["set", who, name, level]
       for who, name, level in (
           ("A", "one", "debug"), ("A", "one", "INFO"),
           ("A", "one", "warning"), ("A", "one", "Error"),
           ("A", "one", "critical"), ("A", "two", "warning"),
           ("B", "one", "debug"), ("B", "one", "critical"),
           ("B", "two", "info"))]
OPS += [["fit", "A"], ["fit", "B"], ["starve", "A"], ["fail", "B"],
        ["hough", "A"], ["match", "B"], ["bare", "A"]]
PB = fitlib.PROBLEMS["line_extra"]


def items(tier, seed):
    return [dict(first=i, second=j, tier=tier) for i in range(len(OPS))
            for j in range(len(OPS))]


def histories(item):
    two = [OPS[item["first"]], OPS[item["second"]]]
    if item["second"] == 0:
        yield two[:1]
    yield two
    for op in OPS:
        # quick: two changes of the levels and a call
        if item["tier"] != "quick" or (
                two[0][0] == two[1][0] == "set" != op[0]):
            yield two + [op]


class Records(logging.Handler):
    def __init__(self):
        super().__init__(level=0)
        self.got = []

    def emit(self, record):
        self.got.append((record.levelno, record.getMessage(), record.name))


class World:
    """Two Calibrators and the loggers of this history."""

    count = 0

    def __init__(self, loud):
        World.count += 1
        self.loud = loud
        self.names = {}
        self.level = {}
        self.log_of = {}
        self.ear = Records()
        self.cal = {}
        self.stray = []
        for who in "AB":
            self.do(["set", who, "one", "critical"])

    def name(self, short):
        if short not in self.names:
            n = "k01.%d.%s" % (World.count, short)
            self.names[short] = n
            logging.getLogger(n).addFilter(self._hear)
        return self.names[short]

    def _hear(self, record):
        self.ear.emit(record)
        return True

    def new(self):
        """A Calibrator tells of its default settings when it is made."""
        from rascal.calibrator import Calibrator

        log = logging.getLogger("Calibrator")
        log.removeFilter(self._stray)
        c = Calibrator(peaks=list(PB.peaks))
        log.addFilter(self._stray)
        return c

    def _stray(self, record):
        self.stray.append(record.getMessage())
        return True

    def calibrator(self, who):
        if who not in self.cal:
            self.cal[who] = self.new()
        return self.cal[who]

    def do(self, op):
        """Returns the messages and what is printed."""
        import numpy as np

        np.random.seed(1)
        self.ear.got = []
        out = io.StringIO()
        # a StreamHandler keeps the stream it was made with
        old, sys.stderr = sys.stderr, Tee(self, out)
        try:
            getattr(self, "do_" + op[0])(*op[1:])
        finally:
            sys.stderr = old
        return list(self.ear.got)

    def do_set(self, who, name, level):
        self.log_of[who] = name
        self.level[name] = getattr(logging, level.upper())
        new = who not in self.cal
        c = self.calibrator(who)
        c.set_calibrator_properties(
            num_pix=PB.num_pix, logger_name=self.name(name),
            log_level="debug" if self.loud else level)
        if new:
            c.set_hough_properties(**PB.hough)
            c.set_ransac_properties(**PB.ransac)
            c.set_atlas(fitlib.atlas(PB), candidate_tolerance=PB.ctol)

    def do_fit(self, who):
        fitlib.fit(self.cal[who], PB, max_tries=2)

    def do_starve(self, who):
        c = self.cal[who]
        c.set_ransac_properties(sample_size=50, minimum_matches=50)
        fitlib.fit(c, PB, max_tries=1)
        c.set_ransac_properties(sample_size=2, minimum_matches=1)

    def do_fail(self, who):
        fitlib.fit(self.cal[who], PB, max_tries=1, candidate_tolerance=1e-12)

    def do_hough(self, who):
        self.cal[who].do_hough_transform()

    def do_match(self, who):
        try:
            self.cal[who].match_peaks([4000.0, 10.0], tolerance=5.0)
        except (AssertionError, AttributeError):
            # nothing was fitted
            pass

    def do_bare(self, who):
        """A Calibrator without lines and without settings."""
        c = self.new()
        name = self.log_of[who]
        level = logging.getLevelName(self.level[name])
        c.set_calibrator_properties(
            logger_name=self.name(name),
            log_level="debug" if self.loud else level)
        try:
            c.do_hough_transform()
        except Exception:
            pass

    def model(self, op):
        """The level of the messages of that call."""
        return self.level[self.log_of[op[1]]]


class Tee(io.TextIOBase):
    """Where a handler writes: the text is kept by the world."""

    def __init__(self, world, out):
        self.world = world
        self.out = out
        world.texts = getattr(world, "texts", []) + [out]

    def write(self, s):
        return self.out.write(s)


def printed(world):
    t = "".join(o.getvalue() for o in world.texts)
    for o in world.texts:
        o.seek(0)
        o.truncate()
    return t


def play(hist, loud):
    w = World(loud)
    printed(w)
    out = []
    for op in hist:
        got = w.do(op)
        out.append((got, printed(w), w.model(op),
                    {k: len(logging.getLogger(n).handlers)
                     for k, n in w.names.items()}))
    state = [sorted(w.log_of.items()), sorted(w.level.items())]
    names = w.names.values()
    logging.getLogger("Calibrator").removeFilter(w._stray)
    if w.stray:
        raise core.Violation("a logger of another name tells %s" % w.stray)
    for n in names:
        logging.Logger.manager.loggerDict.pop(n, None)
    return out, state, dict((n, k) for k, n in w.names.items())


def judge(hist, ctx):
    root = logging.getLogger()
    ear = Records()
    before = list(root.handlers)
    root.addHandler(ear)
    level = root.level
    try:
        loud, _, names0 = play(hist, True)
        quiet, state, names1 = play(hist, False)
    finally:
        root.removeHandler(ear)
    for (a, _, _, _), (b, text, lev, handlers), op in zip(loud, quiet, hist):
        want = [(n, m, names0.get(k)) for n, m, k in a if n >= lev]
        got = [(n, m, names1.get(k)) for n, m, k in b]
        if got != want:
            raise core.Violation("%s tells %s, expected %s" % (op, got, want))
        if len(a) > len(want):
            ctx.count("silenced", len(a) - len(want))
        ctx.count("told", len(want))
        for m in set(m for _, m, _ in got):
            n = sum(m == q for _, q, _ in got)
            if sum(line.endswith(m.split("\n")[-1])
                   for line in text.splitlines()) < n:
                raise core.Violation("%r is not printed" % m)
        if sum(len(m.split("\n")) for _, m, _ in got) != len(
                text.splitlines()):
            raise core.Violation("%s prints %r for %s" % (op, text, got))
    if ear.got:
        raise core.Violation("the root logger tells %s" % ear.got)
    if list(root.handlers) != before or root.level != level:
        for h in list(root.handlers):
            if h not in before:
                root.removeHandler(h)
        raise core.Violation("the root logger was changed")
    return state


def run(item, ctx):
    logging.disable(logging.NOTSET)
    logging.captureWarnings(False)
    try:
        for hist in histories(item):
            ctx.count("transitions", 2 * len(hist))
            ctx.count("traces_validated_against_impl", 2)
            ok, s = ctx.guard(dict(history=hist), judge, hist, ctx)
            if ok:
                ctx.state(s)
            if ctx.stop:
                return
    finally:
        logging.disable(logging.CRITICAL)
    ctx.sample(dict(history=hist))
