# Deterministic simulation core (runs under Jython 2.7).
#
# Everything a simulated run decides - generated workload, schedule, faults,
# delays - is one call to Sim.choose().  In search mode the answers come from a
# PRNG seeded with one integer and are recorded on a tape; in replay mode they
# are read back from a tape (an exhausted tape answers 0, which every caller
# arranges to mean "simplest / no fault / no preemption").  One integer (or one
# tape) is therefore one exactly repeatable execution.

import hashlib
import sys
import traceback

from java.util import SplittableRandom


class Violation(Exception):
    """The code under test broke the property."""

    def __init__(self, oracle, message):
        Exception.__init__(self, '%s: %s' % (oracle, message))
        self.oracle = oracle
        self.message_ = message


class HarnessError(Exception):
    """The harness itself is broken (never a verdict about the code)."""


class TapeTooLong(Exception):
    pass


def _b(s):
    if isinstance(s, unicode):
        return s.encode('utf-8')
    return s


class Sim(object):
    MAX_TAPE = 60000
    MAX_LOG = 4000

    def __init__(self, seed=None, tape=None):
        self.seed = seed
        self.replay = tape
        self.tape = []
        self._rng = SplittableRandom(seed) if tape is None else None
        self._pos = 0
        self.events = []
        self.nevents = 0
        self._hash = hashlib.md5()
        self.faults = {}
        self.probes = {}
        self.states = set()
        self.now = 0.0
        self.steps = 0
        self.cleanups = []
        self.nontrivial = False
        self.sample = None

    # -- choices ---------------------------------------------------------
    def _next(self, n, draw):
        if self.replay is None:
            v = draw()
        else:
            if self._pos < len(self.replay):
                v = self.replay[self._pos]
                if v < 0 or v >= n:
                    v = v % n
            else:
                v = 0
            self._pos += 1
        self.tape.append(v)
        if len(self.tape) > self.MAX_TAPE:
            raise TapeTooLong()
        return v

    def choose(self, n):
        """Uniform integer in [0, n)."""
        if n <= 1:
            return 0
        return self._next(n, lambda: self._rng.nextInt(n))

    def chance(self, num, den=100):
        """True with probability num/den; False is the simplest answer."""
        if num <= 0:
            return False
        return bool(self._next(
            2, lambda: 1 if self._rng.nextInt(den) < num else 0))

    def weighted(self, weights):
        """Index drawn with the given weights; 0 is the simplest."""
        total = sum(weights)

        def draw():
            x = self._rng.nextInt(total)
            for i, w in enumerate(weights):
                if x < w:
                    return i
                x -= w
        return self._next(len(weights), draw)

    def pick(self, seq):
        return seq[self.choose(len(seq))]

    def between(self, lo, hi):
        """Uniform integer in [lo, hi]; lo is the simplest."""
        return lo + self.choose(hi - lo + 1)

    def small(self, hi):
        """Integer in [0, hi], biased to small values."""
        return self._next(
            hi + 1,
            lambda: min(self._rng.nextInt(hi + 1), self._rng.nextInt(hi + 1)))

    def shuffle(self, seq):
        seq = list(seq)
        out = []
        while seq:
            out.append(seq.pop(self.choose(len(seq))))
        return out

    # -- recording (never draws, never reads a clock) --------------------
    def log(self, msg, *args):
        if args:
            msg = msg % args
        msg = _b(msg)
        self._hash.update(msg)
        self._hash.update('\n')
        self.nevents += 1
        if len(self.events) < self.MAX_LOG:
            self.events.append(msg)

    def fault(self, kind, n=1):
        self.faults[kind] = self.faults.get(kind, 0) + n

    def probe(self, name, n=1):
        self.probes[name] = self.probes.get(name, 0) + n

    def state(self, key):
        """Record an abstract state / interleaving reached."""
        # hash() of None and of classes depends on addresses
        self.states.add(int(hashlib.md5(repr(key)).hexdigest()[:12], 16))

    def digest(self):
        return self._hash.hexdigest()

    # -- oracles ----------------------------------------------------------
    def fail(self, oracle, msg, *args):
        if args:
            msg = msg % args
        raise Violation(oracle, _b(msg))

    def check(self, cond, oracle, msg, *args):
        if not cond:
            self.fail(oracle, msg, *args)

    def on_cleanup(self, f):
        self.cleanups.append(f)


class Result(object):
    def __init__(self):
        self.violation = None     # (oracle, message)
        self.harness = None
        self.digest = None


def _safe(e):
    try:
        return _b(unicode(e))
    except Exception:
        return repr(e)


def library_frames(tb):
    """Innermost library frame of a traceback (None: not in the library)."""
    import boot
    found = None
    while tb is not None:
        fn = tb.tb_frame.f_code.co_filename
        if boot.SCRATCH and fn.startswith(boot.SCRATCH):
            found = '%s:%d' % (fn[len(boot.SCRATCH) + 1:], tb.tb_lineno)
        tb = tb.tb_next
    return found


def short_tb():
    et, ev, tb = sys.exc_info()
    lines = traceback.format_exception(et, ev, tb)
    return ''.join([_b(l) for l in lines])[-3000:]


def execute(prop, seed=None, tape=None):
    """One simulated run.  Returns (sim, Result)."""
    import snapshot

    snapshot.restore()
    sim = Sim(seed=seed, tape=tape)
    res = Result()
    try:
        try:
            prop.run(sim)
        finally:
            for c in reversed(sim.cleanups):
                c()
    except Violation, e:
        res.violation = (e.oracle, e.message_)
        sim.log('VIOLATION %s', e.oracle)
    except TapeTooLong:
        sim.probe('tape-too-long')
    except (KeyboardInterrupt, SystemExit):
        raise
    except:
        et, ev, tb = sys.exc_info()
        lib = library_frames(tb)
        if isinstance(ev, MemoryError):
            # believed only if it happens again in a fresh process
            res.violation = ('out-of-memory', 'memory ran out (%s)' % (lib,))
            sim.log('VIOLATION out-of-memory')
        elif lib and not isinstance(ev, HarnessError):
            # an error nobody allowed for came out of the code under test
            oracle = 'unexpected-%s' % (et.__name__,)
            res.violation = (oracle, '%s: %s (raised at %s)\n%s' % (
                et.__name__, _safe(ev), lib, short_tb()))
            sim.log('VIOLATION %s', oracle)
        elif isinstance(ev, (HarnessError, ImportError, NameError)):
            res.harness = short_tb()
        else:
            # the oracles are total over what a correct library produces
            res.violation = ('uninterpretable-result', short_tb())
            sim.log('VIOLATION uninterpretable-result')
    res.digest = sim.digest()
    return sim, res


def minimise(prop, tape, oracle, budget_s, clock, max_exec=1500):
    """
    Shrinks a failing tape while the same oracle keeps failing.  The clock is
    used for the budget only, never inside a run.
    """
    t0 = clock()
    count = [0]
    best = [list(tape)]

    def out_of_budget():
        return clock() - t0 > budget_s or count[0] >= max_exec

    def attempt(t):
        if out_of_budget():
            return False
        count[0] += 1
        sim, res = execute(prop, tape=t)
        if res.violation and res.violation[0] == oracle:
            used = list(sim.tape)
            while used and used[-1] == 0:
                used.pop()
            if (len(used), used) < (len(best[0]), best[0]):
                best[0] = used
                return True
        return False

    t = list(tape)
    while t and t[-1] == 0:
        t.pop()
    attempt(t)

    improved = True
    while improved and not out_of_budget():
        improved = False
        # delete chunks
        size = max(1, len(best[0]) // 2)
        while size >= 1 and not out_of_budget():
            i = max(0, len(best[0]) - size)
            while i >= 0 and not out_of_budget():
                cur = best[0]
                if i < len(cur) and attempt(cur[:i] + cur[i + size:]):
                    improved = True
                i -= size
            size //= 2
        # zero chunks, then single values
        size = max(1, len(best[0]) // 4)
        while size >= 1 and not out_of_budget():
            i = 0
            while i < len(best[0]) and not out_of_budget():
                cur = best[0]
                if any(cur[i:i + size]):
                    if attempt(cur[:i] + [0] * size + cur[i + size:]):
                        improved = True
                i += size
            size //= 2
        # lower values
        i = 0
        while i < len(best[0]) and not out_of_budget():
            cur = best[0]
            v = cur[i]
            for nv in (v // 2, v - 1):
                if 0 < nv < v:
                    if attempt(cur[:i] + [nv] + cur[i + 1:]):
                        improved = True
                        break
            i += 1
    return best[0], count[0]
