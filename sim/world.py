"""One simulated run: the seeded choice sequence, the event log, the verdict.

Every decision of a run (which schedule, which fault, which workload, how long
a dispatch takes, ...) is drawn through a World.  A World is driven either by
a PRNG seeded with one integer or, on replay, by a recorded list of integers;
in both cases the run is a pure function of that input and of the code under
test.  Choice 0 is always the simplest alternative (no fault, smallest size),
and a replay that runs out of recorded integers continues with 0.
"""
import contextlib
import hashlib
import random
import re
import traceback


class Violation(Exception):
  """The property does not hold on this run."""

  def __init__(self, kind, msg):
    super().__init__('%s: %s' % (kind, msg))
    self.kind = kind
    self.msg = msg


class HarnessError(Exception):
  """The simulator itself is wrong or the machine failed it."""


class SimCrash(BaseException):
  """The simulated process dies here (never caught by `except Exception`)."""


class NoProgress(BaseException):
  """The run exceeded its budget of simulated events."""


def run_seed(verif_seed, prop, index):
  h = hashlib.sha256(('%s/%s/%s' % (verif_seed, prop, index)).encode())
  return int.from_bytes(h.digest()[:8], 'big')


class World:
  """Choices, clock, event log, fault counters and verdict of one run."""

  def __init__(self, seed=None, script=None, index=0, tier='quick',
               budget=200000):
    self.seed = seed
    self.index = index
    self.tier = tier
    self._rng = random.Random(seed)
    self._script = None if script is None else list(script)
    self.choices = []
    self.events = []
    self.faults = {}
    self.probes = {}
    self.now = 0.0            # simulated seconds
    self._hash = hashlib.sha256()
    self._n_events = 0
    self._budget = budget
    self.sticky = None        # violation that code under test cannot swallow
    self.sample = {}
    self.checks = 0

  # ---- choices -----------------------------------------------------------
  def integers(self, label, n):
    """An integer in [0, n)."""
    n = int(n)
    if n <= 0:
      raise HarnessError('empty choice %s' % label)
    if self._script is not None:
      pos = len(self.choices)
      v = self._script[pos] % n if pos < len(self._script) else 0
    else:
      v = self._rng.randrange(n)
    self.choices.append([label, v, n])
    return v

  def stratum(self, label, n, k):
    """Choice k modulo n (stratified over runs), recorded like any other."""
    n = int(n)
    if self._script is not None:
      return self.integers(label, n)
    v = k % n
    self.choices.append([label, v, n])
    return v

  def pick(self, label, seq):
    seq = list(seq)
    return seq[self.integers(label, len(seq))]

  def between(self, label, lo, hi):
    """An integer in [lo, hi]."""
    return lo + self.integers(label, hi - lo + 1)

  def chance(self, label, p):
    """True with probability p; 0 (False) is the simple alternative."""
    return self.integers(label, 1000) >= 1000 - int(round(p * 1000))

  def key(self, label):
    """A 31-bit seed for a numeric generator (numpy, jax)."""
    return self.integers(label, 2**31 - 1)

  def shuffled(self, label, seq):
    seq = list(seq)
    for i in range(len(seq) - 1):
      j = i + self.integers('%s[%d]' % (label, i), len(seq) - i)
      seq[i], seq[j] = seq[j], seq[i]
    return seq

  # ---- log, clock, faults ------------------------------------------------
  def log(self, *what):
    line = repr(what)
    self._hash.update(line.encode())
    self._hash.update(b'\n')
    self._n_events += 1
    if len(self.events) < 400:
      self.events.append(line if len(line) < 300 else line[:300] + '...')

  def tick(self):
    """A seam event happened; bounded so that no run can spin for ever."""
    self._budget -= 1
    if self._budget <= 0:
      self.sticky = Violation(
          'no-progress', 'the run exceeded its budget of simulated events')
      raise NoProgress()

  def advance(self, dt):
    self.now += dt

  def fault(self, kind):
    self.faults[kind] = self.faults.get(kind, 0) + 1

  def probe(self, kind, n=1):
    self.probes[kind] = self.probes.get(kind, 0) + n

  @property
  def digest(self):
    return self._hash.hexdigest()

  @property
  def n_events(self):
    return self._n_events

  # ---- verdict -----------------------------------------------------------
  def check(self, ok, kind, msg):
    self.checks += 1
    if not ok:
      raise Violation(kind, msg() if callable(msg) else msg)

  @contextlib.contextmanager
  def sut(self, label, allow=()):
    """Code under test runs here: an unexpected exception is its failure."""
    try:
      yield
    except (Violation, HarnessError):
      raise
    except allow:
      raise
    except MemoryError as e:
      raise HarnessError('out of memory in %s' % label) from e
    except Exception as e:  # pylint: disable=broad-except
      tb = traceback.extract_tb(e.__traceback__)
      where = [f for f in tb if '/discs/' in f.filename]
      at = ''
      if where:
        f = where[-1]
        at = ' at %s (%s)' % (f.filename.split('/discs/', 1)[-1], f.name)
      raise Violation(
          'exception', '%s raised %s: %s%s' % (
              label, type(e).__name__, re.sub(
                  r'/tmp/simdiscs-[^/\s\'"]*', '<scratch>', str(e))[:300],
              at)) from e
