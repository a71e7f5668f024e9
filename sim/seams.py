"""Seams between the code under test and the simulator.

install() runs before any module of the code under test is imported.  It puts
stand-ins in front of the sources of nondeterminism the properties depend on;
each stand-in delegates to the original unless a World is active.
"""
import contextlib
import os
import sys
import time

_ACTIVE = None
_REAL = {}


def active():
  return _ACTIVE


@contextlib.contextmanager
def world(w):
  global _ACTIVE
  prev = _ACTIVE
  _ACTIVE = w
  try:
    yield w
  finally:
    _ACTIVE = prev
    _cleanup()


def active():
  """The world of the simulated run in progress, if there is one."""
  return _ACTIVE


_CLEANUPS = []


def on_cleanup(fn):
  _CLEANUPS.append(fn)


def _cleanup():
  while _CLEANUPS:
    _CLEANUPS.pop()()


EPOCH = 1_700_000_000.0


class _Clock:
  """time.* functions reading the simulated clock of the active world."""

  def __init__(self, real, scale=1.0, as_int=False, sut_only=False):
    self.real, self.scale, self.as_int = real, scale, as_int
    self.sut_only = sut_only

  def __call__(self):
    w = _ACTIVE
    if w is None:
      return self.real()
    if self.sut_only and not sys._getframe(1).f_globals.get(  # pylint: disable=protected-access
        '__name__', '').startswith('discs.'):
      return self.real()   # event loops and locks of the libraries
    t = (EPOCH + w.now) * self.scale
    return int(t) if self.as_int else t


def install_clock():
  for name, scale, as_int in (
      ('time', 1.0, False), ('perf_counter', 1.0, False),
      ('monotonic', 1.0, False), ('process_time', 1.0, False),
      ('time_ns', 1e9, True), ('perf_counter_ns', 1e9, True),
      ('monotonic_ns', 1e9, True)):
    real = getattr(time, name)
    _REAL[name] = real
    setattr(time, name, _Clock(
        real, scale, as_int, sut_only=name.startswith('monotonic')))
  real_sleep = time.sleep
  _REAL['sleep'] = real_sleep

  def sleep(s):
    w = _ACTIVE
    if w is None:
      return real_sleep(s)
    w.tick()
    w.advance(s)
  time.sleep = sleep


def real_time(name='monotonic'):
  return _REAL.get(name, getattr(time, name))()


# ---- dispatch seam ---------------------------------------------------------
# Compiled functions are how the code under test hands work to the devices.
# Each dispatch of a function compiled from a module of the code under test is
# one simulated event; `on_dispatch` of the active world (if set) decides how
# long it took on the simulated clock.


def _from_sut(depth=2):
  f = sys._getframe(depth)  # pylint: disable=protected-access
  n = 0
  while f is not None and n < 6:
    mod = f.f_globals.get('__name__', '')
    if mod.startswith('discs.'):
      return True
    if not mod.startswith(('functools', 'sim.seams')):
      return False
    f = f.f_back
    n += 1
  return False


def _describe(fun):
  """What a function is, as far as its names tell."""
  if hasattr(fun, 'func'):
    return ('partial', _describe(fun.func), sorted(fun.keywords), len(fun.args))
  inner = getattr(fun, '__wrapped__', None)
  return (type(fun).__name__, getattr(fun, '__qualname__', ''),
          _describe(inner) if inner is not None else None)


class Dispatch:
  """Callable standing in for a compiled function of the code under test."""

  def __init__(self, fn, name):
    self._fn = fn
    self.__name__ = name
    self.__wrapped__ = fn

  def __call__(self, *a, **k):
    w = _ACTIVE
    if w is None:
      return self._fn(*a, **k)
    hook = getattr(w, 'on_dispatch', None)
    if hook is None:
      w.tick()
      return self._fn(*a, **k)
    return hook(self, self._fn, a, k)

  def __getattr__(self, item):
    return getattr(self._fn, item)


def install_dispatch():
  import jax  # pylint: disable=g-import-not-at-top

  def wrap(kind):
    real = getattr(jax, kind)
    _REAL[kind] = real

    def compiled(fun=None, *a, **k):
      sut = _from_sut()
      if fun is None or not callable(fun):
        return real(*((fun,) + a if fun is not None else a), **k)
      out = real(fun, *a, **k)
      if not sut:
        return out
      d = Dispatch(out, kind + ':' + getattr(fun, '__name__', 'fn'))
      f = sys._getframe(1)  # pylint: disable=protected-access
      d.site = (kind, f.f_code.co_filename, f.f_lineno, _describe(fun))
      return d
    compiled.__name__ = kind
    setattr(jax, kind, compiled)
  wrap('jit')
  wrap('pmap')


# ---- file system seam ------------------------------------------------------
# Paths under the root of the active world's SimFS go through it; all other
# paths reach the real functions.  Files are real files in a scratch
# directory; the simulator decides order, errors, torn writes and crashes.


def _fs_for(path):
  w = _ACTIVE
  fs = getattr(w, 'fs', None) if w is not None else None
  if fs is None or isinstance(path, int):
    return None
  try:
    p = os.path.abspath(os.fspath(path))
  except TypeError:
    return None
  if isinstance(p, bytes):
    p = os.fsdecode(p)
  return fs if p == fs.root or p.startswith(fs.root + os.sep) else None


class SimFile:
  """A file of the code under test whose every operation is a seam event."""

  def __init__(self, fs, path, mode, real):
    self._fs, self._path, self._mode, self._f = fs, path, mode, real
    self._held, self._raw = [], False
    self.name = path

  def _writes(self):
    return any(c in self._mode for c in 'wax+')

  def read(self, *a):
    self._fs.event('read', self._path)
    return self._f.read(*a)

  def readinto(self, b):
    self._fs.event('read', self._path)
    return self._f.readinto(b)

  def readline(self, *a):
    self._fs.event('read', self._path)
    return self._f.readline(*a)

  def readlines(self, *a):
    self._fs.event('read', self._path)
    return self._f.readlines(*a)

  def write(self, data):
    if self._fs.buffered and not self._raw:
      if not isinstance(data, str):
        data = bytes(data)
      self._held.append(data)
      return len(data)
    n = len(data) if hasattr(data, '__len__') else memoryview(data).nbytes
    cut = self._fs.write_event(self._path, n)
    if cut is not None:
      keep, exc = cut
      if keep:
        self._f.write(data[:keep])
      self._f.flush()
      raise exc
    out = self._f.write(data)
    self._f.flush()      # what was handed to the system survives a crash
    return out

  def flush(self):
    """Hands what the process still holds to the system, as one write."""
    if not self._held:
      return
    data = self._held[0][:0].join(self._held)
    self._held = []
    self._raw = True
    try:
      self.write(data)
    finally:
      self._raw = False

  def writelines(self, lines):
    for line in lines:
      self.write(line)

  def close(self):
    if not self._f.closed:
      try:
        self.flush()
      finally:
        self._f.close()
      if self._writes():
        self._fs.event('close', self._path)

  def __del__(self):
    # A file nobody refers to any more is closed; errors go unnoticed.
    try:
      if not self._f.closed:
        self.close()
    except BaseException:  # pylint: disable=broad-except
      pass

  def __enter__(self):
    return self

  def __exit__(self, *a):
    self.close()

  def __iter__(self):
    return self

  def __next__(self):
    line = self.readline()
    if not line:
      raise StopIteration
    return line

  def __getattr__(self, item):
    if item.startswith('_'):
      raise AttributeError(item)
    if item not in ('closed', 'mode', 'encoding', 'newlines', 'readable',
                    'writable', 'seekable'):
      self.flush()
    return getattr(self._f, item)


class SimFS:
  """Fault policy over the files below `root`.

  policy(op, path, n) returns None (proceed), an exception to raise, or, for
  op 'write', a pair (bytes that still reach the file, exception).  With
  `buffered`, what is written to a file stays with the process until the file
  is flushed or closed, as it does for files smaller than the buffer; without,
  every write reaches the system at once.
  """

  def __init__(self, w, root, policy=None, order=None, buffered=False):
    self.buffered = buffered
    self.w, self.root = w, os.path.abspath(root)
    self.policy, self.order = policy, order
    self.ops = []
    self.dead = None
    w.fs = self

  def rel(self, path):
    return os.path.relpath(path, self.root)

  def _ask(self, op, path, n=0):
    if self.dead is not None:
      raise self.dead
    self.w.tick()
    self.ops.append((op, self.rel(path)))
    if self.policy is None:
      return None
    return self.policy(op, self.rel(path), n)

  def event(self, op, path):
    exc = self._ask(op, path)
    if exc is not None:
      self._raise(exc)

  def _raise(self, exc):
    from sim import world as W  # pylint: disable=g-import-not-at-top
    if isinstance(exc, W.SimCrash):
      self.dead = exc
    raise exc

  def write_event(self, path, n):
    from sim import world as W  # pylint: disable=g-import-not-at-top
    cut = self._ask('write', path, n)
    if cut is None:
      return None
    if not isinstance(cut, tuple):
      cut = (0, cut)
    if isinstance(cut[1], W.SimCrash):
      self.dead = cut[1]
    return cut

  def open(self, real, path, mode, a, k):
    self.event('open-' + ('w' if any(c in mode for c in 'wax') else 'r'),
               path)
    return SimFile(self, os.path.abspath(os.fspath(path)), mode,
                   real(path, mode, *a, **k))


def install_fs():
  import builtins  # pylint: disable=g-import-not-at-top
  import io  # pylint: disable=g-import-not-at-top
  real_open = builtins.open
  _REAL['open'] = real_open

  def sim_open(file, mode='r', *a, **k):
    fs = _fs_for(file)
    if fs is None:
      return real_open(file, mode, *a, **k)
    return fs.open(real_open, file, mode, a, k)
  builtins.open = sim_open
  io.open = sim_open

  def wrap1(name, op):
    real = getattr(os, name)
    _REAL['os.' + name] = real

    def fn(path='.', *a, **k):
      fs = _fs_for(path)
      if fs is not None:
        fs.event(op, path)
      return real(path, *a, **k)
    fn.__name__ = name
    setattr(os, name, fn)
  for name in ('remove', 'unlink', 'mkdir', 'rmdir'):
    wrap1(name, name)

  def wrap2(name):
    real = getattr(os, name)
    _REAL['os.' + name] = real

    def fn(src, dst, *a, **k):
      fs = _fs_for(dst)
      if fs is not None:
        fs.event('rename', dst)
      return real(src, dst, *a, **k)
    fn.__name__ = name
    setattr(os, name, fn)
  for name in ('rename', 'replace', 'link'):
    wrap2(name)

  real_listdir = os.listdir
  _REAL['os.listdir'] = real_listdir

  def listdir(path='.'):
    fs = _fs_for(path)
    out = real_listdir(path)
    if fs is None:
      return out
    fs.event('listdir', path)
    out = sorted(out)        # a directory has no order: the simulator's
    return fs.order(out) if fs.order else out
  os.listdir = listdir

  real_scandir = os.scandir
  _REAL['os.scandir'] = real_scandir

  class _Scan:
    def __init__(self, it):
      self._it = iter(it)

    def __iter__(self):
      return self

    def __next__(self):
      return next(self._it)

    def __enter__(self):
      return self

    def __exit__(self, *a):
      pass

    def close(self):
      pass

  def scandir(path='.'):
    fs = _fs_for(path)
    if fs is None:
      return real_scandir(path)
    fs.event('listdir', path)
    with real_scandir(path) as it:
      entries = {e.name: e for e in it}
    names = sorted(entries)
    if fs.order:
      names = fs.order(names)
    return _Scan([entries[n] for n in names])
  os.scandir = scandir


# ---- topology seam ---------------------------------------------------------


class Topology:
  """What the process sees of the machine: devices here, processes in all."""

  def __init__(self, w, local=1, process=0, processes=1):
    self.local, self.process, self.processes = local, process, processes
    w.topology = self


def install_topology():
  import jax  # pylint: disable=g-import-not-at-top

  def topo():
    return getattr(_ACTIVE, 'topology', None) if _ACTIVE is not None else None

  def wrap(name, fn):
    real = getattr(jax, name)
    _REAL['jax.' + name] = real

    def seam(*a, **k):
      t = topo()
      return real(*a, **k) if t is None else fn(t, real, a, k)
    seam.__name__ = name
    setattr(jax, name, seam)
  wrap('local_device_count', lambda t, real, a, k: t.local)
  wrap('device_count', lambda t, real, a, k: t.local * t.processes)
  wrap('process_index', lambda t, real, a, k: t.process)
  wrap('process_count', lambda t, real, a, k: t.processes)
  wrap('local_devices', lambda t, real, a, k: real(*a, **k)[:t.local])


def install():
  install_clock()
  repo = os.environ.get('SIM_REPO', '/repo')
  if repo not in sys.path:
    sys.path.insert(0, repo)
  install_fs()
  install_dispatch()
  install_topology()
