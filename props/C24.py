"""Result files appear complete or not at all.

The writer runs against a file system (registered with fsspec under its own protocol) that keeps the contents of every
path as ghost state.  Every operation may fail, before or after taking part of its effect, and another writer of the same
path may run at every operation.  The invariant "the final path holds the old or the complete new content" is checked in
every state the file system goes through, so it also covers a process that stops anywhere.
"""
import contextlib
import io
import os
import shutil
import signal
import tempfile
import threading

import fsspec
import numpy as np
from vc.contract import contract
from vc.terms import Unsupported
from weatherbenchX import aggregation
from weatherbenchX import beam_pipeline
from weatherbenchX import beam_utils
import xarray as xr

DIR, NAME = 'ghost/out/sub', 'metrics.nc'
FINAL = f'{DIR}/{NAME}'
URL = 'ghostfs://' + FINAL
OLD = b'the previous content'
NEW = b'the complete new content of this file'
OTHER = b'content from another writer'
NOPS = 14


class Killed(BaseException):
  """Stands for KeyboardInterrupt, SystemExit and the like."""


class State:
  """Ghost state: directories, contents, and every content the final path has had."""
  current = None

  def __init__(self, old, dirs, fail=None, rival=None, step=None, symbolic=False, final=FINAL):
    self.files = {final: old} if old is not None else {}
    self.dirs = set(dirs)
    self.final = final
    self.seen = [old]
    self.fail, self.rival, self.step, self.symbolic = fail, rival, step, symbolic
    self.injected = []
    self.native = []
    self.events = []
    self.allowed = []
    self.n = 0
    self.busy = False

  def allow(self, x):
    self.allowed.append(x)
    return x

  def event(self, name, path):
    """An operation begins: another writer may run first, and the operation may fail."""
    self.events.append((name, path))
    if self.step is not None:
      self.step(name)
    if self.busy:
      return False
    k = self.n
    self.n += 1
    if k >= NOPS:
      if self.symbolic:
        raise Unsupported('more operations than modelled')
      return False
    if self.rival is not None and self.rival(k):
      self.busy = True
      try:
        self.other()
      finally:
        self.busy = False
    return bool(self.fail is not None and self.fail(k))

  def boom(self, exc):
    e = exc('injected failure')
    self.injected.append(e)
    raise e

  def err(self, e):
    self.native.append(e)
    raise e

  def put(self, path, content):
    self.files[path] = content
    if path == self.final:
      self.seen.append(content)

  def drop(self, path):
    del self.files[path]
    if path == self.final:
      self.seen.append(None)


class GhostFile(io.RawIOBase):

  def __init__(self, fs, st, path, content):
    super().__init__()
    self.fs, self.st, self.path, self.content = fs, st, path, content
    self._done = False

  def writable(self):
    return True

  def seekable(self):
    return False

  def _put(self, content):
    # a handle keeps its file: once another writer has replaced or moved it, this one's data no longer has that name
    if self.st.files.get(self.path) is self.content:
      self.st.put(self.path, content)
    self.content = content

  def write(self, data):
    st = self.st
    if st.symbolic and not any(data is a for a in st.allowed):
      raise Unsupported('data written in another form')
    data = bytes(data)
    failed = st.event('write', self.path)
    if failed or st.symbolic or len(data) > 1:
      self._put(b''.join([self.content, data[:len(data) // 2]]))  # part of the data has arrived
    if failed:
      st.boom(self.fs.exc)
    self._put(b''.join([self.content[:len(self.content) - len(data) // 2], data]))
    return len(data)

  def close(self):
    if self._done:
      return
    self._done = True
    failed = self.st.event('close', self.path)
    super().close()
    if failed:
      # buffered data may be lost
      self._put(self.content[:len(self.content) // 2])
      self.st.boom(self.fs.exc)

  def __del__(self):
    pass


class GhostFS(fsspec.AbstractFileSystem):
  protocol = 'ghostfs'
  cachable = False
  exc = OSError

  @property
  def st(self):
    return State.current

  @classmethod
  def _strip_protocol(cls, path):
    return path.removeprefix('ghostfs://').rstrip('/')

  def _event(self, name, path):
    if self.st.event(name, path):
      self.st.boom(self.exc)

  def mkdir(self, path, create_parents=True, **kwargs):
    self._event('mkdir', path)
    path = self._strip_protocol(path)
    if path in self.st.dirs or path in self.st.files:
      self.st.err(FileExistsError(path))
    self.st.dirs.add(path)

  def makedirs(self, path, exist_ok=False):
    self._event('makedirs', path)
    path = self._strip_protocol(path)
    if path in self.st.files or (path in self.st.dirs and not exist_ok):
      self.st.err(FileExistsError(path))
    parts = path.split('/')
    for k in range(1, len(parts) + 1):
      self.st.dirs.add('/'.join(parts[:k]))

  def open(self, path, mode='rb', **kwargs):
    path = self._strip_protocol(path)
    if mode not in ('wb', 'xb'):
      if mode == 'rb':
        self._event('read', path)
        if path not in self.st.files:
          self.st.err(FileNotFoundError(path))
        return io.BytesIO(self.st.files[path])
      raise Unsupported(f'open mode {mode}')
    failed = self.st.event('open', path)
    if os.path.dirname(path) not in self.st.dirs:
      self.st.err(FileNotFoundError(path))
    if mode == 'xb' and path in self.st.files:
      self.st.err(FileExistsError(path))
    if failed and self.st.event('open-created', path):
      self.st.boom(self.exc)       # nothing was created
    content = bytes(bytearray())
    self.st.put(path, content)
    if failed:
      self.st.boom(self.exc)       # created, then the call failed
    return GhostFile(self, self.st, path, content)

  def rm_file(self, path):
    self._event('rm', path)
    path = self._strip_protocol(path)
    if path not in self.st.files:
      self.st.err(FileNotFoundError(path))
    self.st.drop(path)

  def rm(self, path, recursive=False, maxdepth=None):
    for p in [path] if isinstance(path, str) else list(path):
      self.rm_file(p)

  def _rm(self, path):
    self.rm_file(path)

  def delete(self, path, **kwargs):
    self.rm_file(path)

  def cp_file(self, path1, path2, **kwargs):
    """A copy is not atomic."""
    path1, path2 = self._strip_protocol(path1), self._strip_protocol(path2)
    failed = self.st.event('copy', path2)
    if path1 not in self.st.files:
      self.st.err(FileNotFoundError(path1))
    if os.path.dirname(path2) not in self.st.dirs:
      self.st.err(FileNotFoundError(path2))
    data = self.st.files[path1]
    self.st.put(path2, data[:len(data) // 2])
    if failed:
      self.st.boom(self.exc)
    self.st.put(path2, bytes(bytearray(data)))

  def copy(self, path1, path2, **kwargs):
    self.cp_file(path1, path2)

  def mv(self, path1, path2, **kwargs):
    """Moving within (or up from below) a directory replaces the target atomically; elsewhere it copies."""
    path1, path2 = self._strip_protocol(path1), self._strip_protocol(path2)
    d1, d2 = os.path.dirname(path1), os.path.dirname(path2)
    if d1 != d2 and not d1.startswith(d2 + '/'):
      self.cp_file(path1, path2)
      self.rm_file(path1)
      return
    failed = self.st.event('mv', path2)
    if path1 not in self.st.files:
      self.st.err(FileNotFoundError(path1))
    if d2 not in self.st.dirs:
      self.st.err(FileNotFoundError(path2))
    if failed and self.st.event('mv-done', path2):
      self.st.boom(self.exc)       # nothing moved
    data = self.st.files.pop(path1)
    self.st.put(path2, data)
    if failed:
      self.st.boom(self.exc)       # moved, but the call reports failure

  def mv_file(self, path1, path2, **kwargs):
    self.mv(path1, path2)

  def move(self, path1, path2, **kwargs):
    self.mv(path1, path2)

  def rename(self, path1, path2, **kwargs):
    self.mv(path1, path2)

  def info(self, path, **kwargs):
    self._event('info', path)
    path = self._strip_protocol(path)
    if path in self.st.files:
      return {'name': path, 'size': len(self.st.files[path]), 'type': 'file'}
    if path in self.st.dirs:
      return {'name': path, 'size': 0, 'type': 'directory'}
    self.st.err(FileNotFoundError(path))

  def exists(self, path, **kwargs):
    self._event('exists', path)
    path = self._strip_protocol(path)
    return path in self.st.files or path in self.st.dirs

  def ls(self, path, detail=True, **kwargs):
    self._event('ls', path)
    path = self._strip_protocol(path)
    names = [p for p in list(self.st.files) + list(self.st.dirs) if os.path.dirname(p) == path]
    return [{'name': p, 'size': 0, 'type': 'directory' if p in self.st.dirs else 'file'} for p in names] if detail else names


class KilledFS(GhostFS):
  exc = Killed


fsspec.register_implementation('ghostfs', GhostFS, clobber=True)


@contextlib.contextmanager
def filesystem(cls, st):
  saved = State.current
  fsspec.register_implementation('ghostfs', cls, clobber=True)
  State.current = st
  try:
    yield
  finally:
    State.current = saved
    fsspec.register_implementation('ghostfs', GhostFS, clobber=True)


def attempt(st, write):
  """Runs the writer; failures of the file system are results, anything else is the code's own."""
  try:
    write()
    return None
  except (OSError, Killed) as e:
    if not any(e is x for x in st.injected + st.native):
      raise
    return e


def choices(b, name, p):
  hs = [b.scalar(f'{name}{k}', 'b', gen=lambda rng: bool(rng.random() < p)) for k in range(NOPS)]
  return lambda k: bool(hs[k].val)


def payload(b, data):
  """Stands for any data: it may only be handed on as a whole."""
  return bytes(bytearray(data)) if b.symbolic else bytes(b.rng.bytes(int(b.rng.integers(0, 40)))) + data


def run(b, write, old, dirs, exc, faults=None, rival=None):
  """write(data) on a fresh ghost state, once."""
  fail = choices(b, 'fails', 0.12) if faults else None
  other_runs = choices(b, 'other', 0.15) if rival == 'any' else (lambda k: k == rival) if rival is not None else None
  def thunk():
    data = payload(b, NEW)
    st = State(old, dirs, fail, other_runs, None, b.symbolic)
    st.allow(data)
    other = st.allow(payload(b, OTHER))
    st.rivals = []
    def competing():
      e = attempt(st, lambda: write(other))
      st.rivals.append(e)
    st.other = competing
    with filesystem(exc, st):
      e = attempt(st, lambda: write(data))
    return dict(e=e, st=st, data=data, other=other)
  return thunk


def temps(st):
  return [p for p in st.files if p != st.final]


def post(old, auto=True, had_dir=True):
  def p(r):
    v = r.value
    st, e = v['st'], v['e']
    ok = [old, v['data']] + ([v['other']] if st.rivals else [])
    # every state: nothing, the old content or complete new content; it never disappears
    r.check('final-intact', all(x in ok for x in st.seen))
    first = next((k for k, x in enumerate(st.seen) if x is not None), len(st.seen))
    r.check('final-never-vanishes', all(x is not None for x in st.seen[first:]))
    if e is None:
      r.check('written', st.files.get(st.final) == v['data'] or (bool(st.rivals) and st.files.get(st.final) == v['other']))
      r.check('temporary-removed', not temps(st))
    else:
      r.check('fails-only-when-the-file-system-does', bool(st.injected) or (not auto and not had_dir))
      if not st.injected:
        r.check('nothing-created', not st.files or set(st.files) == {st.final})
        r.check('old-kept', st.files.get(st.final) == old)
    if len(st.injected) == 1 and st.events[-1][0] != 'mv' and not any(n in ('mv', 'mv-done', 'copy') for n, _ in st.events):
      r.check('failed-write-cleaned-up', not temps(st))
      r.check('failed-write-keeps-old', st.files.get(st.final) == old)
    if len(st.injected) == 1 and len(st.events) and not any(n == 'rm' for n, _ in st.events[:-1]):
      r.check('failure-reported-as-is', e is st.injected[0])
    r.check('competing-writers-succeed', all(x is None for x in st.rivals))
    if not auto and not had_dir:
      r.check('no-directory-made', DIR not in st.dirs)
  return p


KINDS = dict(error=GhostFS, interrupt=KilledFS)
PARENTS = {'ghost', 'ghost/out'}


def call(auto):
  kw = {} if auto == 'default' else dict(auto_mkdir=auto)
  return lambda data: beam_utils.atomic_write(URL, data, **kw)


def dirs_of(had_dir):
  return PARENTS | ({DIR} if had_dir else set())


@contract('write.failures', cases=[dict(kind=k, old=o, had_dir=d, auto=a) for k in KINDS for o in (False, True)
                                   for d in (True, False) for a in ('default', True, False) if d or not o], samples=40)
def _(b, kind, old, had_dir, auto):
  o = OLD if old else None
  b.ensures('write', run(b, call(auto), o, dirs_of(had_dir), KINDS[kind], faults=True), post(o, bool(auto), had_dir))


@contract('write.competing', cases=[dict(k=k, old=o) for k in range(NOPS) for o in (False, True)], samples=4,
          note='another writer of the same path runs to completion before the k-th operation of this one')
def _(b, k, old):
  o = OLD if old else None
  b.ensures('write', run(b, call('default'), o, dirs_of(old), GhostFS, rival=k), post(o))


@contract('write.competing_failures', cases=[dict(k=k) for k in range(NOPS)], samples=10)
def _(b, k):
  b.ensures('write', run(b, call('default'), OLD, dirs_of(True), GhostFS, faults=True, rival=k), post(OLD))


@contract('write.long_names', cases=[dict(url=u) for u in ('ghostfs://ghost/metrics', 'ghostfs://ghost/a.b/c d/tmp.x.nc', 'ghost_chained')], samples=3)
def _(b, url):
  final = (URL if url == 'ghost_chained' else url).removeprefix('ghostfs://')
  def thunk():
    data = payload(b, NEW)
    st = State(None, {'ghost'}, symbolic=b.symbolic, final=final)
    st.allow(data)
    st.rivals = []
    with filesystem(GhostFS, st):
      e = attempt(st, lambda: beam_utils.atomic_write('ghostfs://' + final, data))
    return dict(e=e, st=st, data=data, other=None)
  b.ensures('write', thunk, post(None))


class Opaque:
  """A dataset of which only dropping attributes and encoding are known."""

  def __init__(self, log, data, attrs):
    self._log, self._data, self._attrs = log, data, attrs

  def drop_attrs(self, *, deep=True):
    return Opaque(self._log, self._data, self._attrs and not deep)

  def to_netcdf(self):
    self._log.append(self._attrs)
    return self._data

  def __repr__(self):
    return 'opaque'

  def __getattr__(self, name):
    if name.startswith('__'):
      raise AttributeError(name)
    raise Unsupported(f'dataset.{name}')


class OpaqueState(Opaque):

  def to_dataset(self):
    return Opaque(self._log, self._data, True)


@contract('dofn.writes_complete', cases=[dict(what=w, kind=k, old=o) for w in ('metrics', 'state') for k in KINDS for o in (False, True)], samples=15)
def _(b, what, kind, old):
  o = OLD if old else None
  log = []
  def write(data):
    fn = (beam_pipeline.WriteMetrics if what == 'metrics' else beam_pipeline.WriteAggregationState)(URL)
    obj = (Opaque if what == 'metrics' else OpaqueState)(log, data, True)
    out = list(fn.process(obj))
    assert not out, out
  def p(r):
    r.check('attributes-dropped', not any(log))
    post(o)(r)
  b.ensures('write', run(b, write, o, dirs_of(True), KINDS[kind], faults=True), p)


# ---------------------------------------------------------------------------
# Bounded: full interleavings, real files

@contract('write.interleaved', mode='bounded', samples=150, note='two or three writers interleaved at every operation of the ghost file system')
def _(b):
  nw = int(b.rng.integers(2, 4))
  datas = [bytes(b.rng.bytes(int(b.rng.integers(1, 30)))) for _ in range(nw)]
  old = OLD if b.rng.random() < 0.5 else None
  order = [int(x) for x in b.rng.integers(0, nw, 200)]
  b.sampler.record[('args', '')] = str((datas, old, order[:40]))
  def thunk():
    cond = threading.Condition()
    alive, turn, errs = set(range(nw)), [0], {}
    pos = [0]
    me = threading.local()
    def next_turn():
      if alive:
        for _ in range(50):
          t = order[pos[0] % len(order)]
          pos[0] += 1
          if t in alive:
            break
        else:
          t = min(alive)
        turn[0] = t
      cond.notify_all()
    def step(_):
      with cond:
        next_turn()
        cond.wait_for(lambda: turn[0] == me.k, timeout=20)
    st = State(old, PARENTS, step=step)
    def worker(k):
      me.k = k
      with cond:
        cond.wait_for(lambda: turn[0] == k, timeout=20)
      try:
        beam_utils.atomic_write(URL, datas[k])
      except BaseException as e:  # pylint: disable=broad-except
        errs[k] = e
      with cond:
        alive.discard(k)
        next_turn()
    with filesystem(GhostFS, st):
      ts = [threading.Thread(target=worker, args=(k,), daemon=True) for k in range(nw)]
      for t in ts:
        t.start()
      for t in ts:
        t.join(30)
    return dict(st=st, errs=errs, hung=any(t.is_alive() for t in ts))
  def p(r):
    v = r.value
    st = v['st']
    r.check('no-errors', not v['errs'] and not v['hung'])
    r.check('final-intact', all(x == old or x in datas for x in st.seen))
    first = next((k for k, x in enumerate(st.seen) if x is not None), len(st.seen))
    r.check('final-never-vanishes', all(x is not None for x in st.seen[first:]))
    r.check('written', st.files.get(st.final) in datas)
    r.check('temporary-removed', not temps(st))
  b.ensures('write', thunk, p)


@contextlib.contextmanager
def scratch():
  d = tempfile.mkdtemp(prefix='c24_')
  try:
    yield d
  finally:
    shutil.rmtree(d, ignore_errors=True)


@contract('real.success', mode='bounded', samples=30)
def _(b):
  data = bytes(b.rng.bytes(int(b.rng.integers(0, 100000))))
  old = bytes(b.rng.bytes(100)) if b.rng.random() < 0.5 else None
  sub = str(b.rng.choice(['', 'a', 'a/b c/d']))
  scheme = str(b.rng.choice(['', 'file://']))
  auto = bool(b.rng.random() < 0.7)
  b.sampler.record[('args', '')] = str((len(data), old is None, sub, scheme, auto))
  def thunk():
    with scratch() as d:
      path = os.path.join(d, sub, 'out.nc')
      made = old is not None or sub == '' or b.rng.random() < 0.5
      if made:
        os.makedirs(os.path.dirname(path), exist_ok=True)
      if old is not None:
        with open(path, 'wb') as f:
          f.write(old)
      err = None
      try:
        beam_utils.atomic_write(scheme + path, data, auto_mkdir=auto)
      except FileNotFoundError as e:
        err = e
      names = os.listdir(os.path.dirname(path)) if os.path.isdir(os.path.dirname(path)) else None
      got = open(path, 'rb').read() if os.path.exists(path) else None
      return err, names, got, made
  def p(r):
    err, names, got, made = r.value
    if made or auto:
      r.check('written', err is None and got == data)
      r.check('temporary-removed', names == ['out.nc'])
    else:
      r.check('missing-directory', err is not None and names is None)
  b.ensures('write', thunk, p)


@contract('real.killed', mode='bounded', samples=6, note='a process writing in a loop is killed at an arbitrary moment')
def _(b):
  a, c = b'a' * 3_000_000, b'c' * 2_000_000
  delay = float(b.rng.uniform(0.0, 0.08))
  b.sampler.record[('args', '')] = str(delay)
  def thunk():
    with scratch() as d:
      path = os.path.join(d, 'out.nc')
      with open(path, 'wb') as f:
        f.write(a)
      rd, wr = os.pipe()
      pid = os.fork()
      if pid == 0:
        try:
          os.write(wr, b'x')
          for k in range(100000):
            beam_utils.atomic_write(path, c if k % 2 else a)
        finally:
          os._exit(3)
      try:
        os.read(rd, 1)
        seen = []
        import time
        end = time.time() + delay
        while True:
          with open(path, 'rb') as f:
            seen.append(f.read())
          if time.time() > end:
            break
      finally:
        os.kill(pid, signal.SIGKILL)
        _, status = os.waitpid(pid, 0)
        os.close(rd); os.close(wr)
      with open(path, 'rb') as f:
        seen.append(f.read())
      return all(x in (a, c) for x in seen), os.WIFSIGNALED(status)
  def p(r):
    r.check('readers-see-complete-content', r.value[0])
    r.check('writer-was-running', r.value[1])
  b.ensures('write', thunk, p)


def sample_dataset(b):
  n = int(b.rng.integers(1, 4))
  mk = lambda *s: np.where(b.rng.random(s) < 0.2, np.nan, b.rng.standard_normal(s))
  lead = np.arange(n).astype('timedelta64[h]').astype('timedelta64[ns]')
  return n, mk, lead


@contract('real.metrics_readback', mode='bounded', samples=12)
def _(b):
  n, mk, lead = sample_dataset(b)
  ds = xr.Dataset({'rmse.t': (('lead_time', 'lat'), mk(n, 2)), 'bias.t': ((), mk())}, coords=dict(lead_time=lead, lat=[0.0, 1.5]))
  ds.attrs['a'] = object(); ds['rmse.t'].attrs['units'] = object(); ds['lat'].attrs['z'] = object()
  def thunk():
    with scratch() as d:
      path = os.path.join(d, 'x', 'm.nc')
      beam_pipeline.WriteMetrics(path).process(ds)
      with xr.open_dataset(path, decode_timedelta=True) as f:
        return f.load(), os.listdir(os.path.dirname(path))
  def p(r):
    got, names = r.value
    r.check('same', got.equals(ds) and set(got.coords) == set(ds.coords))
    r.check('no-attributes', not got.attrs and not got['rmse.t'].attrs)
    r.check('one-file', names == ['m.nc'])
    r.check('input-kept', 'a' in ds.attrs and 'units' in ds['rmse.t'].attrs)
  b.ensures('write', thunk, p)


@contract('real.state_readback', mode='bounded', samples=12)
def _(b):
  n, mk, lead = sample_dataset(b)
  da = lambda: xr.DataArray(mk(n, 2), dims=('lead_time', 'lat'), coords=dict(lead_time=lead, lat=[0.0, 1.5]), attrs={'o': object()})
  st = aggregation.AggregationState({'SquaredError': {'t': da(), 'u v': da()}, 'E.x': {'t': da()}}, {'SquaredError': {'t': da(), 'u v': da()}, 'E.x': {'t': da()}})
  def thunk():
    with scratch() as d:
      path = os.path.join(d, 's.nc')
      beam_pipeline.WriteAggregationState(path).process(st)
      with xr.open_dataset(path, decode_timedelta=True) as f:
        return aggregation.AggregationState.from_dataset(f.load())
  def p(r):
    v = r.value
    for side in ('sum_weighted_statistics', 'sum_weights'):
      got, want = getattr(v, side), getattr(st, side)
      r.check('same', {s: set(x) for s, x in got.items()} == {s: set(x) for s, x in want.items()}
              and all(got[s][k].equals(want[s][k]) for s in want for k in want[s]))
  b.ensures('write', thunk, p)
