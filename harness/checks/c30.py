"""C30: index unraveling and the NumPy replacement of the SVD."""
import contextlib
import inspect

import numpy as np
import tensorflow as tf
import t3f
from harness import core, gen
from harness.core import Arg, require
from harness.checks import c04, c05

CHECK = core.Check('C30', assumptions=[
    'np.unravel_index and np.linalg.svd are taken as the truth'],
    rule='A case counts if there are at least 2 dimensions with more than one '
         'entry (indices) or the matrices have more than one row and column; '
         'distinct by JSON.',
    nontrivial=lambda c: nontrivial(c))


def nontrivial(c):
  if c['op'] in ('unravel', 'linear'):
    return sum(s > 1 for s in c['shape']) >= 2 and len(c['idx']) > 0
  if c['op'] in ('svd', 'history'):
    return c['n'] > 1 and c['m'] > 1
  return any(core.spec_nontrivial(s) for s in core.specs_in(c)) or \
      len(c.get('n', [])) > 1


# -------------------------------------------------------------------- indices


def gen_unravel(draw):
  big = gen.flag(draw)
  d = gen.integer(draw, 1, 8)
  if big:
    shape = [gen.integer(draw, 1, 150) for _ in range(d)]
  else:
    shape = [gen.integer(draw, 1, 6) for _ in range(d)]
  total = core.prod(shape)
  dt = gen.pick(draw, 'int64', 'int64', 'int32')
  while dt == 'int32' and total >= 2 ** 31:
    shape.pop()
    total = core.prod(shape)
  special = [0, total - 1, total // 2, min(total - 1, shape[-1])]
  idx = [gen.pick(draw, gen.integer(draw, 0, total - 1), gen.pick(
      draw, *special)) for _ in range(gen.integer(draw, 0, 6))]
  return dict(shape=shape, idx=idx, dt=dt, form=gen.pick(
      draw, 'tensor', 'tensor', 'array', 'function', 'unknown'))


def unravel(idx, shape, dt, form):
  i, s = np.array(idx, dt), np.array(shape, dt)
  fn = t3f.utils.unravel_index
  if form == 'array':
    return fn(i, s)
  if form == 'tensor':
    return fn(tf.constant(i), tf.constant(s))
  if form == 'function':
    return tf.function(lambda a: fn(a, tf.constant(s)))(tf.constant(i))
  return tf.function(fn, input_signature=[
      tf.TensorSpec([None], dt), tf.TensorSpec([len(s)], dt)])(i, s)


@CHECK.op('unravel', gen_unravel, quick=900)
def run_unravel(case):
  shape, idx, dt = case['shape'], case['idx'], case['dt']
  got = core.to_np(unravel(idx, shape, dt, case['form']))
  want = [list(np.unravel_index(i, shape)) for i in idx]
  want = np.array(want, np.int64).reshape(len(idx), len(shape))
  require(got.shape == want.shape, 'shape %s instead of %s', got.shape,
          want.shape)
  require(got.dtype == np.dtype(dt), 'dtype %s instead of %s', got.dtype, dt)
  require(np.array_equal(got, want), 'indices %s in shape %s: %s instead of %s',
          idx, shape, got.tolist(), want.tolist())


@CHECK.op('linear', gen_unravel, quick=300)
def run_linear(case):
  """Consecutive linear indices enumerate the entries in the row-major order."""
  shape = [min(s, 5) for s in case['shape'][:5]]
  total = core.prod(shape)
  got = core.to_np(unravel(list(range(total)), shape, case['dt'],
                           case['form']))
  want = np.stack([i.ravel() for i in np.indices(shape)], -1)
  require(np.array_equal(got, want), 'indices of all the entries of %s', shape)


# ------------------------------------------------------------------------ SVD


seen = []  # Not empty after the first replacement in this process.


@contextlib.contextmanager
def replaced(times):
  """tf.linalg.svd replaced `times` times; restores the original afterwards."""
  original = tf.linalg.svd
  try:
    for _ in range(times):
      t3f.utils.replace_tf_svd_with_np_svd()
    if times and not seen:
      seen.append(True)
      require(tf.linalg.svd is not original, 'nothing is replaced')
    yield original
  finally:
    tf.linalg.svd = original
    if hasattr(tf, 'original_svd'):
      del tf.original_svd


def gen_svd(draw):
  return dict(n=gen.integer(draw, 1, 7), m=gen.integer(draw, 1, 7),
              lead=[gen.integer(draw, 1, 3)
                    for _ in range(gen.pick(draw, 0, 0, 1, 2))],
              dt=gen.pick(draw, 'float64', 'float64', 'float32', 'complex128',
                          'complex64'),
              fill=gen.pick(draw, 'normal', 'normal', 'low', 'zero', 'equal',
                            'tiny'),
              full=gen.pick(draw, None, False, True), times=gen.integer(
                  draw, 1, 3), seed=gen.seed(draw), form=gen.pick(
                      draw, 'tensor', 'tensor', 'variable', 'array'),
              args=gen.pick(draw, 'kw', 'positional', 'name'))


def matrices(case):
  rng = np.random.RandomState(case['seed'] % 2 ** 32)
  n, m = case['n'], case['m']
  shape = case['lead'] + [n, m]

  def randn(*s):
    x = rng.randn(*s)
    return x + 1j * rng.randn(*s) if 'complex' in case['dt'] else x
  f = case['fill']
  if f == 'low':
    x = np.matmul(randn(*(case['lead'] + [n, 1])), randn(*(case['lead'] +
                                                           [1, m])))
  elif f == 'zero':
    x = np.zeros(shape)
  elif f == 'equal':
    x = np.broadcast_to(np.eye(n, m), shape).copy()
  elif f == 'tiny':
    x = 1e-8 * randn(*shape)
  else:
    x = randn(*shape)
  return x.astype(case['dt'])


def judge_svd(x, s, u, v, full, what):
  n, m = x.shape[-2:]
  k = min(n, m)
  lead = x.shape[:-2]
  s, u, v = [np.asarray(core.to_np(t, what)) for t in (s, u, v)]
  real = x.real.dtype
  require(s.shape == lead + (k,), '%s: singular values of shape %s', what,
          s.shape)
  require(u.shape == lead + (n, n if full else k), '%s: u of shape %s', what,
          u.shape)
  require(v.shape == lead + (m, m if full else k), '%s: v of shape %s', what,
          v.shape)
  require(s.dtype == real and u.dtype == x.dtype and v.dtype == x.dtype,
          '%s: dtypes %s %s %s', what, s.dtype, u.dtype, v.dtype)
  tol = 1e-12 if real == np.float64 else 1e-5
  size = np.abs(x).max() * max(n, m) if x.size else 0
  ref = np.linalg.svd(x.astype(np.complex128), compute_uv=False)
  require(np.all(np.abs(s - ref) <= tol * size * 10), '%s: singular values %s '
          'instead of %s', what, s, ref)
  require(np.all(np.diff(s, axis=-1) <= 0), '%s: order of %s', what, s)
  for q, name in ((u, 'u'), (v, 'v')):
    g = np.matmul(q.conj().swapaxes(-1, -2), q)
    require(np.all(np.abs(g - np.eye(q.shape[-1])) <= tol * 50),
            '%s: %s is not orthonormal', what, name)
  back = np.matmul(u[..., :k] * s[..., None, :],
                   v[..., :k].conj().swapaxes(-1, -2))
  require(np.all(np.abs(back - x) <= tol * size * 50), '%s: u s v^* differs '
          'from the matrix by %s', what, np.abs(back - x).max())


@CHECK.op('svd', gen_svd, quick=700)
def svd(case):
  x = matrices(case)
  arg = {'tensor': lambda: tf.constant(x), 'variable': lambda: tf.Variable(x),
         'array': lambda: x}[case['form']]()
  full = case['full']
  with replaced(case['times']):
    if case['args'] == 'positional' and full is not None:
      res = tf.linalg.svd(arg, full)
      vals = tf.linalg.svd(arg, full, False)
    else:
      kw = {} if full is None else dict(full_matrices=full)
      if case['args'] == 'name':
        kw['name'] = 'decomposition'
      res = tf.linalg.svd(arg, **kw)
      vals = tf.linalg.svd(arg, compute_uv=False, **kw)
  require(isinstance(res, (tuple, list)) and len(res) == 3, 'svd returned %s',
          type(res))
  judge_svd(x, *res, full=bool(full), what='svd')
  got = core.to_np(vals, 'compute_uv=False')
  want = core.to_np(res[0])
  require(got.dtype == want.dtype and got.shape == want.shape,
          'compute_uv=False: %s %s', got.dtype, got.shape)
  tol = 1e-12 if want.dtype == np.float64 else 1e-5
  require(np.all(np.abs(got - want) <= tol * (1e-300 + np.abs(want).max() *
                                              20)), 'compute_uv=False: %s '
          'instead of %s', got, want)


@CHECK.op('history', gen_svd, quick=150)
def history(case):
  """The original is kept; repeated calls change nothing."""
  if 'complex' in case['dt']:
    case = dict(case, dt='float64')
  x = matrices(case)
  t = tf.constant(x)
  with replaced(0) as original:
    for i in range(case['times']):
      t3f.utils.replace_tf_svd_with_np_svd()
      judge_svd(x, *tf.linalg.svd(t), full=False, what='call %d' % i)
    kept = getattr(tf, 'original_svd', original)
    judge_svd(x, *kept(t), full=False, what='the original')
    old = list(inspect.signature(original).parameters)
    new = inspect.signature(tf.linalg.svd).parameters
    if not any(p.kind == p.VAR_POSITIONAL for p in new.values()):
      require(list(new)[:len(old)] == old, 'arguments %s instead of %s',
              list(new), old)


def with_times(gen_fn):
  def new(draw):
    return dict(gen_fn(draw), times=gen.integer(draw, 1, 2))
  return new


@CHECK.op('round', with_times(lambda draw: c05.gen_round(draw, maxr=4)),
          quick=350)
def round_(case):
  with replaced(case['times']):
    c05.run_round(case)


@CHECK.op('redundant', with_times(c05.gen_redundant), quick=150)
def redundant(case):
  with replaced(case['times']):
    c05.redundant(case)


@CHECK.op('to_tt_tensor', with_times(c04.gen_tensor), quick=300)
def to_tt_tensor(case):
  with replaced(case['times']):
    c04.tensor(case)


@CHECK.op('to_tt_matrix', with_times(c04.gen_matrix), quick=300)
def to_tt_matrix(case):
  with replaced(case['times']):
    c04.matrix(case)


def gen_same(draw):
  return dict(x=gen.tt(draw, size=300, fills=gen.REGULAR), f=gen.pick(
      draw, 'project', 'add_n', 'round', 'gradients'), times=1)


@CHECK.op('other', gen_same, quick=150)
def other(case):
  """Other functions give the same values with and without the replacement."""
  x = Arg(case['x'])
  f = case['f']

  def run():
    if f == 'project':
      if x.bs is None:
        return t3f.project(x.tt, x.tt)
      return t3f.project(x.tt, x.tt[0])
    if f == 'add_n':
      return t3f.approximate.add_n([x.tt, x.tt, x.tt], 2 * max(x.r))
    if f == 'gradients' and x.bs is None:
      return t3f.gradients(lambda t: t3f.frobenius_norm_squared(
          t, differentiable=True), x.tt, runtime_check=False)
    return t3f.round(x.tt)

  a = core.result_cores(run())
  with replaced(1):
    b = core.result_cores(run())
  p, q = [core.contract(c, x.matrix, x.bs is not None) for c in (a, b)]
  size = 10 * np.max(x.q)
  if f == 'project' and x.bs is not None:
    # The point is the first element; the others need not be in its space.
    p, q = p[0], q[0]
  core.close(p, q, 5 * size, x.dtype, f)
