"""Dense oracle, verdict helpers and the description of a check."""
import re
import numpy as np
import tensorflow as tf
import t3f


class Violation(Exception):
  """The property is broken by the case."""


class Endless(BaseException):
  """A case takes too long."""


class Skip(Exception):
  """The case is outside of the domain of the property."""


# Relative round-off tolerances; multiplied by the scale of the computation.
TOL = {'float64': 1e-10, 'float32': 3e-5}


class Op(object):

  def __init__(self, name, make, strategy, run, quick, thorough):
    self.name, self.run = name, run
    # make(choices) and the strategy of Hypothesis generate the same cases.
    self.make, self.strategy = make, strategy
    self.quick, self.thorough = quick, thorough


class Check(object):
  """A property with its operations: each one is a generator and an oracle."""

  def __init__(self, id, rule=None, nontrivial=None, assumptions=(),
               clear_session=False):
    self.id = id
    self.ops = {}
    self.rule = rule or (
        'A case counts if some TT-object in it has at least two cores, a '
        'TT-rank above 1 and is not the zero tensor; cases are distinct if '
        'their JSON differs.')
    self._nontrivial = nontrivial
    self.assumptions = list(assumptions) or [
        'NumPy dense arithmetic in float64 is taken as the truth',
        'tolerance 1e-10 (float64) / 3e-5 (float32) relative to the '
        'contraction of absolute values of the cores']
    self.clear_session = clear_session
    self.known_rules = {}

  def op(self, name, gen, quick=400, thorough=None):
    from hypothesis import strategies as st
    thorough = quick * 12 if thorough is None else thorough

    def make(draw):
      from harness.gen import seed
      case = gen(draw)
      if 'seed' not in case:
        case['seed'] = seed(draw)
      return case

    def deco(run):
      assert name not in self.ops, name
      self.ops[name] = Op(name, make, st.composite(make)(), run, quick,
                          thorough)
      return run
    return deco

  def nontrivial(self, case):
    if self._nontrivial is not None:
      return bool(self._nontrivial(case))
    return any(spec_nontrivial(s) for s in specs_in(case))

  def classify(self, case):
    res = set()
    for s in specs_in(case):
      res.add('%s%s' % ('matrix' if s.get('m') is not None else 'tensor',
                        '' if s.get('bs') is None else '-batch'))
      res.add('cores=%d' % len(s['n']))
      res.add('max-rank=%d' % max(s['r']))
      res.add('dtype=%s' % s['dtype'])
      res.add('fill=%s' % s['fill'])
      if s.get('bs') is not None:
        res.add('batch=%d' % s['bs'])
    return ['op=' + case['op']] + sorted(res)

  def known(self, case, message):
    for key, rule in self.known_rules.items():
      if rule(case, message):
        return key
    return None


def specs_in(x):
  """All descriptions of TT-objects inside of a case."""
  if isinstance(x, dict):
    if 'fill' in x and 'r' in x and 'n' in x:
      yield x
    else:
      for k in sorted(x):
        for s in specs_in(x[k]):
          yield s
  elif isinstance(x, (list, tuple)):
    for y in x:
      for s in specs_in(y):
        yield s


def spec_nontrivial(s):
  return len(s['n']) >= 2 and max(s['r']) >= 2 and s['fill'] != 'zero'


def fail(fmt, *args):
  raise Violation(fmt % args if args else fmt)


def require(cond, fmt, *args):
  if not cond:
    fail(fmt, *args)


# ---------------------------------------------------------------- arguments


def _fill(rng, shape, fill, dtype, position, ncores):
  """Numbers of one core of one element."""
  wide = 1.0 if dtype == 'float32' else 3.0
  if fill == 'normal':
    return rng.randn(*shape)
  if fill == 'int':
    return rng.randint(-3, 4, size=shape).astype(float)
  if fill == 'pos':
    return rng.uniform(0.5, 1.5, size=shape)
  if fill == 'scaled':
    return rng.randn(*shape) * 10.0 ** rng.uniform(-wide, wide)
  if fill == 'sparse':
    return rng.randn(*shape) * (rng.rand(*shape) < 0.4)
  if fill == 'deficient':
    core = rng.randn(*shape)
    if shape[-1] > 1:
      core[..., -1] = core[..., 0]
    if shape[0] > 1 and rng.rand() < 0.5:
      core[-1] = -2.0 * core[0]
    return core
  if fill == 'zerocore':
    core = rng.randn(*shape)
    if position == ncores // 2:
      core[...] = 0
    return core
  if fill == 'zero':
    return np.zeros(shape)
  if fill == 'small':
    return rng.randn(*shape) * 0.03
  raise AssertionError(fill)


MIXED = ('normal', 'zerocore', 'scaled', 'deficient', 'int', 'sparse', 'small')


def np_cores(spec):
  """The cores described by a case, in the dtype of the case."""
  rng = np.random.RandomState(spec['seed'] % (2 ** 32))
  n, m, r, bs = spec['n'], spec.get('m'), spec['r'], spec.get('bs')
  d = len(n)
  cores = []
  start = rng.randint(len(MIXED))
  for k in range(d):
    shape = [r[k], n[k]] + ([] if m is None else [m[k]]) + [r[k + 1]]
    items = []
    for b in range(1 if bs is None else bs):
      f = spec['fill']
      if f == 'mixed':
        f = MIXED[(start + b) % len(MIXED)]
      items.append(_fill(rng, shape, f, spec['dtype'], k, d))
    core = items[0] if bs is None else np.stack(items, 0)
    cores.append(core.astype(spec['dtype']))
  return cores


class Ref(object):
  """A dense value with its TT-structure: the model of a TT-object.

  d: float64 values, [bs] + n, or [bs] + [N, M] for matrices;
  a: the same contraction of absolute values (scale for round-off);
  q: product of Frobenius norms of the cores, per element (scale for QR, SVD).
  """

  def __init__(self, d, a, n, m=None, bs=None, dtype='float64', q=None):
    self.d, self.a, self.n, self.m, self.bs = d, a, list(n), m, bs
    self.dtype = dtype
    self.m = None if m is None else list(m)
    self.q = q

  def like(self, d, a, **kw):
    args = dict(n=self.n, m=self.m, bs=self.bs, dtype=self.dtype)
    args.update(kw)
    return Ref(d, a, **args)

  @property
  def item_shape(self):
    if self.m is None:
      return tuple(self.n)
    return (prod(self.n), prod(self.m))

  @property
  def shape(self):
    return (() if self.bs is None else (self.bs,)) + self.item_shape

  def items(self):
    """Dense values of elements, as a list."""
    return [self.d] if self.bs is None else list(self.d)


def prod(xs):
  res = 1
  for x in xs:
    res *= int(x)
  return res


def contract(cores, matrix, batch):
  """Dense values of a train of cores (float64), by definition."""
  cores = [np.asarray(c, dtype=np.float64) for c in cores]
  if not batch:
    cores = [c[None] for c in cores]
  if not matrix:
    n = [c.shape[2] for c in cores]
    cores = [c[:, :, :, None, :] for c in cores]
  b = cores[0].shape[0]
  acc = np.ones((b, 1, 1, 1))
  for c in cores:
    acc = np.einsum('bijr,brnms->binjms', acc, c)
    acc = acc.reshape(b, acc.shape[1] * acc.shape[2],
                      acc.shape[3] * acc.shape[4], acc.shape[5])
  acc = acc[..., 0]
  if not matrix:
    acc = acc.reshape([b] + n)
  return acc if batch else acc[0]


def ref_of_cores(cores, matrix, batch, dtype):
  d = contract(cores, matrix, batch)
  a = contract([np.abs(c) for c in cores], matrix, batch)
  off = 1 if batch else 0
  n = [c.shape[off + 1] for c in cores]
  m = [c.shape[off + 2] for c in cores] if matrix else None
  bs = cores[0].shape[0] if batch else None
  if batch:
    q = np.prod([np.sqrt((np.asarray(c, np.float64) ** 2).reshape(bs, -1).sum(1))
                 for c in cores], axis=0)
  else:
    q = np.prod([np.linalg.norm(np.asarray(c, np.float64)) for c in cores])
  return Ref(d, a, n, m, bs, dtype, q)


class Arg(object):
  """An argument of an operation: TT-object, its cores and dense model."""

  def __init__(self, spec):
    self.spec = spec
    self.cores = np_cores(spec)
    self.matrix = spec.get('m') is not None
    self.bs = spec.get('bs')
    self.ref = ref_of_cores(self.cores, self.matrix, self.bs is not None,
                            spec['dtype'])
    self.tt = make_tt(self.cores, self.bs is not None)
    self.d, self.a, self.q = self.ref.d, self.ref.a, self.ref.q
    self.n, self.m, self.r = spec['n'], spec.get('m'), spec['r']
    self.dtype = spec['dtype']


def make_tt(cores, batch):
  cores = [tf.constant(c) for c in cores]
  return t3f.TensorTrainBatch(cores) if batch else t3f.TensorTrain(cores)


# ------------------------------------------------------------------ results


def is_tt(obj):
  return isinstance(obj, (t3f.TensorTrain, t3f.TensorTrainBatch))


def to_np(x, what='result'):
  """NumPy value of a dense result of the library."""
  if is_tt(x):
    fail('%s is a TT-object instead of a dense tensor', what)
  try:
    return np.asarray(x.numpy() if hasattr(x, 'numpy') else x)
  except Exception as e:  # pylint: disable=broad-except
    fail('%s is not a tensor: %r (%s)', what, type(x), e)


def result_cores(obj, what='result'):
  if not is_tt(obj):
    fail('%s is %r instead of a TT-object', what, type(obj))
  return [to_np(c, what + ' core') for c in obj.tt_cores]


def as_int_list(x):
  return [None if v is None else int(v) for v in
          (x.as_list() if hasattr(x, 'as_list') else list(x))]


def check_structure(obj, matrix, n, m, bs, dtype, what='result', max_r=None):
  """The object is a valid TT-object of the given kind and metadata."""
  cores = result_cores(obj, what)
  batch = bs is not None
  kind = t3f.TensorTrainBatch if batch else t3f.TensorTrain
  require(isinstance(obj, kind), '%s: expected %s, got %s', what,
          kind.__name__, type(obj).__name__)
  require(len(cores) == len(n), '%s: %d cores instead of %d', what,
          len(cores), len(n))
  off = 1 if batch else 0
  ranks = [1]
  for k, c in enumerate(cores):
    require(c.ndim == off + 3 + (1 if matrix else 0),
            '%s: core %d has shape %s', what, k, c.shape)
    if batch:
      require(c.shape[0] == bs, '%s: core %d has batch size %d instead of %d',
              what, k, c.shape[0], bs)
    require(c.shape[off] == ranks[-1],
            '%s: core %d has left rank %d, the previous has right rank %d',
            what, k, c.shape[off], ranks[-1])
    ranks.append(c.shape[-1])
    modes = (c.shape[off + 1],) + ((c.shape[off + 2],) if matrix else ())
    want = (n[k],) + ((m[k],) if matrix else ())
    require(tuple(modes) == tuple(want), '%s: core %d has modes %s instead of '
            '%s', what, k, modes, want)
    require(c.dtype == np.dtype(dtype), '%s: core %d has dtype %s instead of '
            '%s', what, k, c.dtype, dtype)
  require(ranks[-1] == 1, '%s: last rank is %d', what, ranks[-1])
  if max_r is not None:
    require(all(a <= b for a, b in zip(ranks, max_r)),
            '%s: TT-ranks %s exceed %s', what, ranks, list(max_r))
  # Reported metadata.
  require(obj.ndims() == len(n), '%s: ndims %s', what, obj.ndims())
  require(bool(obj.is_tt_matrix()) == bool(matrix), '%s: is_tt_matrix is %s',
          what, obj.is_tt_matrix())
  require(as_int_list(obj.get_tt_ranks()) == ranks, '%s: reported ranks %s, '
          'actual %s', what, obj.get_tt_ranks(), ranks)
  raw = [as_int_list(s) for s in obj.get_raw_shape()]
  want = [list(n)] + ([list(m)] if matrix else [])
  require(raw == want, '%s: reported raw shape %s instead of %s', what, raw,
          want)
  shape = as_int_list(obj.get_shape())
  want = ([bs] if batch else []) + (
      [prod(n), prod(m)] if matrix else list(n))
  require(shape == want, '%s: reported shape %s instead of %s', what, shape,
          want)
  if batch:
    require(int(obj.batch_size) == bs, '%s: reported batch size %s', what,
            obj.batch_size)
  require(obj.dtype == tf.as_dtype(dtype), '%s: reported dtype %s', what,
          obj.dtype)
  return cores, ranks


def check_structure_any(obj, matrix, n, m, bs, dtype, what='result'):
  """check_structure for dtypes that NumPy may not know by name."""
  return check_structure(obj, matrix, n, m, bs, tf.as_dtype(dtype).as_numpy_dtype,
                         what)


def check_queries(obj, what='object'):
  """All the shape queries of the library agree with the actual cores."""
  cores = result_cores(obj, what)
  batch = isinstance(obj, t3f.TensorTrainBatch)
  off = 1 if batch else 0
  matrix = cores[0].ndim - off == 4
  n = [int(c.shape[off + 1]) for c in cores]
  m = [int(c.shape[off + 2]) for c in cores] if matrix else None
  bs = int(cores[0].shape[0]) if batch else None
  dtype = cores[0].dtype.name
  _, ranks = check_structure(obj, matrix, n, m, bs, dtype, what)
  raw = [n] + ([m] if matrix else [])
  shape = ([bs] if batch else []) + ([prod(n), prod(m)] if matrix else n)

  def same(x, want, name):
    got = np.asarray(x.numpy() if hasattr(x, 'numpy') else x)
    require(got.shape == np.shape(want) and np.all(got == np.asarray(want)),
            '%s: %s is %s instead of %s', what, name, got.tolist(), want)
    require(np.issubdtype(got.dtype, np.integer), '%s: %s has dtype %s', what,
            name, got.dtype)
  same(t3f.shape(obj), shape, 't3f.shape')
  same(t3f.lazy_shape(obj), shape, 't3f.lazy_shape')
  same(t3f.raw_shape(obj), raw, 't3f.raw_shape')
  same(t3f.lazy_raw_shape(obj), raw, 't3f.lazy_raw_shape')
  same(t3f.tt_ranks(obj), ranks, 't3f.tt_ranks')
  same(t3f.lazy_tt_ranks(obj), ranks, 't3f.lazy_tt_ranks')
  if batch:
    same(t3f.batch_size(obj), bs, 't3f.batch_size')
    same(t3f.lazy_batch_size(obj), bs, 't3f.lazy_batch_size')
  else:
    must_raise(lambda: t3f.batch_size(obj), ValueError, 'batch_size of a single')
    must_raise(lambda: t3f.lazy_batch_size(obj), ValueError,
               'lazy_batch_size of a single')
  for k, c in enumerate(cores):
    require(c.shape[obj.left_tt_rank_dim] == ranks[k] and
            obj.left_tt_rank_dim == off, '%s: left_tt_rank_dim', what)
    require(obj.right_tt_rank_dim == c.ndim - 1, '%s: right_tt_rank_dim', what)
  check_text(str(obj), raw, ranks, bs, what)
  require(('variable' in str(obj)) == bool(obj.is_variable()),
          '%s: is_variable and the description "%s"', what, obj)
  return dict(n=n, m=m, bs=bs, ranks=ranks, dtype=dtype, matrix=matrix,
              shape=shape)


def check_text(text, raw, ranks, bs, what):
  """The description names the sizes and the TT-ranks, in any wording."""
  groups = [[int(v) for v in re.findall(r'\d+', g)]
            for g in re.findall(r'[(\[]([\d, ]*)[)\]]', text)]
  for sizes in raw + [ranks]:
    require(list(sizes) in groups, '%s: %s is not in the description "%s"',
            what, sizes, text)
  if bs is not None:
    rest = re.sub(r'[(\[][\d, ]*[)\]]', '', text)
    require([bs] in groups or str(bs) in re.findall(r'\d+', rest),
            '%s: batch size %s is not in the description "%s"', what, bs, text)


def close(got, want, scale, dtype, what='value', tol=None):
  """|got - want| <= tol * scale everywhere."""
  got = np.asarray(got, dtype=np.float64)
  want = np.asarray(want, dtype=np.float64)
  require(got.shape == want.shape, '%s: shape %s instead of %s', what,
          got.shape, want.shape)
  if got.size == 0:
    return
  tol = TOL[dtype] if tol is None else tol
  tiny = 1e-30 if dtype == 'float32' else 1e-250
  bound = tol * np.asarray(scale, dtype=np.float64) + tiny
  err = np.abs(got - want)
  bad = ~(err <= bound)
  if np.any(bad):
    bad = np.broadcast_to(bad, got.shape)
    idx = np.unravel_index(int(np.argmax(bad)), got.shape) if got.shape else ()
    bb = np.broadcast_to(bound, got.shape)
    fail('%s: at %s got %r, expected %r (allowed error %.3g); max error %.3g',
         what, tuple(int(i) for i in idx), float(got[idx]), float(want[idx]),
         float(bb[idx]), float(np.nanmax(err)))


def item_max(a, bs):
  """Maximum per batch element, broadcastable against the values."""
  a = np.asarray(a, np.float64)
  if bs is None:
    return np.max(a) if a.size else 0.0
  res = a.reshape(bs, -1).max(1)
  return res.reshape([bs] + [1] * (a.ndim - 1))


def expect_tt(obj, ref, what='result', tol=None, max_r=None, scale=None):
  """The TT-object has the structure and the values of the model."""
  cores, ranks = check_structure(obj, ref.m is not None, ref.n, ref.m, ref.bs,
                                 ref.dtype, what, max_r)
  got = contract(cores, ref.m is not None, ref.bs is not None)
  if scale is None:
    scale = item_max(ref.a, ref.bs)
  close(got, np.asarray(ref.d).reshape(got.shape), scale, ref.dtype,
        what + ' (dense)', tol)
  return got, ranks


def expect_dense(x, want, scale, dtype, what='result', tol=None):
  got = to_np(x, what)
  require(got.dtype == np.dtype(dtype), '%s: dtype %s instead of %s', what,
          got.dtype, dtype)
  close(got, want, scale, dtype, what, tol)
  return got


def must_raise(fn, kinds=Exception, what='call'):
  """fn() has to raise; kinds: which exceptions are accepted."""
  try:
    res = fn()
  except kinds:
    return
  except Exception as e:  # pylint: disable=broad-except
    fail('%s raised %s (%s) instead of %s', what, type(e).__name__,
         str(e)[:200], getattr(kinds, '__name__', kinds))
  fail('%s was accepted and returned %s', what, str(res)[:200])


def bcast(xs_bs):
  """Resulting batch size of broadcasting, None if no batch is involved."""
  sizes = [b for b in xs_bs if b is not None]
  if not sizes:
    return None
  return max(sizes)


def lift(x, bs):
  """Adds/broadcasts a leading batch axis to the dense values of an Arg/Ref."""
  d, a = x.d, x.a
  if x.bs is None:
    d, a = d[None], a[None]
  return (np.broadcast_to(d, (bs,) + d.shape[1:]),
          np.broadcast_to(a, (bs,) + a.shape[1:]))
